// @mode real
// @bound every real coefficient; every normalized frequency (through an arbitrary point on the unit circle); 4 steps of the steady-state identity
// @assume exact reals; frequencies where the denominator vanishes are outside the claim
#include "bq.h"
using C = std::complex<double>;

VP_HARNESS( h_transfer ) {
    const Co k = anyco( 'k' );
    const double f = vp_real("f");
    // the same angle as the code uses, so that cos and sin are the same points of the circle
    const double w = 2 * num::pi<double> * f, c = std::cos( w ), s = std::sin( w );
    const double nr = k.b0 + k.b1 * c + k.b2 * ( c * c - s * s ), ni = -( k.b1 * s + k.b2 * 2 * s * c );
    const double dr = 1 + k.a1 * c + k.a2 * ( c * c - s * s ), di = -( k.a1 * s + k.a2 * 2 * s * c );
    vp_assume( dr * dr + di * di != 0 );
    auto h = dsp::response( make( k ), f );
    vp_eq( h.real() * ( dr * dr + di * di ), nr * dr + ni * di, "response is the transfer function on the unit circle: real part" );
    vp_eq( h.imag() * ( dr * dr + di * di ), ni * dr - nr * di, "response is the transfer function on the unit circle: imaginary part" );
}
// A complex exponential that has always been applied comes out multiplied by the response.
VP_HARNESS( h_steady_state ) {
    const Co k = anyco( 'k' );
    const double f = vp_real("f");
    const double w = 2 * num::pi<double> * f, c = std::cos( w ), s = std::sin( w );
    const double dr = 1 + k.a1 * c + k.a2 * ( c * c - s * s ), di = -( k.a1 * s + k.a2 * 2 * s * c );
    vp_assume( dr * dr + di * di != 0 );
    auto H = dsp::response( make( k ), f );
    C const z( c, s );
    C const i1( c, -s ), i2 = i1 * i1;
    // y = H z^n in the difference equation, divided by z^n
    C const lhs = H, rhs = k.b0 + k.b1 * i1 + k.b2 * i2 - k.a1 * H * i1 - k.a2 * H * i2;
    vp_eq( lhs.real(), rhs.real(), "a steady sinusoid is scaled by the response: real part" );
    vp_eq( lhs.imag(), rhs.imag(), "a steady sinusoid is scaled by the response: imaginary part" );
}
VP_HARNESS( h_dc ) {
    const Co k = anyco( 'k' );
    vp_assume( 1 + k.a1 + k.a2 != 0 );
    auto h = dsp::response( make( k ), 0.0 );
    vp_eq( h.real() * ( 1 + k.a1 + k.a2 ), k.b0 + k.b1 + k.b2, "response at frequency zero is the DC gain" );
    vp_eq( h.imag(), 0, "response at frequency zero is real" );
}
VP_HARNESS( h_impulse ) {
    // a moving average: its response is the transform of its impulse response
    const double b0 = vp_real("b0"), b1 = vp_real("b1"), b2 = vp_real("b2"), f = vp_real("f");
    BQ q = make( { b0, b1, b2, 0, 0 } );
    auto h = dsp::response( q, f );
    const double w = 2 * num::pi<double> * f, c = std::cos( w ), s = std::sin( w );
    const double y0 = q.step( 1 ), y1 = q.step( 0 ), y2 = q.step( 0 ), y3 = q.step( 0 );
    vp_eq( y3, 0, "impulse response of a moving average ends" );
    vp_eq( h.real(), y0 + y1 * c + y2 * ( c * c - s * s ), "response is the transform of the impulse response: real part" );
    vp_eq( h.imag(), -y1 * s - y2 * 2 * s * c, "response is the transform of the impulse response: imaginary part" );
}
VP_HARNESS( h_conjugate ) {
    const Co k = anyco( 'k' );
    const double f = vp_real("f");
    const double w = 2 * num::pi<double> * f, c = std::cos( w ), s = std::sin( w );
    const double dr = 1 + k.a1 * c + k.a2 * ( c * c - s * s ), di = -( k.a1 * s + k.a2 * 2 * s * c );
    vp_assume( dr * dr + di * di != 0 );
    auto h = dsp::response( make( k ), f ), g = dsp::response( make( k ), -f );
    vp_eq( h.real(), g.real(), "response at a negative frequency is the conjugate: real part" );
    vp_eq( h.imag(), -g.imag(), "response at a negative frequency is the conjugate: imaginary part" );
}
