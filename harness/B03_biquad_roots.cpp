// @mode real
// @bound every quadratic with a non-zero leading coefficient; every pair of real zeros and poles, every complex-conjugate pair, every gain; four outputs of the constructed filter
// @assume exact reals (rounding is outside the claim); zeros and poles come as two real numbers or a conjugate pair, as the constructor documents
#include "bq.h"
using C = std::complex<double>;

VP_HARNESS( h_solve ) {
    const double a = vp_real("a"), b = vp_real("b"), c = vp_real("c");
    vp_assume( a != 0 );
    auto s = dsp::solve( a, b, c );
    // Vieta: a (x - s0)(x - s1) = a x^2 + b x + c
    vp_eq( a * ( s.s0.real() + s.s1.real() ), -b, "sum of the roots" );
    vp_eq( s.s0.imag() + s.s1.imag(), 0, "sum of the roots is real" );
    vp_eq( a * ( s.s0.real() * s.s1.real() - s.s0.imag() * s.s1.imag() ), c, "product of the roots" );
    vp_eq( s.s0.real() * s.s1.imag() + s.s0.imag() * s.s1.real(), 0, "product of the roots is real" );
}
VP_HARNESS( h_poles_zeros ) {
    const Co c = anyco( 'c' );
    vp_assume( c.b0 != 0 );
    BQ f = make( c );
    auto p = f.poles();
    auto z = f.zeros();
    vp_eq( p.s0.real() + p.s1.real(), -c.a1, "poles are the roots of 1, a1, a2: sum" );
    vp_eq( p.s0.real() * p.s1.real() - p.s0.imag() * p.s1.imag(), c.a2, "poles are the roots of 1, a1, a2: product" );
    vp_eq( p.s0.imag() + p.s1.imag(), 0, "poles are a conjugate pair or real" );
    vp_eq( p.s0.imag() * ( p.s0.real() - p.s1.real() ), 0, "complex poles are conjugate" );
    vp_eq( c.b0 * ( z.s0.real() + z.s1.real() ), -c.b1, "zeros are the roots of b0, b1, b2: sum" );
    vp_eq( c.b0 * ( z.s0.real() * z.s1.real() - z.s0.imag() * z.s1.imag() ), c.b2, "zeros are the roots of b0, b1, b2: product" );
    vp_eq( z.s0.imag() + z.s1.imag(), 0, "zeros are a conjugate pair or real" );
    vp_eq( z.s0.imag() * ( z.s0.real() - z.s1.real() ), 0, "complex zeros are conjugate" );
}
BQ::Solution pair( char const * n, bool conj )
{
    char s[3] = { n[0], '1', 0 }, t[3] = { n[0], '2', 0 };
    const double p = vp_real( s ), q = vp_real( t );
    BQ::Solution r;
    r.s0 = conj ? C( p, q ) : C( p, 0 );
    r.s1 = conj ? C( p, -q ) : C( q, 0 );
    return r;
}
VP_HARNESS( h_zpk ) {
    const bool cz = vp_choose( "complex zeros", 2 ), cp = vp_choose( "complex poles", 2 );
    const double k = vp_real("k");
    auto z = pair( "z", cz ), p = pair( "p", cp );
    BQ f( z, p, k );
    const double sz = z.s0.real() + z.s1.real(), pz = z.s0.real() * z.s1.real() - z.s0.imag() * z.s1.imag();
    const double sp = p.s0.real() + p.s1.real(), pp = p.s0.real() * p.s1.real() - p.s0.imag() * p.s1.imag();
    vp_eq( f.coeff_b().b0, k, "leading coefficient is the gain" );
    vp_eq( f.coeff_b().b1, -k * sz, "numerator has the given zeros" );
    vp_eq( f.coeff_b().b2, k * pz, "numerator has the given zeros" );
    vp_eq( f.coeff_a().a1, -sp, "denominator has the given poles" );
    vp_eq( f.coeff_a().a2, pp, "denominator has the given poles" );
    vp_check( (f.state().v1 == 0) & (f.state().v2 == 0), "a new filter is at rest" );
    Ref r = { { k, -k * sz, k * pz, -sp, pp } };
    for( int i = 0; i < 4; ++i )
    {
        const double x = input( i );
        vp_eq( f.step( x ), r( x ), "filter made from zeros, poles and gain" );
    }
}
VP_HARNESS( h_zpk_round_trip ) {
    const bool cp = vp_choose( "complex poles", 2 );
    auto z = pair( "z", false ), p = pair( "p", cp );
    const double k = vp_real("k");
    vp_assume( k != 0 );
    BQ f( z, p, k );
    auto q = f.poles(), y = f.zeros();
    vp_eq( q.s0.real() + q.s1.real(), p.s0.real() + p.s1.real(), "poles() returns the poles given: sum" );
    vp_eq( q.s0.real() * q.s1.real() - q.s0.imag() * q.s1.imag(), p.s0.real() * p.s1.real() - p.s0.imag() * p.s1.imag(), "poles() returns the poles given: product" );
    vp_eq( q.s0.imag() * q.s0.imag(), p.s0.imag() * p.s0.imag(), "poles() returns the poles given: imaginary part" );
    vp_eq( y.s0.real() + y.s1.real(), z.s0.real() + z.s1.real(), "zeros() returns the zeros given: sum" );
    vp_eq( y.s0.real() * y.s1.real(), z.s0.real() * z.s1.real(), "zeros() returns the zeros given: product" );
}
