// @mode real
// @bound every real coefficient, input and frequency; sequences of up to 6 inputs; reset, copy and swap after 0 to 3 of them; real and float coefficient types
// @assume exact reals (rounding is outside the claim); frequencies where the denominator vanishes are outside the response claim
#include "vp.h"
#include <cmath>
#include <complex>
#include "dsp/onepole.hpp"
using OP = dsp::OnePoleT<double>;

template< typename F = OP > F make( double b0, double a1 )
{
    typename F::B b; b.b0 = b0;
    typename F::A a; a.a1 = a1;
    return F( b, a );
}
static double input( int i ) { char s[3] = { 'x', char('0' + i), 0 }; return vp_real( s ); }

VP_HARNESS( h_difference ) {
    const double b0 = vp_real("b0"), a1 = vp_real("a1");
    OP f = make( b0, a1 );
    vp_eq( f.state().v1, 0, "a new filter is at rest" );
    vp_eq( f.coeff_b().b0, b0, "coefficients are kept" );
    vp_eq( f.coeff_a().a1, a1, "coefficients are kept" );
    double y = 0;
    for( int i = 0; i < 6; ++i )
    {
        const double x = input( i );
        y = b0 * x - a1 * y;
        vp_eq( f.step( x ), y, "output satisfies the difference equation" );
    }
}
// @fopt f32=exact
VP_HARNESS( h_float ) {
    using F = dsp::OnePoleT<double, float>;
    const double b0 = vp_real("b0"), a1 = vp_real("a1");
    F f = make<F>( b0, a1 );
    double y = 0;
    for( int i = 0; i < 4; ++i )
    {
        const double x = input( i );
        y = b0 * x - a1 * y;
        vp_eq( f.step( x ), y, "output satisfies the difference equation with float coefficients" );
    }
}
VP_HARNESS( h_default ) {
    OP f;
    vp_eq( f.coeff_b().b0, 0, "a default filter has zero coefficients" );
    vp_eq( f.coeff_a().a1, 0, "a default filter has zero coefficients" );
    vp_eq( f.step( input( 0 ) ), 0, "a default filter outputs zero" );
    vp_eq( f.step( input( 1 ) ), 0, "a default filter outputs zero" );
}
VP_HARNESS( h_gain_only ) {
    OP::B b; b.b0 = vp_real("b0");
    OP f( b );
    for( int i = 0; i < 3; ++i )
    {
        const double x = input( i );
        vp_eq( f.step( x ), b.b0 * x, "without a-coefficient the filter is a gain" );
    }
}
VP_HARNESS( h_linear ) {
    const double b0 = vp_real("b0"), a1 = vp_real("a1"), p = vp_real("p"), q = vp_real("q");
    OP f = make( b0, a1 ), g = make( b0, a1 ), h = make( b0, a1 );
    for( int i = 0; i < 4; ++i )
    {
        char n[3] = { 'u', char('0' + i), 0 };
        const double x = input( i ), u = vp_real( n );
        const double y = f.step( x ), w = g.step( u ), s = h.step( p * x + q * u );
        vp_eq( s, p * y + q * w, "the response to a weighted sum is the weighted sum of the responses" );
    }
}
VP_HARNESS( h_reset ) {
    const double b0 = vp_real("b0"), a1 = vp_real("a1");
    OP f = make( b0, a1 ), g = make( b0, a1 );
    const int n = vp_range( "before", 0, 3 );
    for( int i = 0; i < n; ++i ) f.step( vp_real("old") );
    f.reset();
    vp_eq( f.state().v1, 0, "after reset the filter is at rest" );
    for( int i = 0; i < 3; ++i )
    {
        const double x = input( i );
        vp_eq( f.step( x ), g.step( x ), "after reset the filter acts as a new one" );
    }
    vp_eq( f.coeff_b().b0, b0, "reset keeps the coefficients" );
    vp_eq( f.coeff_a().a1, a1, "reset keeps the coefficients" );
}
VP_HARNESS( h_delay ) {
    const double b0 = vp_real("b0"), a1 = vp_real("a1");
    OP f = make( b0, a1 ), g = make( b0, a1 );
    const int n = vp_range( "delay", 1, 3 );
    for( int i = 0; i < n; ++i )
        vp_eq( g.step( 0 ), 0, "a filter at rest stays at rest without input" );
    for( int i = 0; i < 3; ++i )
    {
        const double x = input( i );
        vp_eq( g.step( x ), f.step( x ), "a delayed input gives the same output, delayed" );
    }
}
VP_HARNESS( h_copy ) {
    OP f = make( vp_real("b0"), vp_real("a1") );
    for( int i = 0; i < 2; ++i ) f.step( input( i ) );
    OP g( f ), h, k = make( vp_real("c0"), vp_real("d1") );
    h = f;
    g.step( vp_real("other") );
    k.step( vp_real("more") );
    k = f;
    for( int i = 2; i < 5; ++i )
    {
        const double x = input( i ), y = f.step( x );
        vp_eq( h.step( x ), y, "a copy continues as the original, whatever another copy did" );
        vp_eq( k.step( x ), y, "assignment copies the history as well" );
    }
}
VP_HARNESS( h_swap ) {
    OP f = make( vp_real("b0"), vp_real("a1") ), g = make( vp_real("c0"), vp_real("d1") );
    for( int i = 0; i < 2; ++i ) { f.step( input( i ) ); g.step( input( i + 2 ) ); }
    OP f0( f ), g0( g );
    f.swap( g );
    for( int i = 4; i < 7; ++i )
    {
        const double x = input( i );
        vp_eq( f.step( x ), g0.step( x ), "swap exchanges coefficients and history" );
        vp_eq( g.step( x ), f0.step( x ), "swap exchanges coefficients and history" );
    }
}
VP_HARNESS( h_pole ) {
    const double b0 = vp_real("b0"), a1 = vp_real("a1");
    OP f = make( b0, a1 );
    auto p = f.poles();
    // the denominator 1 + a1 / z vanishes at the pole
    vp_eq( p.s0.real(), -a1, "the pole is the root of the denominator" );
    vp_eq( p.s0.imag(), 0, "the pole is real" );
    auto z = f.zeros();
    vp_eq( z.s0.real(), 0, "the zero is at the origin" );
    vp_eq( z.s0.imag(), 0, "the zero is at the origin" );
}
VP_HARNESS( h_stable ) {
    const double b0 = vp_real("b0"), a1 = vp_real("a1");
    const bool s = make( b0, a1 ).is_stable();
    vp_check( s == ( a1 * a1 <= 1 ), "stable exactly if the pole is in the closed unit disc" );
    vp_check( make( vp_real("c0"), a1 ).is_stable() == s, "stability depends on the denominator only" );
}
VP_HARNESS( h_solve ) {
    const double a = vp_real("a"), b = vp_real("b");
    vp_assume( a != 0 );
    auto r = dsp::onepole::solve( a, b );
    vp_eq( a * r.s0.real() + b, 0, "root of a first degree polynomial" );
    vp_eq( r.s0.imag(), 0, "root of a first degree polynomial" );
}
VP_HARNESS( h_response ) {
    const double b0 = vp_real("b0"), a1 = vp_real("a1"), f = vp_real("f");
    const double w = 2 * num::pi<double> * f, c = std::cos( w ), s = std::sin( w );
    const double dr = 1 + a1 * c, di = -a1 * s;
    vp_assume( dr * dr + di * di != 0 );
    auto h = dsp::response( make( b0, a1 ), f );
    vp_eq( h.real() * ( dr * dr + di * di ), b0 * dr, "response is the transfer function on the unit circle: real part" );
    vp_eq( h.imag() * ( dr * dr + di * di ), -b0 * di, "response is the transfer function on the unit circle: imaginary part" );
    auto g = dsp::response( make( b0, a1 ), -f );
    vp_eq( h.real(), g.real(), "response at a negative frequency is the conjugate: real part" );
    vp_eq( h.imag(), -g.imag(), "response at a negative frequency is the conjugate: imaginary part" );
}
VP_HARNESS( h_ends ) {
    const double b0 = vp_real("b0"), a1 = vp_real("a1");
    vp_assume( ( 1 + a1 != 0 ) & ( 1 - a1 != 0 ) );
    auto h = dsp::response( make( b0, a1 ), 0.0 );
    auto g = dsp::response( make( b0, a1 ), 0.5 );
    vp_eq( h.real() * ( 1 + a1 ), b0, "response at frequency zero is the DC gain" );
    vp_eq( h.imag(), 0, "response at frequency zero is real" );
    vp_eq( g.real() * ( 1 - a1 ), b0, "response at half the sample rate" );
}
// a settled constant is scaled by the response at frequency zero
VP_HARNESS( h_settled ) {
    const double b0 = vp_real("b0"), a1 = vp_real("a1"), v = vp_real("v");
    vp_assume( ( b0 != 0 ) & ( 1 + a1 != 0 ) );
    OP f = make( b0, a1 );
    f.step( v / ( 1 + a1 ) );
    const double g = dsp::response( make( b0, a1 ), 0.0 ).real();
    for( int i = 0; i < 3; ++i )
        vp_eq( f.step( v ), g * v, "a settled constant is scaled by the DC response" );
}
// complex values and coefficients
VP_HARNESS( h_complex ) {
    using Z = std::complex<double>;
    using F = dsp::OnePoleT<Z>;
    F::B b; b.b0 = Z( vp_real("b0r"), vp_real("b0i") );
    F::A a; a.a1 = Z( vp_real("a1r"), vp_real("a1i") );
    F f( b, a );
    Z y = 0;
    for( int i = 0; i < 4; ++i )
    {
        char s[3] = { 'x', char('0' + i), 0 }, t[3] = { 'z', char('0' + i), 0 };
        const Z x( vp_real( s ), vp_real( t ) );
        y = b.b0 * x - a.a1 * y;
        const Z g = f.step( x );
        vp_eq( g.real(), y.real(), "output satisfies the difference equation with complex values (real part)" );
        vp_eq( g.imag(), y.imag(), "output satisfies the difference equation with complex values (imaginary part)" );
    }
}
// coefficients given with an a0 other than one are normalized by dividing both by it
VP_HARNESS( h_normalize ) {
    const double b0 = vp_real("b0"), a1 = vp_real("a1"), a0 = vp_real("a0");
    vp_assume( a0 != 0 );
    OP::B b; b.b0 = b0;
    OP::A a; a.a1 = a1;
    OP f( b / a0, a / a0 );
    double y = 0;
    for( int i = 0; i < 4; ++i )
    {
        const double x = input( i ), was = y;
        y = f.step( x );
        vp_eq( a0 * y, b0 * x - a1 * was, "a filter with coefficients divided by a0 satisfies the general difference equation" );
    }
}
VP_HARNESS( h_mixed_types ) {
    // value type and coefficient type may differ
    using F = dsp::OnePoleT<double, float>;
    F::B b; b.b0 = -1.5f;
    F::A a; a.a1 = 0.75f;
    F f( b, a );
    double y = 0;
    for( int i = 0; i < 4; ++i )
    {
        const double x = input( i );
        y = -1.5 * x - 0.75 * y;
        vp_eq( f.step( x ), y, "output satisfies the difference equation with float coefficients and is not narrowed to them" );
    }
}
// a filter from its pole and gain; its zero is at the origin
VP_HARNESS( h_pole_and_gain ) {
    const double p = vp_real("p"), k = vp_real("k");
    OP::Solution zero, pole;
    zero.s0 = 0; pole.s0 = p;
    OP f( zero, pole, k );
    vp_eq( f.poles().s0.real(), p, "pole of a filter made from its pole and gain" );
    vp_eq( f.poles().s0.imag(), 0, "pole of a filter made from its pole and gain" );
    double y = 0;
    for( int i = 0; i < 3; ++i )
    {
        const double x = input( i );
        y = k * x + p * y;
        vp_eq( f.step( x ), y, "output of a filter made from its pole and gain" );
    }
}
