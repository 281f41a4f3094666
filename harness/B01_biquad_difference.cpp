// @mode real
// @bound every real coefficient and input; the first 7 outputs from rest for each of the three step functions (two arbitrary inputs already reach every internal state, so the later outputs cover an arbitrary history); b-only construction; the float instantiation with exact real arithmetic
// @assume exact reals (rounding is outside the claim); a program stays with one realization form between resets
#include "bq.h"

template< int FORM > void differ( int n )
{
    const Co c = anyco( 'c' );
    BQ f = make( c );
    Ref r = { c };
    for( int i = 0; i < n; ++i )
    {
        const double x = input( i );
        vp_eq( go( f, x, FORM ), r( x ), "output satisfies the difference equation" );
    }
}
VP_HARNESS( h_step ) { differ<0>( 7 ); }
VP_HARNESS( h_df2 ) { differ<1>( 7 ); }
VP_HARNESS( h_df2_transposed ) { differ<2>( 7 ); }
VP_HARNESS( h_forms_agree ) {
    const Co c = anyco( 'c' );
    BQ f = make( c ), g = make( c ), h = make( c );
    for( int i = 0; i < 6; ++i )
    {
        const double x = input( i ), y = f.step( x );
        vp_eq( y, g.step_df2( x ), "step() is the direct form 2 step" );
        vp_eq( y, h.step_df2_transposed( x ), "both realization forms give the same output" );
    }
}
VP_HARNESS( h_fir ) {
    BQ::B b; b.b0 = vp_real("b0"); b.b1 = vp_real("b1"); b.b2 = vp_real("b2");
    BQ f( b );
    double x1 = 0, x2 = 0;
    for( int i = 0; i < 5; ++i )
    {
        const double x = input( i );
        vp_eq( f.step( x ), b.b0 * x + b.b1 * x1 + b.b2 * x2, "without a-coefficients the filter is a moving average" );
        x2 = x1; x1 = x;
    }
}
VP_HARNESS( h_default ) {
    BQ f;
    vp_check( (f.coeff_a().a1 == 0) & (f.coeff_a().a2 == 0) & (f.coeff_b().b0 == 0) & (f.coeff_b().b1 == 0) & (f.coeff_b().b2 == 0), "a default filter has zero coefficients" );
    vp_check( (f.state().v1 == 0) & (f.state().v2 == 0), "a new filter is at rest" );
    for( int i = 0; i < 3; ++i )
        vp_eq( f.step( input( i ) ), 0, "a default filter outputs zero" );
}
VP_HARNESS( h_observers ) {
    const Co c = anyco( 'c' );
    BQ f = make( c );
    vp_check( (f.state().v1 == 0) & (f.state().v2 == 0), "a new filter is at rest" );
    for( int i = 0; i < 2; ++i )
    {
        f.step( input( i ) );
        vp_eq( f.coeff_a().a1, c.a1, "coefficients are kept" );
        vp_eq( f.coeff_a().a2, c.a2, "coefficients are kept" );
        vp_eq( f.coeff_b().b0, c.b0, "coefficients are kept" );
        vp_eq( f.coeff_b().b1, c.b1, "coefficients are kept" );
        vp_eq( f.coeff_b().b2, c.b2, "coefficients are kept" );
    }
}
VP_HARNESS( h_mixed_types ) {
    // value type and coefficient type may differ
    using F = BiQuadT<double, float>;
    F::B b; b.b0 = 0.5f; b.b1 = -2; b.b2 = 0.25f;
    F::A a; a.a1 = 0.75f; a.a2 = -1.5f;
    F f( b, a );
    Ref r = { { 0.5, -2, 0.25, 0.75, -1.5 } };
    for( int i = 0; i < 5; ++i )
    {
        const double x = input( i );
        vp_eq( f.step( x ), r( x ), "output satisfies the difference equation with float coefficients" );
    }
}
// complex values and coefficients (the tests' stand-in for a user-defined arithmetic type)
using Z = std::complex<double>;
inline Z anyz( char c, int i )
{
    char s[4] = { c, char('0' + i), 'r', 0 };
    const double re = vp_real( s ); s[2] = 'i';
    return Z( re, vp_real( s ) );
}
template< int FORM > void complex_values( int n )
{
    using F = BiQuadT<Z>;
    F::B b; b.b0 = anyz( 'b', 0 ); b.b1 = anyz( 'b', 1 ); b.b2 = anyz( 'b', 2 );
    F::A a; a.a1 = anyz( 'a', 1 ); a.a2 = anyz( 'a', 2 );
    F f( b, a );
    Z x1 = 0, x2 = 0, y1 = 0, y2 = 0;
    for( int i = 0; i < n; ++i )
    {
        const Z x = anyz( 'x', i );
        const Z y = b.b0 * x + b.b1 * x1 + b.b2 * x2 - a.a1 * y1 - a.a2 * y2;
        const Z g = FORM == 1 ? f.step_df2( x ) : FORM == 2 ? f.step_df2_transposed( x ) : f.step( x );
        vp_eq( g.real(), y.real(), "output satisfies the difference equation with complex values (real part)" );
        vp_eq( g.imag(), y.imag(), "output satisfies the difference equation with complex values (imaginary part)" );
        x2 = x1; x1 = x; y2 = y1; y1 = y;
    }
}
VP_HARNESS( h_complex ) { complex_values<0>( 4 ); }
VP_HARNESS( h_complex_df2 ) { complex_values<1>( 4 ); }
VP_HARNESS( h_complex_transposed ) { complex_values<2>( 4 ); }
// coefficients given with an a0 other than one are normalized by dividing both sets by it
VP_HARNESS( h_normalize ) {
    const Co c = anyco( 'c' );
    const double a0 = vp_real("a0");
    vp_assume( a0 != 0 );
    BQ::B b; b.b0 = c.b0; b.b1 = c.b1; b.b2 = c.b2;
    BQ::A a; a.a1 = c.a1; a.a2 = c.a2;
    BQ f( b / a0, a / a0 );
    double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
    for( int i = 0; i < 4; ++i )
    {
        const double x = input( i ), y = f.step( x );
        vp_eq( a0 * y, c.b0 * x + c.b1 * x1 + c.b2 * x2 - c.a1 * y1 - c.a2 * y2, "a filter with coefficients divided by a0 satisfies the general difference equation" );
        x2 = x1; x1 = x; y2 = y1; y1 = y;
    }
}
