// @mode real
// @bound every real coefficient, weight and input; sequences of up to 5 inputs, reset and swap after 0 to 3 of them; all three step functions
// @assume exact reals (rounding is outside the claim)
#include "bq.h"

template< int FORM > void linear()
{
    const Co c = anyco( 'c' );
    const double p = vp_real("p"), q = vp_real("q");
    BQ f = make( c ), g = make( c ), h = make( c );
    for( int i = 0; i < 4; ++i )
    {
        char n[3] = { 'u', char('0' + i), 0 };
        const double x = input( i ), u = vp_real( n );
        const double y = go( f, x, FORM ), w = go( g, u, FORM ), s = go( h, p * x + q * u, FORM );
        vp_eq( s, p * y + q * w, "the response to a weighted sum is the weighted sum of the responses" );
    }
}
template< int FORM > void reset_()
{
    const Co c = anyco( 'c' );
    BQ f = make( c ), g = make( c );
    const int n = vp_range( "before", 0, 3 );
    for( int i = 0; i < n; ++i )
        go( f, vp_real("old"), FORM );
    f.reset();
    vp_check( (f.state().v1 == 0) & (f.state().v2 == 0), "after reset the filter is at rest" );
    for( int i = 0; i < 4; ++i )
    {
        const double x = input( i );
        vp_eq( go( f, x, FORM ), go( g, x, FORM ), "after reset the filter acts as a new one" );
    }
}
template< int FORM > void delay()
{
    const Co c = anyco( 'c' );
    BQ f = make( c ), g = make( c );
    const int n = vp_range( "delay", 1, 3 );
    for( int i = 0; i < n; ++i )
        vp_eq( go( g, 0, FORM ), 0, "a filter at rest stays at rest without input" );
    for( int i = 0; i < 4; ++i )
    {
        const double x = input( i );
        vp_eq( go( g, x, FORM ), go( f, x, FORM ), "a delayed input gives the same output, delayed" );
    }
}
VP_HARNESS( h_linear ) { linear<0>(); }
VP_HARNESS( h_linear_df2 ) { linear<1>(); }
VP_HARNESS( h_linear_transposed ) { linear<2>(); }
VP_HARNESS( h_reset ) { reset_<0>(); }
VP_HARNESS( h_reset_df2 ) { reset_<1>(); }
VP_HARNESS( h_reset_transposed ) { reset_<2>(); }
VP_HARNESS( h_delay ) { delay<0>(); }
VP_HARNESS( h_delay_transposed ) { delay<2>(); }

VP_HARNESS( h_copy ) {
    const Co c = anyco( 'c' );
    BQ f = make( c );
    const int form = vp_choose( "form", 3 );
    for( int i = 0; i < 2; ++i ) go( f, input( i ), form );
    BQ g( f ), h;
    h = f;
    for( int i = 2; i < 4; ++i ) go( g, vp_real("other"), form );
    BQ k = make( c );
    for( int i = 0; i < 2; ++i ) go( k, input( i + 4 ), form );
    k = f;
    for( int i = 6; i < 9; ++i )
    {
        const double x = input( i ), y = go( f, x, form );
        vp_eq( go( h, x, form ), y, "a copy continues as the original, whatever another copy did" );
        vp_eq( go( k, x, form ), y, "assignment copies the history as well" );
    }
}
VP_HARNESS( h_swap ) {
    const Co c = anyco( 'c' ), d = anyco( 'd' );
    const int form = vp_choose( "form", 3 );
    BQ f = make( c ), g = make( d );
    for( int i = 0; i < 2; ++i ) { go( f, input( i ), form ); go( g, input( i + 2 ), form ); }
    BQ f0( f ), g0( g );
    f.swap( g );
    for( int i = 4; i < 7; ++i )
    {
        const double x = input( i );
        vp_eq( go( f, x, form ), go( g0, x, form ), "swap exchanges coefficients and history" );
        vp_eq( go( g, x, form ), go( f0, x, form ), "swap exchanges coefficients and history" );
    }
    vp_eq( f.coeff_b().b1, d.b1, "swap exchanges coefficients" );
    vp_eq( g.coeff_a().a2, c.a2, "swap exchanges coefficients" );
}
VP_HARNESS( h_self_swap ) {
    const Co c = anyco( 'c' );
    BQ f = make( c );
    f.step( input( 0 ) );
    BQ g( f );
    f.swap( f );
    const double x = input( 1 );
    vp_eq( f.step( x ), g.step( x ), "swap with itself changes nothing" );
}
