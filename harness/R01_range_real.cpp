// @mode real
// @bound every real first and positive step with up to 6 values in the range
// @assume exact reals (rounding is outside the claim)
#include "vp.h"
#include "core/core.hpp"

VP_HARNESS( h_real_step ) {
    const double a = vp_sym_real( "first" ), s = vp_sym_real( "step" ), r = vp_sym_real( "remainder" );
    const int k = vp_choose( "values", 7 );
    vp_assume( (s > 0) & (r >= 0) & (r < s) );
    int n = 0;
    for ( auto i : core::range( a, a + k * s - r, s ) )
    {
        vp_check( n < k, "only values below last" );
        vp_eq( i, a + n * s, "values are first, first plus step and so on" );
        ++n;
    }
    vp_check( n == k, "goes on as long as the value is below last" );
}
VP_HARNESS( h_real_endless ) {
    const double a = vp_sym_real( "first" ), s = vp_sym_real( "step" );
    vp_assume( s > 0 );
    int n = 0;
    for ( auto i : core::range( a ).step( s ) )
    {
        vp_eq( i, a + n * s, "values are first, first plus step and so on" );
        if ( ++n == 6 ) break;
    }
    n = 0;
    for ( auto i : core::range( a ) )
    {
        vp_eq( i, a + n, "values from first up, one by one" );
        if ( ++n == 6 ) break;
    }
}
VP_HARNESS( h_integer_by_real ) {
    const double s = vp_sym_real( "step" );
    vp_assume( (s > 0.5) & (s < 1) );
    int n = 0;
    for ( auto i : core::range( 0, 3, s ) )
    {
        vp_check( n < 6, "only values below last" );
        vp_eq( i, n * s, "values are first, first plus step and so on" );
        vp_check( i < 3, "only values below last" );
        ++n;
    }
    vp_check( n * s >= 3, "goes on as long as the value is below last" );
}
