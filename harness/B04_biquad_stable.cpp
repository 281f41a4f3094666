// @mode real
// @bound every real coefficient pair (a1, a2); every zero and numerator
// @assume exact reals; a filter whose poles lie on the unit circle counts as stable, as documented
#include "bq.h"

// the closed stability triangle |a2| <= 1, |a1| <= 1 + a2 is exactly "both roots in the closed unit disc"
VP_HARNESS( h_triangle ) {
    const Co c = anyco( 'c' );
    BQ f = make( c );
    const bool s = f.is_stable();
    const bool inside = bool( (c.a2 <= 1) & (c.a2 >= -1) & (c.a1 <= 1 + c.a2) & (c.a1 >= -1 - c.a2) );
    vp_check( s == inside, "stable exactly if both poles are in the closed unit disc" );
}
VP_HARNESS( h_real_poles ) {
    const double p = vp_real("p"), q = vp_real("q");
    BQ f = make( { vp_real("b0"), vp_real("b1"), vp_real("b2"), -( p + q ), p * q } );
    const bool s = f.is_stable();
    vp_check( s == bool( (p <= 1) & (p >= -1) & (q <= 1) & (q >= -1) ), "two real poles: stable exactly if neither exceeds one in magnitude" );
}
VP_HARNESS( h_complex_poles ) {
    const double p = vp_real("p"), q = vp_real("q");
    vp_assume( q > 0 );
    BQ f = make( { 1, 0, 0, -2 * p, p * p + q * q } );
    vp_check( f.is_stable() == ( p * p + q * q <= 1 ), "conjugate poles: stable exactly if in the unit disc" );
}
VP_HARNESS( h_history_free ) {
    const Co c = anyco( 'c' );
    BQ f = make( { 1, 1, 1, c.a1, c.a2 } ), g = make( c );
    for( int i = 0; i < 2; ++i ) f.step( input( i ) );
    vp_check( f.is_stable() == g.is_stable(), "stability depends on the denominator only" );
}
