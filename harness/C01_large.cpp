// Cascades with more sections than one byte can count.
// @mode real
// @bound a cascade of 300 sections: appending, and inserting, removing and replacing at 0, 127, 128, 255, 256 and near the end
#include "bq.h"
#include "dsp/biquad-cascade.hpp"
static const int N = 301;
using C = dsp::BiQuadCascadeT<double,N>;
static double base;
static BQ section( int i ) { return make( { base + i, 0, 0, 0, i + 0.5 } ); }
static void is( C const & c, int at, int i ) { vp_eq( c.coeff_b( at ).b0, base + i, "section is the one put there" ); vp_eq( c.coeff_a( at ).a2, i + 0.5, "section is the one put there" ); }
VP_HARNESS( h_large )
{
    const int places[] = { 0, 127, 128, 255, 256, 298 };
    base = vp_real( "base" );
    C c;
    for ( int i = 0; i < 300; ++i ) c.append( section( i ) );
    vp_check( (c.size() == 300) & (c.reserved() == N) & (c.end() - c.begin() == 300), "size" );
    const int k = places[ vp_choose( "place", 6 ) ], op = vp_choose( "op", 3 );
    if ( op == 0 )
    {
        c.insert( k, section( 1000 ) );
        vp_check( c.size() == 301, "size after insertion" );
        for ( int i = 0; i < 301; ++i ) is( c, i, i < k ? i : i == k ? 1000 : i - 1 );
    }
    else if ( op == 1 )
    {
        c.remove( k );
        vp_check( c.size() == 299, "size after removal" );
        for ( int i = 0; i < 299; ++i ) is( c, i, i < k ? i : i + 1 );
    }
    else
    {
        vp_eq( c.replace( k, section( 1000 ) ).coeff_b().b0, base + k, "replace returns the previous section" );
        vp_check( c.size() == 300, "size after replacement" );
        for ( int i = 0; i < 300; ++i ) is( c, i, i == k ? 1000 : i );
    }
}
