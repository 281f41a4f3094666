// Cascades with more sections than one byte can count.
// @mode real
// @bound a cascade of 300 sections, a special section at 0, 127, 128, 255, 256 or 299; every input
// @assume exact reals
#include "bq.h"
#include "dsp/biquad-cascade.hpp"
namespace bc = dsp::biquad_cascade;
using C = dsp::BiQuadCascadeT<double,300>;
VP_HARNESS( h_large )
{
    const int places[] = { 0, 127, 128, 255, 256, 299 };
    const int k = places[ vp_choose( "place", 6 ) ];
    const double g = vp_real( "g" ), d = vp_real( "d" ), x = input( 0 ), y = input( 1 ), z = input( 2 );
    C c;
    for ( int i = 0; i < 300; ++i ) c.append( i == k ? make( { g, d, 0, 0, 0 } ) : make( { 1, 0, 0, 0, 0 } ) );
    const int form = vp_choose( "form", 3 );
    auto step = [&]( double v ) { return form == 0 ? bc::step( c, v ) : form == 1 ? bc::step_df2( c, v ) : bc::step_df2_transposed( c, v ); };
    vp_eq( step( x ), g * x, "output of the cascade is the series connection of its sections" );
    vp_eq( step( y ), g * y + d * x, "output of the cascade is the series connection of its sections" );
    bc::reset( c );
    vp_eq( step( z ), g * z, "after reset the cascade acts as a new one" );
}
VP_HARNESS( h_large_stable )
{
    const int places[] = { 0, 127, 128, 255, 256, 299 };
    const int k = places[ vp_choose( "place", 6 ) ];
    const double p = vp_real( "p" );
    C c;
    for ( int i = 0; i < 300; ++i ) c.append( i == k ? make( { 1, 0, 0, -p, 0 } ) : make( { 1, 0, 0, 0, 0 } ) );
    vp_check( bc::is_stable( c ) == bool( (p <= 1) & (p >= -1) ), "a cascade is stable exactly if all its sections are" );
}
