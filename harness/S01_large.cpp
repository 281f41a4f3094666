// Ranges with more elements than one byte can count.
// @mode int
// @bound ranges of 300 elements of 8 and 32 bits: copy and fill any content; equal: equal content, a difference anywhere among the selected places
#include "vp.h"
#include <cstddef>
#include "std/algorithm.hpp"

enum { SIZE = 302, COUNT = 300 };
static const int places[] = { 0, 127, 128, 254, 255, 256, 257, COUNT - 1 };
template< typename T > void large()
{
    static T s[SIZE], d[SIZE], d0[SIZE];
    for( int i = 0; i < SIZE; ++i ) { s[i] = vp_any<T>::make( "s" ); d[i] = d0[i] = vp_any<T>::make( "d" ); }
    T const * from = s + 1;
    vp_check( std20::copy( from, from + COUNT, d + 1 ) == d + 1 + COUNT, "copy returns the end of the destination" );
    for( int i = 0; i < SIZE; ++i ) vp_check( d[i] == ( i > 0 && i <= COUNT ? s[i] : d0[i] ), "copy gives each element of the range, in order" );
    vp_check( std20::equal( from, from + COUNT, d + 1 ), "equal content is equal" );
    const int k = 1 + places[ vp_choose( "place", 8 ) ];
    const T other = vp_any<T>::make( "other" );
    d[k] = other;
    vp_check( std20::equal( from, from + COUNT, d + 1 ) == bool( other == s[k] ), "one difference is seen at any place" );
    vp_check( std20::equal( from, from + COUNT, d + 1, []( T a, T b ) { return a == b; } ) == bool( other == s[k] ), "one difference is seen at any place" );
    d[k] = s[k];
    d[0] = d0[0];
    std20::fill( d + 1, d + 1 + COUNT, other );
    for( int i = 0; i < SIZE; ++i ) vp_check( d[i] == ( i > 0 && i <= COUNT ? other : d0[i] ), "fill stores the value everywhere in the range" );
}
VP_HARNESS( h_large_u8 )  { large<uint8_t>(); }
VP_HARNESS( h_large_i32 ) { large<int32_t>(); }
