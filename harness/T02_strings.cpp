// Text helpers and the value cast.
// @mode int
// @bound texts of 0 to 4 characters, search patterns of 0 to 2 and replacements of 0 to 2 characters, every character; lines of 0 to 20 characters
#include "text.h"
#include <vector>
#include "core/text.hpp"
#include "core/shims.hpp"

static std::string any( char const * name, int n )
{
    std::string s;
    for ( int i = 0; i < n; ++i ) s.push_back( (char)vp_i8( name ) );
    return s;
}

// the first place where from occurs is replaced, nothing else
template< int N, int F > void replaced()
{
    const std::string text = any( "t", N ), from = any( "f", F ), to = any( "r", vp_choose( "size", 3 ) );
    int at = -1;
    for ( int i = 0; i + F <= N && at < 0; ++i )
    {
        bool same = true;
        for ( int k = 0; k < F; ++k ) same = same & ( text[ i + k ] == from[ k ] );
        if ( same ) at = i;
    }
    const std::string got = core::replaced( text, from, to );
    vp_note( "result" );
    if ( at < 0 )
    {
        vp_check( got.size() == text.size(), "a text without the pattern keeps its length" );
        bool same = true;
        for ( int i = 0; i < N; ++i ) same = same & ( got[ i ] == text[ i ] );
        vp_check( same, "a text without the pattern is returned as it is" );
        return;
    }
    vp_check( got.size() == text.size() - F + to.size(), "the replacement takes the place of the pattern" );
    bool head = true, mid = true, tail = true;
    const int L = (int)to.size();
    for ( int i = 0; i < at; ++i ) head = head & ( got[ i ] == text[ i ] );
    for ( int i = 0; i < L; ++i ) mid = mid & ( got[ at + i ] == to[ i ] );
    for ( int i = at + F; i < N; ++i ) tail = tail & ( got[ i - F + L ] == text[ i ] );
    vp_check( head, "the text before the pattern is kept" );
    vp_check( mid, "the first occurrence of the pattern is replaced" );
    vp_check( tail, "the text after the pattern is kept" );
}
VP_HARNESS( h_replaced_01 ) { replaced<0,1>(); }
VP_HARNESS( h_replaced_11 ) { replaced<1,1>(); }
VP_HARNESS( h_replaced_20 ) { replaced<2,0>(); }
VP_HARNESS( h_replaced_21 ) { replaced<2,1>(); }
VP_HARNESS( h_replaced_31 ) { replaced<3,1>(); }
VP_HARNESS( h_replaced_41 ) { replaced<4,1>(); }
VP_HARNESS( h_replaced_12 ) { replaced<1,2>(); }
VP_HARNESS( h_replaced_22 ) { replaced<2,2>(); }
VP_HARNESS( h_replaced_32 ) { replaced<3,2>(); }
VP_HARNESS( h_replaced_42 ) { replaced<4,2>(); }

VP_HARNESS( h_line )
{
    const int n = vp_choose( "size", 21 );
    const char c = (char)vp_i8( "c" );
    const std::string s = core::line( n, c );
    vp_check( (int)s.size() == n, "a line has the length asked for" );
    bool same = true;
    for ( int i = 0; i < n; ++i ) same = same & ( s[ i ] == c );
    vp_check( same, "a line consists of the character asked for" );
}
VP_HARNESS( h_line_default )
{
    const int n = vp_choose( "size", 21 );
    const std::string s = core::line( n );
    vp_check( (int)s.size() == n, "a line has the length asked for" );
    bool same = true;
    for ( int i = 0; i < n; ++i ) same = same & ( s[ i ] == '-' );
    vp_check( same, "a line consists of dashes" );
}

// core::as<T>( x ) is x converted to T
template< typename T, typename U > void casts()
{
    const U x = vp_any<U>::make( "x" );
    const T y = core::as<T>( x );
    vp_check( y == (T)x, "the cast gives the value converted to the type" );
    const core::cast<T> z = x;
    vp_check( z.value == (T)x, "the value held is the converted one" );
}
VP_HARNESS( h_as_8 )  { casts<int8_t ,uint8_t >(); casts<int8_t ,int16_t>(); casts<int8_t ,int32_t>(); casts<uint8_t ,int32_t>(); }
VP_HARNESS( h_as_16 ) { casts<int16_t,int8_t  >(); casts<int16_t,uint16_t>(); casts<int16_t,int64_t>(); casts<uint16_t,int8_t>(); }
VP_HARNESS( h_as_32 ) { casts<int32_t,int8_t  >(); casts<int32_t,uint32_t>(); casts<int32_t,int64_t>(); casts<uint32_t,int16_t>(); casts<int64_t,uint32_t>(); casts<int64_t,int8_t>(); }
