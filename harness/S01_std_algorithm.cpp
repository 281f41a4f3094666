// @mode int
// @bound every content of ranges of 0 to 5 elements at every offset (equal: two offsets) in a buffer of 8 (copy also onto an overlapping range that starts earlier); 8, 16 and 32 bit elements; swap of integers, structures and move-only values
// @assume the destination has room; an overlapping copy does not start inside the source, as the standard demands
#include "vp.h"
#include <cstddef>
#include "std/algorithm.hpp"
#include "std/utility.hpp"

enum { SIZE = 8, MAX = 5 };
template< typename T > void contents( T * p, char t )
{
    for( int i = 0; i < SIZE; ++i ) { char n[3] = { t, char( '0' + i ), 0 }; p[i] = vp_any<T>::make( n ); }
}
template< typename T > void copy_()
{
    T s[SIZE], d[SIZE], d0[SIZE];
    contents( s, 's' ); contents( d, 'd' );
    T s0[SIZE];
    for( int i = 0; i < SIZE; ++i ) { s0[i] = s[i]; d0[i] = d[i]; }
    const int n = vp_choose( "n", MAX + 1 ), at = vp_choose( "at", SIZE - MAX + 1 ), to = vp_choose( "to", SIZE - MAX + 1 );
    T const * from = s + at;
    T * r = std20::copy( from, from + n, d + to );
    vp_check( r == d + to + n, "copy returns the end of the destination" );
    for( int i = 0; i < SIZE; ++i )
    {
        if ( i >= to && i < to + n ) vp_check( d[i] == s0[ at + i - to ], "copy gives each element in order" );
        else vp_check( d[i] == d0[i], "copy touches nothing outside the destination" );
        vp_check( s[i] == s0[i], "copy leaves the source" );
    }
}
template< typename T > void copy_down()
{
    T s[SIZE], s0[SIZE];
    contents( s, 's' );
    for( int i = 0; i < SIZE; ++i ) s0[i] = s[i];
    const int n = vp_choose( "n", MAX + 1 ), at = vp_choose( "at", SIZE - MAX + 1 ), to = vp_choose( "to", SIZE - MAX + 1 );
    vp_assume( to <= at );
    T * r = std20::copy( s + at, s + at + n, s + to );
    vp_check( r == s + to + n, "copy returns the end of the destination" );
    for( int i = 0; i < n; ++i ) vp_check( s[ to + i ] == s0[ at + i ], "copy gives each element in order" );
}
template< typename T > void fill_()
{
    T d[SIZE], d0[SIZE];
    contents( d, 'd' );
    for( int i = 0; i < SIZE; ++i ) d0[i] = d[i];
    const T v = vp_any<T>::make( "v" );
    const int n = vp_choose( "n", MAX + 1 ), to = vp_choose( "to", SIZE - MAX + 1 );
    std20::fill( d + to, d + to + n, v );
    for( int i = 0; i < SIZE; ++i )
        if ( i >= to && i < to + n ) vp_check( d[i] == v, "fill stores the value everywhere in the range" );
        else vp_check( d[i] == d0[i], "fill touches nothing outside the range" );
}
struct Coarse { uint8_t div; bool operator()( int a, int b ) const { return a / div == b / div; } };
template< typename T > void equal_()
{
    T s[SIZE], d[SIZE];
    contents( s, 's' ); contents( d, 'd' );
    const int n = vp_choose( "n", MAX + 1 ), at = 3 * vp_choose( "at", 2 ), to = 3 * vp_choose( "to", 2 );
    int same = 1, close = 1, less = 1;
    const Coarse p = { 8 };
    for( int i = 0; i < n; ++i )
    {
        same = same & int( s[ at + i ] == d[ to + i ] );
        close = close & int( p( s[ at + i ], d[ to + i ] ) );
        less = less & int( s[ at + i ] < d[ to + i ] );
    }
    switch( vp_choose( "predicate", 3 ) )
    {
    case 0:  vp_check( std20::equal( s + at, s + at + n, d + to ) == bool( same ), "equal exactly if every pair is" ); break;
    case 1:  vp_check( std20::equal( s + at, s + at + n, d + to, p ) == bool( close ), "equal by the predicate exactly if every pair is" ); break;
    default: vp_check( std20::equal( s + at, s + at + n, d + to, []( T a, T b ) { return a < b; } ) == bool( less ), "the predicate gets the arguments in order" );
    }
}
template< typename T > void swap_()
{
    const T a = vp_any<T>::make( "a" ), b = vp_any<T>::make( "b" );
    T x = a, y = b;
    std20::swap( x, y );
    vp_check( (x == b) & (y == a), "swap exchanges the values" );
    T z[3] = { a, b, a };
    std20::swap( z[0], z[1] );
    vp_check( (z[0] == b) & (z[1] == a) & (z[2] == a), "swap touches nothing else" );
    std20::swap( x, x );
    vp_check( x == b, "swap with itself keeps the value" );
}
// a value that can be moved only; a moved-from one holds -1
struct Owner
{
    int v;
    explicit Owner( int a ) : v( a ) {}
    Owner( Owner && o ) noexcept : v( o.v ) { o.v = -1; }
    Owner & operator=( Owner && o ) noexcept { v = o.v; o.v = -1; return *this; }
    Owner( Owner const & ) = delete;
    Owner & operator=( Owner const & ) = delete;
};
struct Pair { int32_t a; uint8_t b[3]; };

VP_HARNESS( h_swap_owner ) {
    const int a = vp_i32( "a" ), b = vp_i32( "b" );
    Owner x( a ), y( b );
    std20::swap( x, y );
    vp_check( (x.v == b) & (y.v == a), "swap exchanges the values" );
}
VP_HARNESS( h_swap_struct ) {
    Pair x = { vp_i32( "a" ), { vp_u8( "b" ), vp_u8( "c" ), vp_u8( "d" ) } }, y = { vp_i32( "e" ), { vp_u8( "f" ), vp_u8( "g" ), vp_u8( "h" ) } };
    const Pair p = x, q = y;
    std20::swap( x, y );
    vp_check( (x.a == q.a) & (x.b[0] == q.b[0]) & (x.b[1] == q.b[1]) & (x.b[2] == q.b[2]), "swap exchanges the values" );
    vp_check( (y.a == p.a) & (y.b[0] == p.b[0]) & (y.b[1] == p.b[1]) & (y.b[2] == p.b[2]), "swap exchanges the values" );
}
VP_HARNESS( h_move ) {
    const int a = vp_i32( "a" );
    Owner x( a );
    Owner && r = std20::move( x );
    vp_check( &r == &x, "move refers to the object itself" );
    vp_check( x.v == a, "move by itself changes nothing" );
    Owner y( std20::move( x ) );
    vp_check( y.v == a, "a moved value arrives" );
    vp_check( x.v == -1, "move moves" );
}
// algorithms on iterators that are no pointers
struct It
{
    uint8_t const * p; int * reads;
    uint8_t operator*() const { ++*reads; return *p; }
    It & operator++() { ++p; return *this; }
    It operator++( int ) { It c = *this; ++p; return c; }
    bool operator!=( It const & o ) const { return p != o.p; }
    bool operator==( It const & o ) const { return p == o.p; }
};
VP_HARNESS( h_iterators ) {
    uint8_t s[SIZE], d[SIZE] = {};
    contents( s, 's' );
    const int n = vp_choose( "n", MAX + 1 );
    int reads = 0;
    It b = { s, &reads }, e = { s + n, &reads };
    vp_check( std20::copy( b, e, d ) == d + n, "copy returns the end of the destination" );
    vp_check( reads == n, "copy reads each element once" );
    for( int i = 0; i < n; ++i ) vp_check( d[i] == s[i], "copy gives each element in order" );
    vp_check( std20::equal( b, e, d ), "equal exactly if every pair is" );
}
VP_HARNESS( h_copy_uint8_t ) { copy_<uint8_t>(); }
VP_HARNESS( h_copy_int16_t ) { copy_<int16_t>(); }
VP_HARNESS( h_copy_int32_t ) { copy_<int32_t>(); }
VP_HARNESS( h_copy_down_uint8_t ) { copy_down<uint8_t>(); }
VP_HARNESS( h_copy_down_int16_t ) { copy_down<int16_t>(); }
VP_HARNESS( h_copy_down_int32_t ) { copy_down<int32_t>(); }
VP_HARNESS( h_fill_uint8_t ) { fill_<uint8_t>(); }
VP_HARNESS( h_fill_int16_t ) { fill_<int16_t>(); }
VP_HARNESS( h_fill_int32_t ) { fill_<int32_t>(); }
VP_HARNESS( h_equal_uint8_t ) { equal_<uint8_t>(); }
VP_HARNESS( h_equal_int16_t ) { equal_<int16_t>(); }
VP_HARNESS( h_equal_int32_t ) { equal_<int32_t>(); }
VP_HARNESS( h_swap_uint8_t ) { swap_<uint8_t>(); }
VP_HARNESS( h_swap_int16_t ) { swap_<int16_t>(); }
VP_HARNESS( h_swap_int32_t ) { swap_<int32_t>(); }
