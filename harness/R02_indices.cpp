// @mode int
// @bound arrays, containers and lists of 0 to 6 elements (arrays 1 to 6), and of 300; arrays of every power of two up to 2^17 and one less and one more (their ends); the ends for every size up to 2^32
// @assume none
#include "vp.h"
#include "core/core.hpp"
#include <cstddef>
#include <initializer_list>
#include <vector>
#include "dsp/chebyshev-design.hpp"

template< typename R > void positions( R r, int n )
{
    int k = 0;
    for ( auto i : r )
    {
        vp_check( k < n, "no more positions than there are elements" );
        vp_check( i == decltype( i )( k ), "positions from zero, in order" );
        ++k;
    }
    vp_check( k == n, "every position is visited" );
}
template< typename T, int N > void array()
{
    T a[N] = {};
    positions( core::indices( a ), N );
    T const c[N] = {};
    positions( core::indices( c ), N );
}
struct Sized { unsigned char n; unsigned char size() const { return n; } };
struct Signed { int n; int size() const { return n; } };
struct Big { std::size_t n; std::size_t size() const { return n; } };

VP_HARNESS( h_array ) {
    array<int,1>(); array<int,2>(); array<char,3>(); array<double,4>(); array<long,5>(); array<char,6>();
    int m[3][5] = {};
    positions( core::indices( m ), 3 );
    positions( core::indices( m[1] ), 5 );
}
VP_HARNESS( h_vector ) {
    const int n = vp_choose( "n", 7 );
    std::vector<int> const v( n );
    positions( core::indices( v ), n );
    std::vector<int> w( n );
    positions( core::indices( w ), n );
}
VP_HARNESS( h_user_container ) {
    const uint8_t n = vp_u8( "n" );
    vp_assume( n <= 6 );
    const Sized s = { n };
    positions( core::indices( s ), n );
    const Signed t = { n };
    positions( core::indices( t ), n );
    const Big b = { n };
    positions( core::indices( b ), n );
}
VP_HARNESS( h_coefficients ) {
    const int n = vp_choose( "n", 5 );
    dsp::DigitalCoeffT<double> c( 0.0, 0.0, 0.0, 0.0, 0.0, 0, 0.0, 0.0 );
    for( int i = 0; i < n; ++i ) { c.b.emplace_back( 1, 0, 0 ); c.a.emplace_back( 0, 0 ); }
    positions( core::indices( c ), n );
}
// any size at all: the first and the last position, and one step in between, which repeats
VP_HARNESS( h_any_size ) {
    const uint32_t n = vp_u32( "n" );
    const Big b = { n };
    auto const r = core::indices( b );
    vp_check( *r.begin() == 0, "starts at zero" );
    vp_check( uint64_t( *r.end() ) == n, "ends at the size" );
    vp_check( bool( r.begin() == r.end() ) == (n == 0), "empty exactly without elements" );
    const int32_t m = vp_i32( "m" );
    vp_assume( m >= 0 );
    const Signed s = { m };
    vp_check( int64_t( *core::indices( s ).end() ) == m, "ends at the size" );
    static int a[ 70000 ];
    vp_check( *core::indices( a ).end() == 70000, "ends at the size of a large array" );
    vp_check( *core::indices( a ).begin() == 0, "starts at zero" );
}
template< std::size_t N > void ends()
{
    static char a[ N ];
    auto const r = core::indices( a );
    vp_check( *r.begin() == 0, "an array starts at zero" );
    vp_check( *r.end() == N, "an array ends at its size" );
    vp_check( !bool( r.begin() == r.end() ), "an array has positions" );
}
template< std::size_t N > void around() { ends<N - 1>(); ends<N>(); ends<N + 1>(); }
VP_HARNESS( h_array_sizes ) {
    around<8>(); around<16>(); around<32>(); around<64>(); around<128>(); around<256>(); around<512>(); around<1024>();
    around<4096>(); around<32768>(); around<65536>(); around<131072>();
}
VP_HARNESS( h_long ) {
    static char a[ 300 ];
    positions( core::indices( a ), 300 );
    const Big b = { 300 };
    positions( core::indices( b ), 300 );
}
VP_HARNESS( h_list ) {
    positions( core::indices( { 7 } ), 1 );
    positions( core::indices( { 7, 8 } ), 2 );
    positions( core::indices( { 7., 8., 9. } ), 3 );
    positions( core::indices( { 'a', 'b', 'c', 'd', 'e', 'f' } ), 6 );
    positions( core::indices( std::initializer_list<int>{} ), 0 );
}
// the conversion helper that goes with it
VP_HARNESS( h_as ) {
    const int32_t i = vp_i32( "i" );
    vp_check( int64_t( core::as<int64_t>( i ) ) == i, "widening keeps the value" );
    vp_check( uint8_t( core::as<uint8_t>( i ) ) == uint8_t( i ), "converts as static_cast does" );
    vp_check( int( core::as<int>( uint8_t( i ) ) ) == uint8_t( i ), "converts as static_cast does" );
    vp_check( core::as<int32_t>( i ) + 0 == i, "usable as the value" );
}
