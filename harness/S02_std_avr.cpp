// Replacements of the standard library on the microcontroller.
// @mode int
// @target avr
// @bound every value of the 8, 16, 32 and 64 bit integer types; complex numbers of every 16 bit integer (and bit pattern of float) components; lists of 0 to 4 elements
#include "avr.h"
#include "std/cstdint.hpp"
#include "std/limits.hpp"
#include "std/type_traits.hpp"
#include "std/utility.hpp"
#include "std/algorithm.hpp"
#include "std/tuple.hpp"
#include "std/complex.hpp"
#include "core/shims.hpp"
#include "core/traits.hpp"

template< typename T > void limits( T v )
{
    using L = std20::numeric_limits<T>;
    const bool sgn = T( -1 ) < T( 0 );
    vp_check( L::is_signed == sgn, "limits tell whether a type is signed" );
    vp_check( L::is_integer, "limits tell that an integer type is one" );
    vp_check( L::digits == int( 8 * sizeof(T) ) - ( sgn ? 1 : 0 ), "limits tell the number of value bits" );
    vp_check( ( v <= L::max() ) & ( v >= L::min() ), "every value is within the limits" );
    const T top = T( ( T( 1 ) << ( L::digits - 1 ) ) - 1 + ( T( 1 ) << ( L::digits - 1 ) ) );
    vp_check( L::max() == top, "the upper limit is the largest value" );
    vp_check( L::min() == ( sgn ? T( -top - 1 ) : T( 0 ) ), "the lower limit is the smallest value" );
    vp_check( std20::is_signed_v<T> == sgn && std20::is_signed<T>::value == sgn, "traits tell whether a type is signed" );
    vp_check( std20::is_integral_v<T> && std20::is_integral<T>::value, "traits tell that an integer type is one" );
}
VP_HARNESS( h_limits_i8 )  { limits<int8_t  >( vp_i8 ( "v" ) ); }
VP_HARNESS( h_limits_u8 )  { limits<uint8_t >( vp_u8 ( "v" ) ); }
VP_HARNESS( h_limits_i16 ) { limits<int16_t >( vp_i16( "v" ) ); }
VP_HARNESS( h_limits_u16 ) { limits<uint16_t>( vp_u16( "v" ) ); }
VP_HARNESS( h_limits_i32 ) { limits<int32_t >( vp_i32( "v" ) ); }
VP_HARNESS( h_limits_u32 ) { limits<uint32_t>( vp_u32( "v" ) ); }
VP_HARNESS( h_limits_i64 ) { limits<int64_t >( vp_i64( "v" ) ); }
VP_HARNESS( h_limits_u64 ) { limits<uint64_t>( uint64_t( vp_i64( "v" ) ) ); }
VP_HARNESS( h_limits_names )       // the types by the names programs use
{
    limits<int>( int( vp_i16( "a" ) ) );
    limits<unsigned>( unsigned( vp_u16( "b" ) ) );
    limits<long>( long( vp_i32( "c" ) ) );
    limits<unsigned long>( (unsigned long)( vp_u32( "d" ) ) );
}
VP_HARNESS( h_traits )
{
    vp_check( !std20::numeric_limits<float>::is_integer && std20::numeric_limits<float>::is_signed
        && !std20::numeric_limits<double>::is_integer && std20::numeric_limits<double>::is_signed, "limits of floating types" );
    vp_check( !std20::is_integral_v<float> && std20::is_signed_v<double>, "traits of floating types" );
    vp_check( std20::is_same_v<int,int> && !std20::is_same_v<int,long> && !std20::is_same_v<int, int const>, "same types" );
    vp_check( std20::is_same_v< std20::remove_reference_t<int &>, int > && std20::is_same_v< std20::remove_reference_t<int &&>, int >
        && std20::is_same_v< std20::remove_reference_t<int>, int > && std20::is_same_v< std20::remove_reference_t<int const &>, int const >, "references removed" );
    vp_check( std20::is_same_v< std20::remove_const_t<int const>, int > && std20::is_same_v< std20::remove_const_t<int volatile>, int volatile >
        && std20::is_same_v< std20::remove_volatile_t<int volatile>, int > && std20::is_same_v< std20::remove_cv_t<int const volatile>, int >
        && std20::is_same_v< std20::remove_cv_t<int>, int >, "qualifiers removed" );
    vp_check( std20::is_same_v< std20::enable_if_t< true, long >, long >, "enable_if" );
    using C = std20::integral_constant< int, 7 >;
    vp_check( C::value == 7 && C() == 7 && C()() == 7, "integral constant" );
    vp_check( std20::is_same_v< core::identity_t<int *>, int * >, "identity" );
}
VP_HARNESS( h_widths )
{
    vp_check( sizeof( std20::int8_t ) == 1 && sizeof( std20::int16_t ) == 2 && sizeof( std20::int32_t ) == 4 && sizeof( std20::int64_t ) == 8, "widths of the integer types" );
    const int32_t v = vp_i32( "v" );
    vp_check( std20::int8_t( -1 ) < 0 && std20::int16_t( -1 ) < 0 && std20::int32_t( -1 ) < 0 && std20::int64_t( -1 ) < 0, "integer types are signed" );
    vp_check( ( std20::int32_t( v ) == v ) & ( std20::int64_t( v ) == v ) & ( std20::int16_t( v ) == int16_t( v ) ) & ( std20::int8_t( v ) == int8_t( v ) ), "integer types keep values" );
}
VP_HARNESS( h_cast )
{
    const int32_t v = vp_i32( "v" );
    vp_check( core::as<uint8_t>( v ) == uint8_t( v ), "as converts to the type" );
    vp_check( core::as<int16_t>( v ) == int16_t( v ), "as converts to the type" );
    const core::cast<uint16_t> c = v;
    vp_check( uint16_t( c ) == uint16_t( v ) && c.value == uint16_t( v ), "cast converts to the type" );
}
VP_HARNESS( h_move_swap )
{
    const int32_t a = vp_i32( "a" ), b = vp_i32( "b" );
    int32_t x = a, y = b;
    std20::swap( x, y );
    vp_check( ( x == b ) & ( y == a ), "swap exchanges" );
    std20::swap( x, x );
    vp_check( x == b, "swapping with itself changes nothing" );
    int32_t && r = std20::move( x );
    vp_check( ( &r == &x ) && ( r == b ), "move refers to its argument" );
    struct pair { int16_t p; int32_t q; } u = { int16_t( a ), b }, w = { int16_t( b ), a };
    std20::swap( u, w );
    vp_check( ( u.p == int16_t( b ) ) & ( u.q == a ) & ( w.p == int16_t( a ) ) & ( w.q == b ), "swap exchanges" );
}
inline int32_t total( std::initializer_list<int32_t> l, int n )
{
    vp_check( int( l.size() ) == n && int( l.end() - l.begin() ) == n && std::begin( l ) == l.begin() && std::end( l ) == l.end(), "a list knows its size" );
    uint32_t s = 0;
    int k = 0;
    for ( auto v : l ) s += uint32_t( v ) * ( 1 + 2 * ++k );
    return int32_t( s );
}
VP_HARNESS( h_list )
{
    const int32_t a = vp_i32( "a" ), b = vp_i32( "b" ), c = vp_i32( "c" ), d = vp_i32( "d" );
    vp_check( std::initializer_list<int>().size() == 0, "an empty list is empty" );
    vp_check( total( {}, 0 ) == 0, "an empty list is empty" );
    vp_check( total( { a }, 1 ) == int32_t( uint32_t( a ) * 3 ), "a list holds its elements in order" );
    vp_check( total( { a, b, c, d }, 4 ) == int32_t( uint32_t( a ) * 3 + uint32_t( b ) * 5 + uint32_t( c ) * 7 + uint32_t( d ) * 9 ), "a list holds its elements in order" );
}
VP_HARNESS( h_algorithm )
{
    const int16_t a = vp_i16( "a" ), b = vp_i16( "b" ), c = vp_i16( "c" ), x = vp_i16( "x" );
    const int16_t from[3] = { a, b, c };
    int16_t to[4] = { x, x, x, x };
    vp_check( std20::copy( from, from + 3, to ) == to + 3, "copy returns the end" );
    vp_check( ( to[0] == a ) & ( to[1] == b ) & ( to[2] == c ) & ( to[3] == x ), "copy copies the range" );
    vp_check( std20::equal( from, from + 3, to ), "equal ranges are equal" );
    to[1] = x;
    vp_check( std20::equal( from, from + 3, to ) == ( b == x ), "different ranges differ" );
    std20::fill( to, to + 2, c );
    vp_check( ( to[0] == c ) & ( to[1] == c ) & ( to[2] == c ) & ( to[3] == x ), "fill fills the range" );
}

using C16 = std20::complex<int16_t>;
template< typename Z, typename T > bool is( Z const & z, T re, T im ) { return ( z.real() == re ) & ( z.imag() == im ); }
VP_HARNESS( h_complex )
{
    const int16_t a = vp_i16( "a" ), b = vp_i16( "b" ), c = vp_i16( "c" ), d = vp_i16( "d" );
    C16 z( a, b );
    vp_check( is( z, a, b ), "a complex number holds its parts" );
    vp_check( is( C16(), int16_t( 0 ), int16_t( 0 ) ), "the default complex number is zero" );
    vp_check( is( C16( a ), a, int16_t( 0 ) ), "a real number has no imaginary part" );
    C16 y( z );
    vp_check( is( y, a, b ), "a copy equals" );
    C16 & r = ( y = C16( c, d ) );
    vp_check( is( y, c, d ) && &r == &y && is( z, a, b ), "assignment copies" );
    C16 & s = ( y = a );
    vp_check( is( y, a, int16_t( 0 ) ) && &s == &y, "assigning a real number clears the imaginary part" );
    y.real( c ); y.imag( b );
    vp_check( is( y, c, b ), "parts are set separately" );
    y.imag( d );
    vp_check( is( y, c, d ), "parts are set separately" );
    std20::complex<int32_t> w( z );
    vp_check( is( w, int32_t( a ), int32_t( b ) ), "conversion keeps the parts" );
    auto & t = ( w = y );
    vp_check( is( w, int32_t( c ), int32_t( d ) ) && &t == &w, "conversion keeps the parts" );
}
VP_HARNESS( h_ignore )
{
    std20::ignore i;
    int v = vp_i16( "v" );
    const int was = v;
    vp_check( &( i = v ) == &i && v == was, "ignore takes anything and changes nothing" );
}
