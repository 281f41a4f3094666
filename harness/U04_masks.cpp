// Masks of bit positions and ranges, shifts.
// @mode int
// @target avr
// @bound every position and range of 8 and 16 bit types, one to eight positions, every value and shift distance
#include "avr.h"
#include "mcu/register.hpp"
using namespace mcu;

VP_HARNESS( h_bits ) { vp_check( ( bits<uint8_t>() == 8 ) & ( bits<uint16_t>() == 16 ) & ( bits<uint32_t>() == 32 ), "number of bits" ); }

template< typename T > void one_bit( uint8_t i )
{
    vp_assume( i < 8 * sizeof(T) );
    const T m = bitmask<T>( i ), n = bitmask_n<T>( i );
    vp_check( m == T( uint32_t( 1 ) << i ), "mask of one bit" );
    vp_check( n == T( ~( uint32_t( 1 ) << i ) ), "inverted mask of one bit" );
}
VP_HARNESS( h_one_8 )  { one_bit<uint8_t >( vp_u8( "i" ) ); }
VP_HARNESS( h_one_16 ) { one_bit<uint16_t>( vp_u8( "i" ) ); }

template< typename T > void three_bits( uint8_t i, uint8_t j, uint8_t k )
{
    const uint8_t w = 8 * sizeof(T);
    vp_assume( ( i < w ) & ( j < w ) & ( k < w ) );
    const uint32_t e = uint32_t( 1 ) << i | uint32_t( 1 ) << j | uint32_t( 1 ) << k;
    vp_check( bitmask<T>( i, j, k ) == T( e ), "mask of several bits" );
    vp_check( bitmask_n<T>( i, j, k ) == T( ~e ), "inverted mask of several bits" );
    const uint32_t f = uint32_t( 1 ) << i | uint32_t( 1 ) << j;
    vp_check( ( bitmask<T>( i, j ) == T( f ) ) & ( bitmask_n<T>( int( i ), int( j ) ) == T( ~f ) ), "mask of two bits" );
}
VP_HARNESS( h_three_8 )  { const uint8_t i = vp_u8( "i" ), j = vp_u8( "j" ), k = vp_u8( "k" ); three_bits<uint8_t >( i, j, k ); }
VP_HARNESS( h_three_16 ) { const uint8_t i = vp_u8( "i" ), j = vp_u8( "j" ), k = vp_u8( "k" ); three_bits<uint16_t>( i, j, k ); }
VP_HARNESS( h_constant )
{
    constexpr uint8_t a = bitmask<uint8_t>( 7, 6, 5, 4, 3, 2, 1, 0 );
    constexpr uint8_t b = bitmask_n<uint8_t>( 6, 5, 0 );
    constexpr uint16_t c = bitmask<uint16_t>( 14, 9, 8, 0 );
    constexpr uint8_t d = rngmask<uint8_t>( 3, 0 );
    constexpr uint16_t e = rngmask_n<uint16_t>( 14, 8 );
    vp_check( ( a == 0xff ) & ( b == 0x9e ) & ( c == 0x4301 ) & ( d == 0x0f ) & ( e == 0x80ff ), "constant masks" );
}

template< typename T > void range( uint8_t hi, uint8_t lo )
{
    vp_assume( ( hi < 8 * sizeof(T) ) & ( lo <= hi ) );
    const T e = T( ( ( uint32_t( 1 ) << ( hi - lo + 1 ) ) - 1 ) << lo );
    vp_check( rngmask<T>( hi, lo ) == e, "mask of a range" );
    vp_check( rngmask_n<T>( hi, lo ) == T( ~e ), "inverted mask of a range" );
}
VP_HARNESS( h_range_8 )  { const uint8_t h = vp_u8( "hi" ), l = vp_u8( "lo" ); range<uint8_t >( h, l ); }
VP_HARNESS( h_range_16 ) { const uint8_t h = vp_u8( "hi" ), l = vp_u8( "lo" ); range<uint16_t>( h, l ); }

template< typename T > void shifts( T v, uint8_t n )
{
    vp_assume( n < 8 * sizeof(T) );
    vp_check( shl<T>( v, n ) == T( uint32_t( v ) << n ), "shift left" );
    vp_check( shr<T>( v, n ) == T( v >> n ), "shift right" );
    vp_check( shr<T>( shl<T>( v, n ), n ) == T( v & T( ( uint32_t( 1 ) << ( 8 * sizeof(T) - n ) ) - 1 ) ), "shift into place and back" );
}
VP_HARNESS( h_shift_8 )  { const uint8_t v = vp_u8( "v" ), n = vp_u8( "n" ); shifts<uint8_t >( v, n ); }
VP_HARNESS( h_shift_16 ) { const uint16_t v = vp_u16( "v" ); const uint8_t n = vp_u8( "n" ); shifts<uint16_t>( v, n ); }

// Access policies:
VP_HARNESS( h_policies )
{
    using M = Mutability;
    const M all[] = { M::rw, M::r, M::w, M::rc_w1, M::rc_w0, M::rc_r, M::rs, M::rt_w };
    const M m = all[ vp_choose( "policy", 8 ) ];
    vp_check( can_read( m ) == ( m != M::w ), "can_read: all but write-only" );
    vp_check( can_write( m ) == ( ( m == M::w ) | ( m == M::rw ) | ( m == M::rc_w0 ) | ( m == M::rc_w1 ) | ( m == M::rs ) ), "can_write" );
    vp_check( can_only_set_or_clear( m ) == ( ( m == M::rc_w0 ) | ( m == M::rc_w1 ) | ( m == M::rs ) ), "can_only_set_or_clear" );
    vp_check( is_for_bits_only( m ) == ( ( m != M::w ) & ( m != M::r ) & ( m != M::rw ) ), "is_for_bits_only" );
    vp_check( is_clear( m ) == ( ( m == M::rc_w0 ) | ( m == M::rc_w1 ) ), "is_clear" );
    vp_check( ( rw_t<uint8_t>::mutability == M::rw ) & ( r_t<uint8_t>::mutability == M::r ) & ( w_t<uint8_t>::mutability == M::w )
        & ( rc_w1_t<uint8_t>::mutability == M::rc_w1 ) & ( rc_w0_t<uint8_t>::mutability == M::rc_w0 ) & ( rc_r_t<uint8_t>::mutability == M::rc_r )
        & ( rs_t<uint8_t>::mutability == M::rs ) & ( rt_w<uint8_t>::mutability == M::rt_w ), "policies state their kind" );
}
