// Set, clear, toggle, trigger and acknowledge single bits.
// @mode int
// @target avr
// @bound every bit of 8 and 16 bit registers, every access policy, every register content; the hardware side of a flag register (a one clears the flag) is outside: the value written is what is decided
#include "avr.h"
#include "mcu/register.hpp"
#include "mcu/atmega328.hpp"
using namespace mcu;

template< typename T > T    get( uint8_t a ) { return T( sizeof(T) == 1 ? vp_io_get( a ) : vp_io_get16( a ) ); }
template< typename T > void put( uint8_t a, T v )
{
    vp_io_set( a, uint8_t( v ) );
    if ( sizeof(T) > 1 ) vp_io_set( a + 1, uint8_t( uint16_t( v ) >> 8 ) );
}
template< typename T > void start( uint8_t a, T reg ) { put<T>( a, reg ); vp_io_mark(); }
template< typename T > void once( uint8_t a )
{
    bool ok = vp_io_len() == int( 2 * sizeof(T) );
    for ( int i = 0; i < int( sizeof(T) ); ++i )
        ok = ok & ( vp_io_reads( a + i ) == 1 ) & ( vp_io_writes( a + i ) == 1 );
    vp_check( ok, "a bit operation reads and writes its register once" );
}
// the flag must be written as one; the bits in keep (control bits) as they were
template< typename T > void acknowledged( uint8_t a, T reg, T flag, T keep )
{
    const T now = get<T>( a );
    vp_check( ( now & flag ) == flag, "acknowledging writes a one to the flag" );
    vp_check( T( now & keep ) == T( reg & keep ), "acknowledging keeps the other bits" );
}

template< typename T, address_t A, int B >
void bits_of( int bit, T reg )
{
    vp_cases vp_one;
    const T m = T( T( 1 ) << B );
    const T n = T( ~m );
    if ( bit == B ) {
    ONE {
        start<T>( A, reg ); bitfield_t< T, rw_t, A, B >::set();
        vp_check( get<T>( A ) == T( reg | m ), "set sets the bit and only that" ); once<T>( A );
    }
    ONE {
        start<T>( A, reg ); bitfield_t< T, rw_t, A, B >::clear();
        vp_check( get<T>( A ) == T( reg & n ), "clear clears the bit and only that" ); once<T>( A );
    }
    ONE {
        start<T>( A, reg ); bitfield_t< T, rw_t, A, B >::toggle();
        vp_check( get<T>( A ) == T( reg ^ m ), "toggle inverts the bit and only that" ); once<T>( A );
    }
    ONE {
        start<T>( A, reg ); bitfield_t< T, w_t, A, B >::set();
        vp_check( get<T>( A ) == T( reg | m ), "set sets the bit and only that" ); once<T>( A );
    }
    ONE {
        start<T>( A, reg ); bitfield_t< T, w_t, A, B >::clear();
        vp_check( get<T>( A ) == T( reg & n ), "clear clears the bit and only that" ); once<T>( A );
    }
    ONE {
        start<T>( A, reg ); bitfield_t< T, rs_t, A, B >::set();
        vp_check( get<T>( A ) == T( reg | m ), "set sets the bit and only that" ); once<T>( A );
    }
    ONE {
        start<T>( A, reg ); bitfield_t< T, rc_w0_t, A, B >::clear();
        vp_check( get<T>( A ) == T( reg & n ), "clear by writing zero clears the bit and only that" ); once<T>( A );
    }
    ONE {
        start<T>( A, reg ); bitfield_t< T, rc_w1_t, A, B >::clear();
        acknowledged<T>( A, reg, m, n ); once<T>( A );
    }
    ONE {
        start<T>( A, reg ); bitfield_t< T, rt_w, A, B >::trigger();
        acknowledged<T>( A, reg, m, n ); once<T>( A );
    }
    }
    if constexpr( B > 0 ) bits_of< T, A, B - 1 >( bit, reg );
}

VP_HARNESS( h_bits_8 )     { bits_of< uint8_t, 0x84, 7 >( vp_choose( "bit", 8 ), vp_u8( "register" ) ); }
VP_HARNESS( h_bits_8_low ) { bits_of< uint8_t, 0x2b, 7 >( vp_choose( "bit", 8 ), vp_u8( "register" ) ); }
VP_HARNESS( h_bits_16 )    { bits_of< uint16_t, 0x88, 15 >( vp_choose( "bit", 16 ), vp_u16( "register" ) ); }
