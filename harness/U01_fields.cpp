// Fields of hardware registers: write, read, read-write combinations, for every position and width.
// @mode int
// @target avr
// @bound every field position and width of 8 and 16 bit registers, every register content and value; symbolic register file
#include "avr.h"
#include "mcu/register.hpp"
using namespace mcu;

template< typename T > T    get( uint8_t a ) { return T( sizeof(T) == 1 ? vp_io_get( a ) : vp_io_get16( a ) ); }
template< typename T > void put( uint8_t a, T v )
{
    vp_io_set( a, uint8_t( v ) );
    if ( sizeof(T) > 1 ) vp_io_set( a + 1, uint8_t( uint16_t( v ) >> 8 ) );
}
template< typename T > bool accesses( uint8_t a, int reads, int writes )
{
    bool ok = vp_io_len() == int( sizeof(T) ) * ( reads + writes );
    for ( int i = 0; i < int( sizeof(T) ); ++i )
        ok = ok & ( vp_io_reads( a + i ) == reads ) & ( vp_io_writes( a + i ) == writes );
    return ok;
}

template< typename T, template<typename> typename IO, address_t A, index_t HI, index_t LO >
void writes( T reg, T v )
{
    using F = bitfield_t< T, IO, A, HI, LO >;
    const bool single = HI == LO, all = HI - LO + 1 == int( 8 * sizeof(T) );
    const T mask = T( ( ( uint32_t( 1 ) << ( HI - LO + 1 ) ) - 1 ) << LO );
    put<T>( A, reg );
    vp_io_mark();
    F::write( v );
    const T now = get<T>( A );
    vp_check( T( now & T( ~mask ) ) == T( reg & T( ~mask ) ), "writing a field leaves the other bits as they were" );
    if ( single )
        vp_check( ( v > 1 ) | ( T( now & mask ) == T( uint32_t( v ) << LO ) ), "writing a field stores the value" );
    else
        vp_check( T( now & mask ) == T( T( uint32_t( v ) << LO ) & mask ), "writing a field stores the value" );
    vp_check( accesses<T>( A, all ? 0 : 1, 1 ), "writing a field writes its register once and no other" );
}

template< typename T, template<typename> typename IO, address_t A, index_t HI, index_t LO >
void reads( T reg )
{
    using F = bitfield_t< T, IO, A, HI, LO >;
    const T mask = T( ( uint32_t( 1 ) << ( HI - LO + 1 ) ) - 1 );
    put<T>( A, reg );
    vp_io_mark();
    const T r = F::read();
    vp_check( r == T( ( reg >> LO ) & mask ), "reading a field gives its bits" );
    vp_check( accesses<T>( A, 1, 0 ), "reading a field reads its register once and writes none" );
    vp_check( get<T>( A ) == reg, "reading a field changes nothing" );
}

template< typename T, address_t A, int HI, int LO >
void every( vp_cases & vp_one, T reg, T v )                    // fields HI..LO, HI..LO-1, ..., HI..0
{
    ONE { writes< T, rw_t, A, HI, LO >( reg, v ); }
    ONE { reads < T, rw_t, A, HI, LO >( reg ); }
    if constexpr( LO > 0 ) every< T, A, HI, LO - 1 >( vp_one, reg, v );
}

template< typename T, address_t A, int HI >
void all_fields( int hi, T reg, T v )
{
    if ( hi == HI ) { vp_cases vp_one; every< T, A, HI, HI >( vp_one, reg, v ); }
    if constexpr( HI > 0 ) all_fields< T, A, HI - 1 >( hi, reg, v );
}

VP_HARNESS( h_fields_8 )
{
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" );
    all_fields< uint8_t, 0x84, 7 >( vp_choose( "highest", 8 ), reg, v );
}
VP_HARNESS( h_fields_8_low )        // bit-addressable part of the register file
{
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" );
    all_fields< uint8_t, 0x3e, 7 >( vp_choose( "highest", 8 ), reg, v );
}
VP_HARNESS( h_fields_16 )
{
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    all_fields< uint16_t, 0x88, 15 >( vp_choose( "highest", 16 ), reg, v );
}

VP_HARNESS( h_write_only )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" );
    ONE { writes< uint8_t, w_t, 0x84, 7, 0 >( reg, v ); }
    ONE { writes< uint8_t, w_t, 0x84, 0, 0 >( reg, v ); }
    ONE { writes< uint8_t, w_t, 0x84, 7, 7 >( reg, v ); }
    ONE { writes< uint8_t, w_t, 0x84, 6, 2 >( reg, v ); }
    ONE { writes< uint8_t, w_t, 0x84, 3, 0 >( reg, v ); }
    ONE { writes< uint8_t, w_t, 0x84, 7, 4 >( reg, v ); }
}
VP_HARNESS( h_write_only_16 )
{
    vp_cases vp_one;
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    ONE { writes< uint16_t, w_t, 0x88, 15, 0 >( reg, v ); }
    ONE { writes< uint16_t, w_t, 0x88, 15, 15 >( reg, v ); }
    ONE { writes< uint16_t, w_t, 0x88, 11, 6 >( reg, v ); }
}
VP_HARNESS( h_read_only )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" );
    ONE { reads< uint8_t, r_t, 0x84, 7, 0 >( reg ); }
    ONE { reads< uint8_t, r_t, 0x84, 6, 6 >( reg ); }
    ONE { reads< uint8_t, r_t, 0x84, 5, 3 >( reg ); }
    ONE { reads< uint8_t, rc_w1_t, 0x84, 4, 4 >( reg ); }
    ONE { reads< uint8_t, rc_w0_t, 0x84, 4, 4 >( reg ); }
    ONE { reads< uint8_t, rc_r_t , 0x84, 3, 3 >( reg ); }
    ONE { reads< uint8_t, rs_t   , 0x84, 7, 7 >( reg ); }
    ONE { reads< uint8_t, rt_w   , 0x84, 0, 0 >( reg ); }
}
VP_HARNESS( h_read_only_16 )
{
    vp_cases vp_one;
    const uint16_t reg = vp_u16( "register" );
    ONE { reads< uint16_t, r_t, 0x88, 15, 0 >( reg ); }
    ONE { reads< uint16_t, r_t, 0x88, 15, 15 >( reg ); }
    ONE { reads< uint16_t, r_t, 0x88, 9, 0 >( reg ); }
    ONE { reads< uint16_t, rc_w1_t, 0x88, 12, 12 >( reg ); }
}

// What is written is read back, through another field of the same register too:
VP_HARNESS( h_write_read )
{
    const uint8_t v = vp_u8( "value" ), u = vp_u8( "other" );
    using F = bitfield8_t< rw_t, 0x84, 5, 3 >;
    using G = bitfield8_t< rw_t, 0x84, 7, 6 >;
    using H = bitfield8_t< rw_t, 0x84, 2, 0 >;
    using W = register8_t< rw_t, 0x84 >;
    W::write( u );
    vp_check( W::read() == u, "a register reads back" );
    G::write( v );
    F::write( v );
    H::write( v );
    vp_check( ( F::read() == ( v & 7 ) ) & ( G::read() == ( v & 3 ) ) & ( H::read() == ( v & 7 ) ), "neighbouring fields read back" );
    using W16 = register16_t< rw_t, 0x88 >;
    W16::write( uint16_t( u << 8 | v ) );
    vp_check( W16::read() == uint16_t( u << 8 | v ), "a 16 bit register reads back" );
}

// Every access takes place, in the order of the program (a register can change by itself):
VP_HARNESS( h_volatile )
{
    vp_io_live( 0x84 );
    using W = register8_t< rw_t, 0x84 >;
    using V = register8_t< rw_t, 0x85 >;
    const uint8_t v = vp_u8( "value" );
    vp_io_mark();
    const uint8_t a = W::read();
    const uint8_t b = W::read();
    V::write( v );
    V::write( v );
    const uint8_t c = W::read();
    V::write( uint8_t( v + 1 ) );
    vp_check( ( vp_io_reads( 0x84 ) == 3 ) & ( vp_io_writes( 0x85 ) == 3 ) & ( vp_io_len() == 6 ), "every access takes place" );
    vp_check( ( vp_io_value( 0 ) == a ) & ( vp_io_value( 1 ) == b ) & ( vp_io_value( 4 ) == c ), "every read gives the content at that time" );
    vp_check( ( vp_io_value( 2 ) == v ) & ( vp_io_value( 3 ) == v ) & ( vp_io_value( 5 ) == uint8_t( v + 1 ) ), "every write stores its value" );
    vp_check( ( vp_io_addr( 1 ) == 0x84 ) & ( vp_io_addr( 2 ) == 0x85 ) & ( vp_io_addr( 4 ) == 0x84 ), "accesses keep their order" );
}

// a 16 bit register is read low byte first and written high byte first, as the device needs
VP_HARNESS( h_order_16 )
{
    using W = register16_t< rw_t, 0x88 >;
    const uint16_t v = vp_u16( "value" );
    vp_io_mark();
    const uint16_t r = W::read();
    W::write( v );
    vp_check( ( vp_io_addr( 0 ) == 0x88 ) & ( vp_io_addr( 1 ) == 0x89 ) & ( vp_io_addr( 2 ) == 0x89 ) & ( vp_io_addr( 3 ) == 0x88 ), "16 bit access order" );
    vp_check( r == uint16_t( vp_io_value( 1 ) << 8 | vp_io_value( 0 ) ), "16 bit read" );
    vp_check( v == uint16_t( vp_io_value( 2 ) << 8 | vp_io_value( 3 ) ), "16 bit write" );
}

// Fields with an enumeration as data type:
enum class E8 : uint8_t {};
enum class E16 : uint16_t {};
VP_HARNESS( h_typed )
{
    const uint8_t v = vp_u8( "v" );
    const uint16_t w = vp_u16( "w" );
    using R = register_t< E8, rw_t, 0x84 >;
    using S = register_t< E16, rw_t, 0x88 >;
    vp_io_mark();
    R::write( E8( v ) );
    S::write( E16( w ) );
    vp_check( ( vp_io_get( 0x84 ) == v ) & ( vp_io_get16( 0x88 ) == w ) & ( vp_io_len() == 3 ), "typed registers hold the value" );
    vp_check( ( R::read() == E8( v ) ) & ( S::read() == E16( w ) ), "typed registers read back" );
}
