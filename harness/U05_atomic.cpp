// Values shared with interrupt handlers.
// @mode int
// @target avr
// @bound 16 and 32 bit integers (signed and unsigned) and bytes; one interrupt (two for reads of 16 bits) before any byte access of the shared object or at the harness' own points; every old and new value
// @assume interrupts are enabled when a guard is entered (the guard's documented simplification)
#include "avr.h"
#include "mcu/register.hpp"
#include "mcu/atmega328.hpp"
using namespace mcu;

template< typename T > struct shared
{
    static volatile T value;
    static T next, next2, seen;
    static uint8_t ran;
    static void writer() { value = ran ? next2 : next; ++ran; }
    static void reader() { seen = value; ++ran; }
};
template< typename T > volatile T shared<T>::value;
template< typename T > T shared<T>::next;
template< typename T > T shared<T>::next2;
template< typename T > T shared<T>::seen;
template< typename T > uint8_t shared<T>::ran;

inline void on() { vp_io_set( 0x5f, 0x80 ); }
inline bool enabled() { return ( vp_io_get( 0x5f ) & 0x80 ) != 0; }

template< typename T > void reading( T old, T next )
{
    using S = shared<T>;
    S::value = old; S::next = next; S::ran = 0;
    on();
    vp_shared( &S::value );
    vp_isr( &S::writer, 1 );
    const T got = atomic( S::value );
    const uint8_t ran = S::ran;
    vp_no_isr();
    vp_check( ( got == old ) | ( got == next ), "an atomic read gives a value that existed" );
    vp_check( ( ran != 0 ) | ( got == old ), "an atomic read gives the current value" );
    vp_check( enabled(), "interrupts are enabled after an atomic read" );
}
VP_HARNESS( h_read_u16 ) { const uint16_t a = vp_u16( "old" ), b = vp_u16( "next" ); reading<uint16_t>( a, b ); }
VP_HARNESS( h_read_i16 ) { const int16_t  a = vp_i16( "old" ), b = vp_i16( "next" ); reading<int16_t >( a, b ); }
VP_HARNESS( h_read_u32 ) { const uint32_t a = vp_u32( "old" ), b = vp_u32( "next" ); reading<uint32_t>( a, b ); }
VP_HARNESS( h_read_i32 ) { const int32_t  a = vp_i32( "old" ), b = vp_i32( "next" ); reading<int32_t >( a, b ); }
VP_HARNESS( h_read_u8 )  { const uint8_t  a = vp_u8 ( "old" ), b = vp_u8 ( "next" ); reading<uint8_t >( a, b ); }

VP_HARNESS( h_read_two_interrupts )
{
    using S = shared<uint16_t>;
    const uint16_t a = vp_u16( "old" ), b = vp_u16( "next" ), c = vp_u16( "next2" );
    S::value = a; S::next = b; S::next2 = c; S::ran = 0;
    on();
    vp_shared( &S::value );
    vp_isr( &S::writer, 2 );
    const uint16_t got = atomic( S::value );
    vp_point();
    const uint16_t again = atomic( S::value );
    vp_no_isr();
    vp_check( ( got == a ) | ( got == b ) | ( got == c ), "an atomic read gives a value that existed" );
    vp_check( ( again == a ) & ( got == a ) | ( again == b ) & ( ( got == a ) | ( got == b ) ) | ( again == c ), "later reads give later values" );
    vp_check( enabled(), "interrupts are enabled after an atomic read" );
}

template< typename T > void writing( T old, T next )
{
    using S = shared<T>;
    S::value = old; S::ran = 0; S::seen = old;
    on();
    vp_shared( &S::value );
    vp_isr( &S::reader, 1 );
    atomic( S::value, next );
    vp_point();
    const uint8_t ran = S::ran;
    vp_no_isr();
    vp_check( ( ran == 0 ) | ( S::seen == old ) | ( S::seen == next ), "a handler sees the value before or after an atomic write" );
    vp_check( T( S::value ) == next, "an atomic write stores the value" );
    vp_check( enabled(), "interrupts are enabled after an atomic write" );
}
VP_HARNESS( h_write_u16 ) { const uint16_t a = vp_u16( "old" ), b = vp_u16( "next" ); writing<uint16_t>( a, b ); }
VP_HARNESS( h_write_i16 ) { const int16_t  a = vp_i16( "old" ), b = vp_i16( "next" ); writing<int16_t >( a, b ); }
VP_HARNESS( h_write_u32 ) { const uint32_t a = vp_u32( "old" ), b = vp_u32( "next" ); writing<uint32_t>( a, b ); }
VP_HARNESS( h_write_i32 ) { const int32_t  a = vp_i32( "old" ), b = vp_i32( "next" ); writing<int32_t >( a, b ); }
VP_HARNESS( h_write_u8 )  { const uint8_t  a = vp_u8 ( "old" ), b = vp_u8 ( "next" ); writing<uint8_t >( a, b ); }
VP_HARNESS( h_write_other_type )
{
    using S = shared<uint16_t>;
    const uint8_t b = vp_u8( "next" );
    S::value = 0xffff; S::ran = 0; S::seen = 0xffff;
    on();
    vp_shared( &S::value );
    vp_isr( &S::reader, 1 );
    atomic( S::value, b );
    const uint8_t ran = S::ran;
    vp_no_isr();
    vp_check( ( ran == 0 ) | ( S::seen == 0xffff ) | ( S::seen == b ), "a handler sees the value before or after an atomic write" );
    vp_check( uint16_t( S::value ) == b, "an atomic write stores the value" );
}

// both directions: the handler changes a value the program overwrites
VP_HARNESS( h_write_writer )
{
    using S = shared<uint16_t>;
    const uint16_t a = vp_u16( "old" ), b = vp_u16( "next" ), c = vp_u16( "mine" );
    S::value = a; S::next = b; S::ran = 0;
    on();
    vp_shared( &S::value );
    vp_isr( &S::writer, 1 );
    atomic( S::value, c );
    const uint8_t ran = S::ran;
    vp_no_isr();
    const uint16_t now = S::value;
    vp_check( ( now == c ) | ( ran != 0 ) & ( now == b ), "the last write wins as a whole" );
}

VP_HARNESS( h_guard )
{
    using S = shared<uint16_t>;
    const uint16_t a = vp_u16( "old" ), b = vp_u16( "next" );
    S::value = a; S::next = b; S::ran = 0;
    on();
    vp_shared( &S::value );
    vp_isr( &S::writer, 1 );
    uint16_t x, y;
    {
        scoped_interrupt_guard _;
        vp_check( !enabled(), "interrupts are disabled in a guarded scope" );
        x = S::value;
        vp_point();
        y = S::value;
        vp_check( !enabled(), "interrupts are disabled in a guarded scope" );
    }
    vp_check( enabled(), "interrupts are enabled after a guarded scope" );
    vp_no_isr();
    vp_check( x == y, "nothing changes in a guarded scope" );
}

// the saved status register is restored at the end of the scope
VP_HARNESS( h_saved_status )
{
    const uint8_t s = vp_u8( "status" );
    vp_io_set( 0x5f, s );
    {
        atmega328::core::scoped_sreg _;
        if ( vp_choose( "inside", 2 ) ) sei(); else cli();
    }
    vp_check( ( vp_io_get( 0x5f ) & 0x80 ) == ( s & 0x80 ), "the interrupt enable flag is restored with the status register" );
}
