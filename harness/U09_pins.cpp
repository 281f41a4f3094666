// General purpose pins, the LED and the PWM output.
// @mode int
// @target avr
// @frontend generic
// @bound ports B, C and D, every pin, every register content and value; for the PWM one interrupt at any byte access
#include "avr.h"
#include "mcu/atmega328.hpp"
using namespace mcu;
using namespace mcu::atmega328;

inline void fill( uint8_t b, uint8_t x, uint8_t y, uint8_t z ) { vp_io_set( b, x ); vp_io_set( b + 1, y ); vp_io_set( b + 2, z ); vp_io_mark(); }
// only this register was accessed and it holds this now
inline bool only( uint8_t a, uint8_t v ) { return ( vp_io_get( a ) == v ) & ( vp_io_writes( a ) == 1 ) & ( vp_io_elsewhere( a ) == 0 ); }

// pin register at BASE, direction at BASE + 1, output at BASE + 2
template< port P, int B, uint8_t BASE > void pin( int bit, uint8_t x, uint8_t y, uint8_t z )
{
    using G = typename gpio<P>::template p<B>;
    const uint8_t m = 1u << B, n = uint8_t( ~m );
    vp_cases vp_one;
    if ( bit == B ) {
    ONE { fill( BASE, x, y, z ); G::dir::set();    vp_check( only( BASE + 1, y | m ), "making a pin an output touches its direction only" ); }
    ONE { fill( BASE, x, y, z ); G::dir::clear();  vp_check( only( BASE + 1, y & n ), "making a pin an input touches its direction only" ); }
    ONE { fill( BASE, x, y, z ); G::dir::toggle(); vp_check( only( BASE + 1, y ^ m ), "turning the direction of a pin touches its direction only" ); }
    ONE { fill( BASE, x, y, z ); G::out::set();    vp_check( only( BASE + 2, z | m ), "driving a pin high touches its output only" ); }
    ONE { fill( BASE, x, y, z ); G::out::clear();  vp_check( only( BASE + 2, z & n ), "driving a pin low touches its output only" ); }
    ONE { fill( BASE, x, y, z ); G::out::toggle(); vp_check( only( BASE + 2, z ^ m ), "toggling a pin touches its output only" ); }
    ONE { fill( BASE, x, y, z ); G::out::write( x & 1 ); vp_check( only( BASE + 2, ( z & n ) | ( x & 1 ) << B ), "writing a pin touches its output only" ); }
    ONE {
    fill( BASE, x, y, z );
    vp_check( ( G::inp::read() == ( x >> B & 1 ) ) & ( G::dir::read() == ( y >> B & 1 ) ) & ( G::out::read() == ( z >> B & 1 ) ), "a pin is read at its port" );
    vp_check( ( vp_io_len() == 3 ) & ( vp_io_reads( BASE ) == 1 ) & ( vp_io_reads( BASE + 1 ) == 1 ) & ( vp_io_reads( BASE + 2 ) == 1 ), "reading a pin changes nothing" );
    }
    using L = led< P, B >;
    ONE { fill( BASE, x, y, z ); L::enable(); vp_check( only( BASE + 1, y | m ), "enabling a LED makes its pin an output" ); }
    ONE { fill( BASE, x, y, z ); L::on();     vp_check( only( BASE + 2, z | m ), "a LED on drives its pin high" ); }
    ONE { fill( BASE, x, y, z ); L::off();    vp_check( only( BASE + 2, z & n ), "a LED off drives its pin low" ); }
    ONE { fill( BASE, x, y, z ); L::toggle(); vp_check( only( BASE + 2, z ^ m ), "toggling a LED toggles its pin" ); }
    }
    if constexpr( B > 0 ) pin< P, B - 1, BASE >( bit, x, y, z );
}
VP_HARNESS( h_port_b ) { const uint8_t x = vp_u8( "pins" ), y = vp_u8( "direction" ), z = vp_u8( "output" ); pin< port::B, 7, 0x23 >( vp_choose( "bit", 8 ), x, y, z ); }
VP_HARNESS( h_port_c ) { const uint8_t x = vp_u8( "pins" ), y = vp_u8( "direction" ), z = vp_u8( "output" ); pin< port::C, 7, 0x26 >( vp_choose( "bit", 8 ), x, y, z ); }
VP_HARNESS( h_port_d ) { const uint8_t x = vp_u8( "pins" ), y = vp_u8( "direction" ), z = vp_u8( "output" ); pin< port::D, 7, 0x29 >( vp_choose( "bit", 8 ), x, y, z ); }

template< port P, uint8_t BASE > void whole( uint8_t x, uint8_t y, uint8_t z, uint8_t v )
{
    using G = gpio<P>;
    fill( BASE, x, y, z );
    vp_check( ( G::pin::read() == x ) & ( G::ddr::read() == y ) & ( G::port::read() == z ), "a port is read as a whole" );
    vp_io_mark(); G::ddr::write( v );  vp_check( only( BASE + 1, v ), "directions are written as a whole" );
    vp_io_mark(); G::port::write( v ); vp_check( only( BASE + 2, v ), "outputs are written as a whole" );
}
VP_HARNESS( h_whole )
{
    const uint8_t x = vp_u8( "pins" ), y = vp_u8( "direction" ), z = vp_u8( "output" ), v = vp_u8( "value" );
    whole< port::B, 0x23 >( x, y, z, v );
    whole< port::C, 0x26 >( x, y, z, v );
    whole< port::D, 0x29 >( x, y, z, v );
}

// PWM on pin PB1: timer 1, output a, 10 bit
VP_HARNESS( h_pwm_init )
{
    const uint8_t d = vp_u8( "direction" ), a = vp_u8( "control a" ), b = vp_u8( "control b" );
    vp_io_set( 0x24, d ); vp_io_set( 0x80, a ); vp_io_set( 0x81, b );
    vp_io_mark();
    tc1_pwm_on_a_pb1::init();
    vp_check( vp_io_get( 0x24 ) == ( d | 2 ), "PWM makes its pin an output" );
    vp_check( vp_io_get( 0x80 ) == uint8_t( ( a & 0x3c ) | 0x83 ), "PWM output is non-inverting, 10 bit" );
    vp_check( vp_io_get( 0x81 ) == uint8_t( ( b & 0xe0 ) | 0x09 ), "PWM is fast, without prescaling" );
    vp_check( vp_io_len() == vp_io_reads( 0x24 ) + vp_io_reads( 0x80 ) + vp_io_reads( 0x81 ) + vp_io_writes( 0x24 ) + vp_io_writes( 0x80 ) + vp_io_writes( 0x81 ), "PWM initialisation accesses its registers only" );
}
VP_HARNESS( h_pwm_write )
{
    const uint16_t v = vp_u16( "value" );
    const uint8_t s = 0x80;
    vp_io_set( 0x5f, s );
    vp_io_mark();
    tc1_pwm_on_a_pb1::write( v );
    vp_check( vp_io_get16( 0x88 ) == v, "the PWM value is written" );
    vp_check( vp_io_once<uint16_t>( 0x88, 0, 1 ), "the PWM value is written once" );
    vp_check( ( vp_io_addr( 0 ) == 0x89 ) & ( vp_io_addr( 1 ) == 0x88 ), "the high byte is written first" );
    vp_check( ( vp_io_enabled( 0 ) | vp_io_enabled( 1 ) ) == 0, "the PWM value is written with interrupts off" );
    vp_check( ( vp_io_get( 0x5f ) & 0x80 ) == 0x80, "interrupts are enabled afterwards" );
    vp_check( ( tc1_pwm_on_a_pb1::value_max == 1023 ) & ( tc1_pwm_on_a_pb1::value_min == 3 ), "range of the PWM value" );
}
