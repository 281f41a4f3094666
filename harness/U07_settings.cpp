// Settings of the peripherals: set and current.
// @mode int
// @target avr
// @frontend generic
// @bound every setting the interface offers, every value of its type's modes, every register content
#include "avr.h"
#include "mcu/atmega328.hpp"
using namespace mcu;
using namespace mcu::atmega328;

// the mode stored in bits HI..LO of the register, reported back, everything else as it was
template< typename E, uint8_t A, int HI, int LO > void setting( uint8_t reg, uint8_t v )
{
    const uint8_t mask = uint8_t( ( ( 1u << ( HI - LO + 1 ) ) - 1 ) << LO );
    v &= mask >> LO;
    vp_io_set( A, reg );
    vp_io_mark();
    set( E( v ) );
    vp_check( vp_io_get( A ) == uint8_t( ( reg & ~mask ) | ( v << LO ) ), "a setting is stored and the others are left" );
    vp_check( ( vp_io_writes( A ) == 1 ) & ( vp_io_elsewhere( A ) == 0 ), "a setting is one write of its register" );
    vp_io_mark();
    const E now = current( E{} );
    vp_check( now == E( v ), "a setting reads back as set" );
    vp_check( ( vp_io_reads( A ) == 1 ) & ( vp_io_len() == 1 ), "asking a setting reads its register only" );
    // whatever the register holds is reported:
    vp_io_set( A, reg );
    vp_check( current( E{} ) == E( ( reg & mask ) >> LO ), "the current setting is what the register holds" );
}
// a named mode has the code of the data sheet
template< typename E, uint8_t A, int HI, int LO > void mode( uint8_t reg, E e, uint8_t code )
{
    const uint8_t mask = uint8_t( ( ( 1u << ( HI - LO + 1 ) ) - 1 ) << LO );
    vp_io_set( A, reg );
    set( e );
    vp_check( vp_io_get( A ) == uint8_t( ( reg & ~mask ) | ( code << LO ) ), "a named mode has the code the data sheet gives" );
}
// flag F at bit B
template< typename F, uint8_t A, int B > void event( uint8_t reg )
{
    vp_io_set( A, reg );
    vp_io_mark();
    const bool up = current( F{} ) != 0;
    vp_check( up == ( ( reg >> B & 1 ) != 0 ), "an event flag is reported" );
    vp_check( ( vp_io_reads( A ) == 1 ) & ( vp_io_len() == 1 ), "asking a flag reads its register only" );
    vp_io_mark();
    clear( F{} );
    vp_check( vp_io_get( A ) == uint8_t( reg | 1u << B ), "acknowledging an event writes a one to its flag and keeps the other bits" );
    vp_check( ( vp_io_writes( A ) == 1 ) & ( vp_io_elsewhere( A ) == 0 ), "acknowledging is one write of the flag's register" );
}
// a whole register
template< typename E, typename T, uint8_t A > void value( T reg, T v )
{
    vp_io_put<T>( A, reg );
    vp_io_mark();
    vp_check( T( current( E{} ) ) == reg, "the current value is what the register holds" );
    vp_check( vp_io_once<T>( A, 1, 0 ), "asking a value reads its register only" );
    vp_io_mark();
    set( E( v ) );
    vp_check( vp_io_content<T>( A ) == v, "a value is stored" );
    vp_check( vp_io_once<T>( A, 0, 1 ), "storing a value writes its register only" );
    vp_check( T( current( E{} ) ) == v, "a value reads back" );
}
// an action that sets bit B
template< typename E, uint8_t A, int B > void action( uint8_t reg )
{
    vp_io_set( A, reg );
    vp_io_mark();
    set( E{} );
    vp_check( vp_io_get( A ) == uint8_t( reg | 1u << B ), "an action sets its bit and leaves the others" );
    vp_check( ( vp_io_writes( A ) == 1 ) & ( vp_io_elsewhere( A ) == 0 ), "an action is one write of its register" );
}

VP_HARNESS( h_settings_eeprom )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" );
    ONE { setting< mem::eeprom::program::mode, 0x3f, 5, 4 >( reg, v ); }
    ONE { setting< mem::eeprom::enable::read, 0x3f, 0, 0 >( reg, v ); }
    ONE { setting< mem::eeprom::enable::write, 0x3f, 1, 1 >( reg, v ); }
    ONE { setting< mem::eeprom::enable::master_write, 0x3f, 2, 2 >( reg, v ); }
    ONE { setting< mem::eeprom::interrupt::on_ready, 0x3f, 3, 3 >( reg, v ); }
}
VP_HARNESS( h_settings_tc0 )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" );
    ONE { setting< tc0::input::clock, 0x45, 2, 0 >( reg, v ); }
    ONE { setting< tc0::output::a::mode, 0x44, 7, 6 >( reg, v ); }
    ONE { setting< tc0::output::b::mode, 0x44, 5, 4 >( reg, v ); }
    ONE { setting< tc0::enable::interrupt::on::match_a, 0x6e, 1, 1 >( reg, v ); }
    ONE { setting< tc0::enable::interrupt::on::match_b, 0x6e, 2, 2 >( reg, v ); }
    ONE { setting< tc0::enable::interrupt::on::overflow, 0x6e, 0, 0 >( reg, v ); }
}
VP_HARNESS( h_settings_tc1 )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" );
    ONE { setting< tc1::input::clock, 0x81, 2, 0 >( reg, v ); }
    ONE { setting< tc1::output::a::mode, 0x80, 7, 6 >( reg, v ); }
    ONE { setting< tc1::output::b::mode, 0x80, 5, 4 >( reg, v ); }
    ONE { setting< tc1::enable::interrupt::on::match_a, 0x6f, 1, 1 >( reg, v ); }
    ONE { setting< tc1::enable::interrupt::on::match_b, 0x6f, 2, 2 >( reg, v ); }
    ONE { setting< tc1::enable::interrupt::on::overflow, 0x6f, 0, 0 >( reg, v ); }
    ONE { setting< tc1::enable::interrupt::on::capture, 0x6f, 5, 5 >( reg, v ); }
    ONE { setting< tc1::input::capture::edge, 0x81, 6, 6 >( reg, v ); }
}
VP_HARNESS( h_settings_tcp )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" );
    ONE { setting< tcp::synchronization, 0x43, 7, 7 >( reg, v ); }
    ONE { setting< tcp::reset::prescaler::tc2, 0x43, 1, 1 >( reg, v ); }
    ONE { setting< tcp::reset::prescaler::tc01, 0x43, 0, 0 >( reg, v ); }
}
VP_HARNESS( h_settings_twi )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" );
    ONE { setting< twi::control::prescale::factor, 0xb9, 1, 0 >( reg, v ); }
    ONE { setting< twi::enable::interface, 0xbc, 2, 2 >( reg, v ); }
    ONE { setting< twi::enable::interrupt, 0xbc, 0, 0 >( reg, v ); }
    ONE { setting< twi::enable::general_call, 0xba, 0, 0 >( reg, v ); }
    ONE { setting< twi::protocol::address, 0xba, 7, 1 >( reg, v ); }
}
VP_HARNESS( h_settings_ac )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" );
    ONE { setting< ac::input::select::bandgap_ref, 0x50, 6, 6 >( reg, v ); }
    ONE { setting< ac::output::interrupt::on, 0x50, 1, 0 >( reg, v ); }
    ONE { setting< ac::enable::interrupt, 0x50, 3, 3 >( reg, v ); }
    ONE { setting< ac::enable::input::capture, 0x50, 2, 2 >( reg, v ); }
    ONE { setting< ac::disable::analog::comparator, 0x50, 7, 7 >( reg, v ); }
}
VP_HARNESS( h_settings_adc )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" );
    ONE { setting< adc::conversion::adjustment, 0x7c, 5, 5 >( reg, v ); }
    ONE { setting< adc::input::reference, 0x7c, 7, 6 >( reg, v ); }
    ONE { setting< adc::input::channel, 0x7c, 3, 0 >( reg, v ); }
    ONE { setting< adc::enable::adc, 0x7a, 7, 7 >( reg, v ); }
    ONE { setting< adc::enable::interrupt, 0x7a, 3, 3 >( reg, v ); }
    ONE { setting< adc::enable::auto_trigger, 0x7a, 5, 5 >( reg, v ); }
    ONE { setting< adc::enable::comparator, 0x7b, 6, 6 >( reg, v ); }
    ONE { setting< adc::trigger::on, 0x7b, 2, 0 >( reg, v ); }
    ONE { setting< adc::prescale::factor, 0x7a, 2, 0 >( reg, v ); }
}
VP_HARNESS( h_modes )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" );
    ONE { mode< mem::eeprom::program::mode, 0x3f, 5, 4 >( reg, mem::eeprom::program::mode::erase_write, 0 ); }
    ONE { mode< mem::eeprom::program::mode, 0x3f, 5, 4 >( reg, mem::eeprom::program::mode::erase_only, 1 ); }
    ONE { mode< mem::eeprom::program::mode, 0x3f, 5, 4 >( reg, mem::eeprom::program::mode::write_only, 2 ); }
    ONE { mode< mem::eeprom::enable::read, 0x3f, 0, 0 >( reg, mem::eeprom::enable::read::off, 0 ); } ONE { mode< mem::eeprom::enable::read, 0x3f, 0, 0 >( reg, mem::eeprom::enable::read::on, 1 ); }
    ONE { mode< mem::eeprom::enable::write, 0x3f, 1, 1 >( reg, mem::eeprom::enable::write::off, 0 ); } ONE { mode< mem::eeprom::enable::write, 0x3f, 1, 1 >( reg, mem::eeprom::enable::write::on, 1 ); }
    ONE { mode< mem::eeprom::enable::master_write, 0x3f, 2, 2 >( reg, mem::eeprom::enable::master_write::off, 0 ); } ONE { mode< mem::eeprom::enable::master_write, 0x3f, 2, 2 >( reg, mem::eeprom::enable::master_write::on, 1 ); }
    ONE { mode< mem::eeprom::interrupt::on_ready, 0x3f, 3, 3 >( reg, mem::eeprom::interrupt::on_ready::off, 0 ); } ONE { mode< mem::eeprom::interrupt::on_ready, 0x3f, 3, 3 >( reg, mem::eeprom::interrupt::on_ready::on, 1 ); }
    ONE { mode< tc0::input::clock, 0x45, 2, 0 >( reg, tc0::input::clock::none, 0 ); }
    ONE { mode< tc0::input::clock, 0x45, 2, 0 >( reg, tc0::input::clock::x1, 1 ); }
    ONE { mode< tc0::input::clock, 0x45, 2, 0 >( reg, tc0::input::clock::x8, 2 ); }
    ONE { mode< tc0::input::clock, 0x45, 2, 0 >( reg, tc0::input::clock::x64, 3 ); }
    ONE { mode< tc0::input::clock, 0x45, 2, 0 >( reg, tc0::input::clock::x256, 4 ); }
    ONE { mode< tc0::input::clock, 0x45, 2, 0 >( reg, tc0::input::clock::x1024, 5 ); }
    ONE { mode< tc0::input::clock, 0x45, 2, 0 >( reg, tc0::input::clock::ext1_falling_adge, 6 ); }
    ONE { mode< tc0::input::clock, 0x45, 2, 0 >( reg, tc0::input::clock::ext1_rising_adge, 7 ); }
    ONE { mode< tc0::output::a::mode, 0x44, 7, 6 >( reg, tc0::output::a::mode::none, 0 ); }
    ONE { mode< tc0::output::a::mode, 0x44, 7, 6 >( reg, tc0::output::a::mode::toggle, 1 ); }
    ONE { mode< tc0::output::a::mode, 0x44, 7, 6 >( reg, tc0::output::a::mode::clear, 2 ); }
    ONE { mode< tc0::output::a::mode, 0x44, 7, 6 >( reg, tc0::output::a::mode::set, 3 ); }
    ONE { mode< tc0::output::b::mode, 0x44, 5, 4 >( reg, tc0::output::b::mode::none, 0 ); }
    ONE { mode< tc0::output::b::mode, 0x44, 5, 4 >( reg, tc0::output::b::mode::toggle, 1 ); }
    ONE { mode< tc0::output::b::mode, 0x44, 5, 4 >( reg, tc0::output::b::mode::clear, 2 ); }
    ONE { mode< tc0::output::b::mode, 0x44, 5, 4 >( reg, tc0::output::b::mode::set, 3 ); }
    ONE { mode< tc0::enable::interrupt::on::match_a, 0x6e, 1, 1 >( reg, tc0::enable::interrupt::on::match_a::off, 0 ); } ONE { mode< tc0::enable::interrupt::on::match_a, 0x6e, 1, 1 >( reg, tc0::enable::interrupt::on::match_a::on, 1 ); }
    ONE { mode< tc0::enable::interrupt::on::match_b, 0x6e, 2, 2 >( reg, tc0::enable::interrupt::on::match_b::off, 0 ); } ONE { mode< tc0::enable::interrupt::on::match_b, 0x6e, 2, 2 >( reg, tc0::enable::interrupt::on::match_b::on, 1 ); }
    ONE { mode< tc0::enable::interrupt::on::overflow, 0x6e, 0, 0 >( reg, tc0::enable::interrupt::on::overflow::off, 0 ); } ONE { mode< tc0::enable::interrupt::on::overflow, 0x6e, 0, 0 >( reg, tc0::enable::interrupt::on::overflow::on, 1 ); }
    ONE { mode< tc1::input::clock, 0x81, 2, 0 >( reg, tc1::input::clock::none, 0 ); }
    ONE { mode< tc1::input::clock, 0x81, 2, 0 >( reg, tc1::input::clock::x1, 1 ); }
    ONE { mode< tc1::input::clock, 0x81, 2, 0 >( reg, tc1::input::clock::x8, 2 ); }
    ONE { mode< tc1::input::clock, 0x81, 2, 0 >( reg, tc1::input::clock::x64, 3 ); }
    ONE { mode< tc1::input::clock, 0x81, 2, 0 >( reg, tc1::input::clock::x256, 4 ); }
    ONE { mode< tc1::input::clock, 0x81, 2, 0 >( reg, tc1::input::clock::x1024, 5 ); }
    ONE { mode< tc1::input::clock, 0x81, 2, 0 >( reg, tc1::input::clock::ext1_falling_adge, 6 ); }
    ONE { mode< tc1::input::clock, 0x81, 2, 0 >( reg, tc1::input::clock::ext1_rising_adge, 7 ); }
    ONE { mode< tc1::output::a::mode, 0x80, 7, 6 >( reg, tc1::output::a::mode::none, 0 ); }
    ONE { mode< tc1::output::a::mode, 0x80, 7, 6 >( reg, tc1::output::a::mode::toggle, 1 ); }
    ONE { mode< tc1::output::a::mode, 0x80, 7, 6 >( reg, tc1::output::a::mode::clear, 2 ); }
    ONE { mode< tc1::output::a::mode, 0x80, 7, 6 >( reg, tc1::output::a::mode::set, 3 ); }
    ONE { mode< tc1::output::b::mode, 0x80, 5, 4 >( reg, tc1::output::b::mode::none, 0 ); }
    ONE { mode< tc1::output::b::mode, 0x80, 5, 4 >( reg, tc1::output::b::mode::toggle, 1 ); }
    ONE { mode< tc1::output::b::mode, 0x80, 5, 4 >( reg, tc1::output::b::mode::clear, 2 ); }
    ONE { mode< tc1::output::b::mode, 0x80, 5, 4 >( reg, tc1::output::b::mode::set, 3 ); }
    ONE { mode< tc1::enable::interrupt::on::match_a, 0x6f, 1, 1 >( reg, tc1::enable::interrupt::on::match_a::off, 0 ); } ONE { mode< tc1::enable::interrupt::on::match_a, 0x6f, 1, 1 >( reg, tc1::enable::interrupt::on::match_a::on, 1 ); }
    ONE { mode< tc1::enable::interrupt::on::match_b, 0x6f, 2, 2 >( reg, tc1::enable::interrupt::on::match_b::off, 0 ); } ONE { mode< tc1::enable::interrupt::on::match_b, 0x6f, 2, 2 >( reg, tc1::enable::interrupt::on::match_b::on, 1 ); }
    ONE { mode< tc1::enable::interrupt::on::overflow, 0x6f, 0, 0 >( reg, tc1::enable::interrupt::on::overflow::off, 0 ); } ONE { mode< tc1::enable::interrupt::on::overflow, 0x6f, 0, 0 >( reg, tc1::enable::interrupt::on::overflow::on, 1 ); }
    ONE { mode< tc1::enable::interrupt::on::capture, 0x6f, 5, 5 >( reg, tc1::enable::interrupt::on::capture::off, 0 ); } ONE { mode< tc1::enable::interrupt::on::capture, 0x6f, 5, 5 >( reg, tc1::enable::interrupt::on::capture::on, 1 ); }
    ONE { mode< tc1::input::capture::edge, 0x81, 6, 6 >( reg, tc1::input::capture::edge::falling, 0 ); }
    ONE { mode< tc1::input::capture::edge, 0x81, 6, 6 >( reg, tc1::input::capture::edge::rising, 1 ); }
    ONE { mode< tcp::synchronization, 0x43, 7, 7 >( reg, tcp::synchronization::off, 0 ); } ONE { mode< tcp::synchronization, 0x43, 7, 7 >( reg, tcp::synchronization::on, 1 ); }
    ONE { mode< tcp::reset::prescaler::tc2, 0x43, 1, 1 >( reg, tcp::reset::prescaler::tc2::off, 0 ); } ONE { mode< tcp::reset::prescaler::tc2, 0x43, 1, 1 >( reg, tcp::reset::prescaler::tc2::on, 1 ); }
    ONE { mode< tcp::reset::prescaler::tc01, 0x43, 0, 0 >( reg, tcp::reset::prescaler::tc01::off, 0 ); } ONE { mode< tcp::reset::prescaler::tc01, 0x43, 0, 0 >( reg, tcp::reset::prescaler::tc01::on, 1 ); }
    ONE { mode< twi::control::prescale::factor, 0xb9, 1, 0 >( reg, twi::control::prescale::factor::x1, 0 ); }
    ONE { mode< twi::control::prescale::factor, 0xb9, 1, 0 >( reg, twi::control::prescale::factor::x4, 1 ); }
    ONE { mode< twi::control::prescale::factor, 0xb9, 1, 0 >( reg, twi::control::prescale::factor::x16, 2 ); }
    ONE { mode< twi::control::prescale::factor, 0xb9, 1, 0 >( reg, twi::control::prescale::factor::x64, 3 ); }
    ONE { mode< twi::enable::interface, 0xbc, 2, 2 >( reg, twi::enable::interface::off, 0 ); } ONE { mode< twi::enable::interface, 0xbc, 2, 2 >( reg, twi::enable::interface::on, 1 ); }
    ONE { mode< twi::enable::interrupt, 0xbc, 0, 0 >( reg, twi::enable::interrupt::off, 0 ); } ONE { mode< twi::enable::interrupt, 0xbc, 0, 0 >( reg, twi::enable::interrupt::on, 1 ); }
    ONE { mode< twi::enable::general_call, 0xba, 0, 0 >( reg, twi::enable::general_call::off, 0 ); } ONE { mode< twi::enable::general_call, 0xba, 0, 0 >( reg, twi::enable::general_call::on, 1 ); }
    ONE { mode< ac::input::select::bandgap_ref, 0x50, 6, 6 >( reg, ac::input::select::bandgap_ref::off, 0 ); } ONE { mode< ac::input::select::bandgap_ref, 0x50, 6, 6 >( reg, ac::input::select::bandgap_ref::on, 1 ); }
    ONE { mode< ac::output::interrupt::on, 0x50, 1, 0 >( reg, ac::output::interrupt::on::toggle, 0 ); }
    ONE { mode< ac::output::interrupt::on, 0x50, 1, 0 >( reg, ac::output::interrupt::on::falling_edge, 2 ); }
    ONE { mode< ac::output::interrupt::on, 0x50, 1, 0 >( reg, ac::output::interrupt::on::rising_edge, 3 ); }
    ONE { mode< ac::enable::interrupt, 0x50, 3, 3 >( reg, ac::enable::interrupt::off, 0 ); } ONE { mode< ac::enable::interrupt, 0x50, 3, 3 >( reg, ac::enable::interrupt::on, 1 ); }
    ONE { mode< ac::enable::input::capture, 0x50, 2, 2 >( reg, ac::enable::input::capture::off, 0 ); } ONE { mode< ac::enable::input::capture, 0x50, 2, 2 >( reg, ac::enable::input::capture::on, 1 ); }
    ONE { mode< ac::disable::analog::comparator, 0x50, 7, 7 >( reg, ac::disable::analog::comparator::off, 0 ); } ONE { mode< ac::disable::analog::comparator, 0x50, 7, 7 >( reg, ac::disable::analog::comparator::on, 1 ); }
    ONE { mode< adc::conversion::adjustment, 0x7c, 5, 5 >( reg, adc::conversion::adjustment::right, 0 ); }
    ONE { mode< adc::conversion::adjustment, 0x7c, 5, 5 >( reg, adc::conversion::adjustment::left, 1 ); }
    ONE { mode< adc::input::reference, 0x7c, 7, 6 >( reg, adc::input::reference::aref, 0 ); }
    ONE { mode< adc::input::reference, 0x7c, 7, 6 >( reg, adc::input::reference::avcc, 1 ); }
    ONE { mode< adc::input::reference, 0x7c, 7, 6 >( reg, adc::input::reference::intern_1v1, 3 ); }
    ONE { mode< adc::input::channel, 0x7c, 3, 0 >( reg, adc::input::channel::ch0, 0 ); }
    ONE { mode< adc::input::channel, 0x7c, 3, 0 >( reg, adc::input::channel::ch1, 1 ); }
    ONE { mode< adc::input::channel, 0x7c, 3, 0 >( reg, adc::input::channel::ch2, 2 ); }
    ONE { mode< adc::input::channel, 0x7c, 3, 0 >( reg, adc::input::channel::ch3, 3 ); }
    ONE { mode< adc::input::channel, 0x7c, 3, 0 >( reg, adc::input::channel::ch4, 4 ); }
    ONE { mode< adc::input::channel, 0x7c, 3, 0 >( reg, adc::input::channel::ch5, 5 ); }
    ONE { mode< adc::input::channel, 0x7c, 3, 0 >( reg, adc::input::channel::ch6, 6 ); }
    ONE { mode< adc::input::channel, 0x7c, 3, 0 >( reg, adc::input::channel::ch7, 7 ); }
    ONE { mode< adc::input::channel, 0x7c, 3, 0 >( reg, adc::input::channel::ch8, 8 ); }
    ONE { mode< adc::input::channel, 0x7c, 3, 0 >( reg, adc::input::channel::internal_1v1, 14 ); }
    ONE { mode< adc::input::channel, 0x7c, 3, 0 >( reg, adc::input::channel::gnd, 15 ); }
    ONE { mode< adc::enable::adc, 0x7a, 7, 7 >( reg, adc::enable::adc::off, 0 ); } ONE { mode< adc::enable::adc, 0x7a, 7, 7 >( reg, adc::enable::adc::on, 1 ); }
    ONE { mode< adc::enable::interrupt, 0x7a, 3, 3 >( reg, adc::enable::interrupt::off, 0 ); } ONE { mode< adc::enable::interrupt, 0x7a, 3, 3 >( reg, adc::enable::interrupt::on, 1 ); }
    ONE { mode< adc::enable::auto_trigger, 0x7a, 5, 5 >( reg, adc::enable::auto_trigger::off, 0 ); } ONE { mode< adc::enable::auto_trigger, 0x7a, 5, 5 >( reg, adc::enable::auto_trigger::on, 1 ); }
    ONE { mode< adc::enable::comparator, 0x7b, 6, 6 >( reg, adc::enable::comparator::off, 0 ); } ONE { mode< adc::enable::comparator, 0x7b, 6, 6 >( reg, adc::enable::comparator::on, 1 ); }
    ONE { mode< adc::trigger::on, 0x7b, 2, 0 >( reg, adc::trigger::on::free_run, 0 ); }
    ONE { mode< adc::trigger::on, 0x7b, 2, 0 >( reg, adc::trigger::on::ac, 1 ); }
    ONE { mode< adc::trigger::on, 0x7b, 2, 0 >( reg, adc::trigger::on::ei0, 2 ); }
    ONE { mode< adc::trigger::on, 0x7b, 2, 0 >( reg, adc::trigger::on::tc0_match_a, 3 ); }
    ONE { mode< adc::trigger::on, 0x7b, 2, 0 >( reg, adc::trigger::on::tc0_overflow, 4 ); }
    ONE { mode< adc::trigger::on, 0x7b, 2, 0 >( reg, adc::trigger::on::tc1_match_b, 5 ); }
    ONE { mode< adc::trigger::on, 0x7b, 2, 0 >( reg, adc::trigger::on::tc1_overflow, 6 ); }
    ONE { mode< adc::trigger::on, 0x7b, 2, 0 >( reg, adc::trigger::on::tc1_capture_event, 7 ); }
    ONE { mode< adc::prescale::factor, 0x7a, 2, 0 >( reg, adc::prescale::factor::x02, 0 ); }
    ONE { mode< adc::prescale::factor, 0x7a, 2, 0 >( reg, adc::prescale::factor::x2, 1 ); }
    ONE { mode< adc::prescale::factor, 0x7a, 2, 0 >( reg, adc::prescale::factor::x4, 2 ); }
    ONE { mode< adc::prescale::factor, 0x7a, 2, 0 >( reg, adc::prescale::factor::x8, 3 ); }
    ONE { mode< adc::prescale::factor, 0x7a, 2, 0 >( reg, adc::prescale::factor::x16, 4 ); }
    ONE { mode< adc::prescale::factor, 0x7a, 2, 0 >( reg, adc::prescale::factor::x32, 5 ); }
    ONE { mode< adc::prescale::factor, 0x7a, 2, 0 >( reg, adc::prescale::factor::x64, 6 ); }
    ONE { mode< adc::prescale::factor, 0x7a, 2, 0 >( reg, adc::prescale::factor::x128, 7 ); }
}
VP_HARNESS( h_events )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" );
    ONE { event< tc0::interrupt::compare::flag::a, 0x35, 1 >( reg ); }
    ONE { event< tc0::interrupt::compare::flag::b, 0x35, 2 >( reg ); }
    ONE { event< tc0::interrupt::overflow::flag, 0x35, 0 >( reg ); }
    ONE { event< tc1::interrupt::compare::flag::a, 0x36, 1 >( reg ); }
    ONE { event< tc1::interrupt::compare::flag::b, 0x36, 2 >( reg ); }
    ONE { event< tc1::interrupt::overflow::flag, 0x36, 0 >( reg ); }
    ONE { event< tc1::interrupt::capture::flag, 0x36, 5 >( reg ); }
    ONE { event< twi::interrupt::flag, 0xbc, 7 >( reg ); }
    ONE { event< ac::interrupt::flag, 0x50, 4 >( reg ); }
    ONE { event< adc::interrupt::flag, 0x7a, 4 >( reg ); }
}
VP_HARNESS( h_actions )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" );
    ONE { action< tc0::control::compare::force::a, 0x45, 7 >( reg ); }
    ONE { action< tc0::control::compare::force::b, 0x45, 6 >( reg ); }
    ONE { action< tc1::control::compare::force::a, 0x82, 7 >( reg ); }
    ONE { action< tc1::control::compare::force::b, 0x82, 6 >( reg ); }
    ONE { action< twi::protocol::start, 0xbc, 5 >( reg ); }
    ONE { action< twi::protocol::stop, 0xbc, 4 >( reg ); }
    ONE { action< twi::protocol::ack, 0xbc, 6 >( reg ); }
    ONE { action< twi::interrupt::flag, 0xbc, 7 >( reg ); }
}
VP_HARNESS( h_values )
{
    vp_cases vp_one;
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" );
    ONE { value< tc0::value::timer, uint8_t, 0x46 >( reg, v ); }
    ONE { value< tc0::value::compare::a, uint8_t, 0x47 >( reg, v ); }
    ONE { value< tc0::value::compare::b, uint8_t, 0x48 >( reg, v ); }
    ONE { value< twi::control::rate, uint8_t, 0xb8 >( reg, v ); }
    ONE { value< twi::protocol::data, uint8_t, 0xbb >( reg, v ); }
}
VP_HARNESS( h_values_16 )
{
    vp_cases vp_one;
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    ONE { value< tc1::value::timer, uint16_t, 0x84 >( reg, v ); }
    ONE { value< tc1::value::compare::a, uint16_t, 0x88 >( reg, v ); }
    ONE { value< tc1::value::compare::b, uint16_t, 0x8a >( reg, v ); }
}
VP_HARNESS( h_eeprom )
{
    const uint8_t v = vp_u8( "value" );
    const uint16_t a = vp_u16( "address" ), old = vp_u16( "register" );
    using namespace mem::eeprom;
    vp_io_set( 0x40, uint8_t( old ) ); vp_io_put<uint16_t>( 0x41, old );
    vp_io_mark();
    vp_check( ( uint8_t( current( data{} ) ) == uint8_t( old ) ) & ( uint16_t( current( address{} ) ) == old ), "the current value is what the register holds" );
    vp_check( ( vp_io_len() == 3 ) & ( vp_io_reads( 0x40 ) == 1 ) & ( vp_io_reads( 0x41 ) == 1 ) & ( vp_io_reads( 0x42 ) == 1 ), "asking a value reads its register only" );
    vp_io_mark();
    set( address( a ) );
    set( data( v ) );
    vp_check( ( vp_io_get( 0x40 ) == v ) & ( vp_io_get16( 0x41 ) == a ) & ( vp_io_len() == 3 ), "address and data are stored" );
    vp_check( ( current( data{} ) == data( v ) ) & ( current( address{} ) == address( a ) ), "address and data read back" );
}
VP_HARNESS( h_reports )
{
    const uint8_t reg = vp_u8( "register" );
    vp_io_set( 0xbc, reg ); vp_io_set( 0xb9, reg ); vp_io_set( 0x50, reg );
    vp_check( ( current( twi::protocol::start{} ) == ( reg >> 5 & 1 ) ) & ( current( twi::protocol::stop{} ) == ( reg >> 4 & 1 ) )
        & ( current( twi::protocol::ack{} ) == ( reg >> 6 & 1 ) ) & ( current( twi::protocol::wcoll{} ) == ( reg >> 3 & 1 ) ), "bus state is reported" );
    vp_check( current( twi::protocol::status{} ) == twi::protocol::status( reg >> 3 ), "bus status is reported" );
    vp_check( current( ac::output::state{} ) == ( reg >> 5 & 1 ), "comparator output is reported" );
}

// Waveform modes, spread over two registers
VP_HARNESS( h_waveform_tc0 )
{
    const uint8_t a = vp_u8( "a" ), b = vp_u8( "b" ), v = vp_u8( "value" );
    using W = tc0::output::waveform;
    vp_assume( v < 8 );
    vp_io_set( 0x44, a ); vp_io_set( 0x45, b );
    vp_check( current( W{} ) == W( ( a & 3 ) | ( b >> 1 & 4 ) ), "the current waveform is what the registers hold" );
    vp_io_mark();
    set( W( v ) );
    vp_check( current( W{} ) == W( v ), "a waveform reads back as set" );
    vp_check( ( vp_io_get( 0x44 ) == uint8_t( ( a & 0xfc ) | ( v & 3 ) ) ) & ( vp_io_get( 0x45 ) == uint8_t( ( b & 0xf7 ) | ( v >> 2 ) << 3 ) ), "setting a waveform leaves the other settings" );
    vp_check( vp_io_elsewhere( 0x44, 0x45 ) == 0, "setting a waveform accesses its two registers only" );
    vp_check( ( uint8_t( W::normal ) == 0 ) & ( uint8_t( W::pwm_phase_correct ) == 1 ) & ( uint8_t( W::ctc ) == 2 ) & ( uint8_t( W::ctc_ocr0a ) == 2 )
        & ( uint8_t( W::fast_pwm ) == 3 ) & ( uint8_t( W::pwm_phase_correct_ocr0a ) == 5 ) & ( uint8_t( W::fast_pwm_ocr0a ) == 7 ), "waveform codes" );
}
VP_HARNESS( h_waveform_tc1 )
{
    const uint8_t a = vp_u8( "a" ), b = vp_u8( "b" ), v = vp_u8( "value" );
    using W = tc1::output::waveform;
    vp_assume( v < 16 );
    vp_io_set( 0x80, a ); vp_io_set( 0x81, b );
    vp_check( current( W{} ) == W( ( a & 3 ) | ( b >> 1 & 12 ) ), "the current waveform is what the registers hold" );
    vp_io_mark();
    set( W( v ) );
    vp_check( current( W{} ) == W( v ), "a waveform reads back as set" );
    vp_check( ( vp_io_get( 0x80 ) == uint8_t( ( a & 0xfc ) | ( v & 3 ) ) ) & ( vp_io_get( 0x81 ) == uint8_t( ( b & 0xe7 ) | ( v >> 2 ) << 3 ) ), "setting a waveform leaves the other settings" );
    vp_check( vp_io_elsewhere( 0x80, 0x81 ) == 0, "setting a waveform accesses its two registers only" );
    vp_check( ( uint8_t( W::normal ) == 0 ) & ( uint8_t( W::pwm_phase_correct_8bit ) == 1 ) & ( uint8_t( W::pwm_phase_correct_9bit ) == 2 ) & ( uint8_t( W::pwm_phase_correct_10bit ) == 3 )
        & ( uint8_t( W::ctc_ocr1a ) == 4 ) & ( uint8_t( W::fast_pwm_phase_correct_8bit ) == 5 ) & ( uint8_t( W::fast_pwm_phase_correct_9bit ) == 6 ) & ( uint8_t( W::fast_pwm_phase_correct_10bit ) == 7 )
        & ( uint8_t( W::pwm_phase_frequency_correct_icr1 ) == 8 ) & ( uint8_t( W::pwm_phase_frequency_correct_ocr1a ) == 9 ) & ( uint8_t( W::pwm_phase_correct_icr1 ) == 10 )
        & ( uint8_t( W::pwm_phase_correct_ocr1a ) == 11 ) & ( uint8_t( W::ctc_icr1 ) == 12 ) & ( uint8_t( W::fast_pwm_icr1 ) == 14 ) & ( uint8_t( W::fast_pwm_ocr1a ) == 15 ), "waveform codes" );
}

// Several settings of one register at once
VP_HARNESS( h_combined )
{
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "v" ), w = vp_u8( "w" ), x = vp_u8( "x" );
    vp_io_set( 0x7c, reg );
    vp_io_mark();
    set( adc::input::reference( v & 3 ) ), set( adc::input::channel( w & 15 ) ), set( adc::conversion::adjustment( x & 1 ) );
    vp_check( vp_io_get( 0x7c ) == uint8_t( ( reg & 0x10 ) | ( v & 3 ) << 6 | ( x & 1 ) << 5 | ( w & 15 ) ), "combined settings are all stored" );
    vp_check( ( vp_io_writes( 0x7c ) == 1 ) & ( vp_io_elsewhere( 0x7c ) == 0 ), "combined settings are one write" );
    vp_io_set( 0x7a, reg );
    vp_io_mark();
    set( adc::enable::adc( v & 1 ) ), set( adc::enable::interrupt( w & 1 ) ), set( adc::prescale::factor( x & 7 ) );
    vp_check( vp_io_get( 0x7a ) == uint8_t( ( reg & 0x70 ) | ( v & 1 ) << 7 | ( w & 1 ) << 3 | ( x & 7 ) ), "combined settings are all stored" );
    vp_check( vp_io_writes( 0x7a ) == 1, "combined settings are one write" );
    vp_io_set( 0x80, reg ); vp_io_set( 0x81, reg );
    vp_io_mark();
    set( tc1::output::waveform( v & 15 ) ), set( tc1::input::clock( w & 7 ) );
    vp_check( ( vp_io_get( 0x80 ) == uint8_t( ( reg & 0xfc ) | ( v & 3 ) ) ) & ( vp_io_get( 0x81 ) == uint8_t( ( reg & 0xe0 ) | ( v & 12 ) << 1 | ( w & 7 ) ) ), "waveform and clock are stored together" );
    vp_check( ( vp_io_writes( 0x81 ) == 1 ) & ( vp_io_writes( 0x80 ) == 1 ), "combined settings are one write" );
    vp_io_set( 0xbc, reg );
    vp_io_mark();
    set( twi::interrupt::flag{} ), set( twi::protocol::start{} );
    vp_check( ( vp_io_get( 0xbc ) == ( reg | 0xa0 ) ) & ( vp_io_writes( 0xbc ) == 1 ), "flag and start condition are written together" );
}

// External and pin change interrupts
VP_HARNESS( h_external )
{
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "v" );
    vp_io_set( 0x69, reg );
    vp_check( ( ei::interrupt_sense<eint::int0>() == ei::sense( reg & 3 ) ) & ( ei::interrupt_sense<eint::int1>() == ei::sense( reg >> 2 & 3 ) ), "the current sense is what the register holds" );
    ei::interrupt_sense<eint::int0>( ei::sense( v & 3 ) );
    vp_check( vp_io_get( 0x69 ) == uint8_t( ( reg & 0xfc ) | ( v & 3 ) ), "sense of interrupt 0 is stored" );
    ei::interrupt_sense<eint::int1>( ei::sense( v >> 2 & 3 ) );
    vp_check( vp_io_get( 0x69 ) == uint8_t( ( reg & 0xf0 ) | ( v & 15 ) ), "sense of interrupt 1 is stored" );
    vp_check( ( uint8_t( ei::sense::low ) == 0 ) & ( uint8_t( ei::sense::change ) == 1 ) & ( uint8_t( ei::sense::falling_edge ) == 2 ) & ( uint8_t( ei::sense::rising_edge ) == 3 ), "sense codes" );
    const bool on = ( v & 1 ) != 0;
#define ENABLE( get, put, A, B ) \
    vp_io_set( A, reg ); \
    vp_check( ( get() != 0 ) == ( ( reg >> B & 1 ) != 0 ), "an interrupt enable is what the register holds" ); \
    put( on ); \
    vp_check( vp_io_get( A ) == uint8_t( ( reg & ~( 1u << B ) ) | unsigned( on ) << B ), "an interrupt enable is stored and the others are left" ); \
    vp_check( ( get() != 0 ) == on, "an interrupt enable reads back" )
    ENABLE( ei::enabled_external_int0, ei::enable_external_int0, 0x3d, 0 );
    ENABLE( ei::enabled_external_int1, ei::enable_external_int1, 0x3d, 1 );
    ENABLE( ei::enabled_pin_change_int0, ei::enable_pin_change_int0, 0x68, 0 );
    ENABLE( ei::enabled_pin_change_int1, ei::enable_pin_change_int1, 0x68, 1 );
    ENABLE( ei::enabled_pin_change_int2, ei::enable_pin_change_int2, 0x68, 2 );
#define FLAG( get, ack, A, B ) \
    vp_io_set( A, reg ); \
    vp_check( ( get() != 0 ) == ( ( reg >> B & 1 ) != 0 ), "an interrupt flag is what the register holds" ); \
    ack(); \
    vp_check( vp_io_get( A ) == uint8_t( reg | 1u << B ), "clearing an interrupt flag writes a one to it" )
    FLAG( ei::external_int0_flag, ei::clear_external_int0_flag, 0x3c, 0 );
    FLAG( ei::external_int1_flag, ei::clear_external_int1_flag, 0x3c, 1 );
    FLAG( ei::pin_change_int0_flag, ei::clear_pin_change_int0_flag, 0x3b, 0 );
    FLAG( ei::pin_change_int1_flag, ei::clear_pin_change_int1_flag, 0x3b, 1 );
    FLAG( ei::pin_change_int2_flag, ei::clear_pin_change_int2_flag, 0x3b, 2 );
#define MASK( f, A ) \
    vp_io_set( A, reg ); \
    vp_check( f() == reg, "a pin change mask is what the register holds" ); \
    vp_io_mark(); \
    f( v ); \
    vp_check( ( vp_io_get( A ) == v ) & ( vp_io_len() == 1 ) & ( f() == v ), "a pin change mask is stored" )
    MASK( ei::pin_change_interrupt_mask0, 0x6b );
    MASK( ei::pin_change_interrupt_mask1, 0x6c );
    MASK( ei::pin_change_interrupt_mask2, 0x6d );
}

// Converter: start, result, limits; noise canceler
VP_HARNESS( h_conversion )
{
    const uint8_t reg = vp_u8( "register" ), v = vp_u8( "v" );
    const uint16_t r = vp_u16( "result" );
    vp_io_set( 0x7a, reg );
    vp_io_mark();
    adc::conversion::start();
    vp_check( ( vp_io_get( 0x7a ) == ( reg | 0x40 ) ) & ( vp_io_writes( 0x7a ) == 1 ) & ( vp_io_elsewhere( 0x7a ) == 0 ), "starting a conversion sets its bit only" );
    vp_io_put<uint16_t>( 0x78, r );
    vp_io_mark();
    const uint16_t result = adc::conversion::result();
    vp_check( ( result == r ) & ( vp_io_addr( 0 ) == 0x78 ) & ( vp_io_addr( 1 ) == 0x79 ) & ( vp_io_len() == 2 ), "a result is read low byte first" );
    vp_check( ( adc::conversion::lsb() == uint8_t( r ) ) & ( adc::conversion::msb() == uint8_t( r >> 8 ) ), "bytes of a result" );
    vp_check( ( adc::conversion::result_min == 0 ) & ( adc::conversion::result_max == 1023 ), "range of a result" );
    vp_io_set( 0x81, reg );
    vp_check( tc1::enable::capture::input_capture_noise_canceler() == ( reg >> 7 ), "the noise canceler setting is what the register holds" );
    tc1::enable::capture::input_capture_noise_canceler( ( v & 1 ) != 0 );
    vp_check( vp_io_get( 0x81 ) == uint8_t( ( reg & 0x7f ) | ( v & 1 ) << 7 ), "the noise canceler setting is stored" );
}
