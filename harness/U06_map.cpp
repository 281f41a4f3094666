// The register map: every named register and field against the ATmega328 data sheet.
// @mode int
// @target avr
// @bound every register and field the library names (plus three bits of each bit-addressed register); every register content and value; the general purpose registers and the stack pointer are read only, of the status register single bits
#include "avr.h"
#include "mcu/atmega328.hpp"
using namespace mcu;
using namespace mcu::atmega328;

// address, highest and lowest bit as the data sheet gives them
template< typename F, typename T, uint8_t A, int HI, int LO > void reading( T reg )
{
    const T mask = T( ( uint32_t( 1 ) << ( HI - LO + 1 ) ) - 1 );
    vp_io_put<T>( A, reg );
    vp_io_mark();
    const T r = T( F::read() );
    vp_check( r == T( ( reg >> LO ) & mask ), "a named field reads the bits the data sheet gives" );
    vp_check( vp_io_once<T>( A, 1, 0 ), "reading a named field accesses the address the data sheet gives" );
}
template< typename F, typename T, uint8_t A, int HI, int LO > void writing( T reg, T v )
{
    const T mask = T( ( ( uint32_t( 1 ) << ( HI - LO + 1 ) ) - 1 ) << LO );
    vp_io_put<T>( A, reg );
    vp_io_mark();
    F::write( typename F::value_type( HI == LO ? v & 1 : v ) );
    const T now = vp_io_content<T>( A );
    vp_check( now == T( ( reg & T( ~mask ) ) | ( T( uint32_t( v ) << LO ) & mask ) ), "a named field writes the bits the data sheet gives" );
    vp_check( ( vp_io_writes( A ) == 1 ) & ( vp_io_elsewhere( A, A + sizeof(T) - 1 ) == 0 ), "writing a named field accesses the address the data sheet gives" );
}
template< typename F, typename T, uint8_t A, int B > void acknowledging( T reg )
{
    vp_io_put<T>( A, reg );
    vp_io_mark();
    F::clear();
    vp_check( vp_io_content<T>( A ) == T( reg | T( 1 ) << B ), "clearing a named flag writes a one to the bit the data sheet gives" );
    vp_check( ( vp_io_writes( A ) == 1 ) & ( vp_io_elsewhere( A ) == 0 ), "clearing a named flag accesses the address the data sheet gives" );
}
#define RW( T, A, HI, LO, ... ) ONE { reading< __VA_ARGS__, T, A, HI, LO >( T( reg ) ); } ONE { writing< __VA_ARGS__, T, A, HI, LO >( T( reg ), T( v ) ); }
#define RO( T, A, HI, LO, ... ) ONE { reading< __VA_ARGS__, T, A, HI, LO >( T( reg ) ); }
#define W1( T, A, B, ... )      ONE { reading< __VA_ARGS__, T, A, B, B >( T( reg ) ); } ONE { acknowledging< __VA_ARGS__, T, A, B >( T( reg ) ); }

VP_HARNESS( h_map_mem )
{
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    vp_cases vp_one;
    RW( uint16_t, 0x41, 15, 0, mem::reg::eear );
    RW( uint8_t, 0x40, 7, 0, mem::reg::eedr );
    RW( uint8_t, 0x3f, 7, 0, mem::reg::eecr::whole );
    RW( uint8_t, 0x3f, 5, 4, mem::reg::eecr::eepm );
    RW( uint8_t, 0x3f, 3, 3, mem::reg::eecr::eerie );
    RW( uint8_t, 0x3f, 2, 2, mem::reg::eecr::eempe );
    RW( uint8_t, 0x3f, 1, 1, mem::reg::eecr::eepe );
    RW( uint8_t, 0x3f, 0, 0, mem::reg::eecr::eere );
    RW( uint8_t, 0x3e, 7, 0, mem::gpio<mem::r0>::whole );
    RW( uint8_t, 0x4a, 7, 0, mem::gpio<mem::r1>::whole );
    RW( uint8_t, 0x4b, 7, 0, mem::gpio<mem::r2>::whole );
    RW( uint8_t, 0x3e, 0, 0, mem::gpio<mem::r0>::bit<0> );
    RW( uint8_t, 0x3e, 3, 3, mem::gpio<mem::r0>::bit<3> );
    RW( uint8_t, 0x3e, 7, 7, mem::gpio<mem::r0>::bit<7> );
    RW( uint8_t, 0x4a, 0, 0, mem::gpio<mem::r1>::bit<0> );
    RW( uint8_t, 0x4a, 3, 3, mem::gpio<mem::r1>::bit<3> );
    RW( uint8_t, 0x4a, 7, 7, mem::gpio<mem::r1>::bit<7> );
    RW( uint8_t, 0x4b, 0, 0, mem::gpio<mem::r2>::bit<0> );
    RW( uint8_t, 0x4b, 3, 3, mem::gpio<mem::r2>::bit<3> );
    RW( uint8_t, 0x4b, 7, 7, mem::gpio<mem::r2>::bit<7> );
}
VP_HARNESS( h_map_ei )
{
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    vp_cases vp_one;
    RW( uint8_t, 0x69, 7, 0, ei::eicra::whole );
    RW( uint8_t, 0x69, 3, 2, ei::eicra::ics1 );
    RW( uint8_t, 0x69, 1, 0, ei::eicra::ics0 );
    RW( uint8_t, 0x3d, 0, 0, ei::eimsk<eint::int0> );
    W1( uint8_t, 0x3c, 0, ei::eifr<eint::int0> );
    RW( uint8_t, 0x3d, 1, 1, ei::eimsk<eint::int1> );
    W1( uint8_t, 0x3c, 1, ei::eifr<eint::int1> );
    RW( uint8_t, 0x68, 0, 0, ei::pcicr<pcint::int0> );
    W1( uint8_t, 0x3b, 0, ei::pcifr<pcint::int0> );
    RW( uint8_t, 0x68, 1, 1, ei::pcicr<pcint::int1> );
    W1( uint8_t, 0x3b, 1, ei::pcifr<pcint::int1> );
    RW( uint8_t, 0x68, 2, 2, ei::pcicr<pcint::int2> );
    W1( uint8_t, 0x3b, 2, ei::pcifr<pcint::int2> );
    RW( uint8_t, 0x6b, 7, 0, ei::pcmsk<ei::pcmsk0>::whole );
    RW( uint8_t, 0x6b, 0, 0, ei::pcmsk<ei::pcmsk0>::bit<0> );
    RW( uint8_t, 0x6b, 4, 4, ei::pcmsk<ei::pcmsk0>::bit<4> );
    RW( uint8_t, 0x6b, 7, 7, ei::pcmsk<ei::pcmsk0>::bit<7> );
    RW( uint8_t, 0x6c, 7, 0, ei::pcmsk<ei::pcmsk1>::whole );
    RW( uint8_t, 0x6c, 0, 0, ei::pcmsk<ei::pcmsk1>::bit<0> );
    RW( uint8_t, 0x6c, 4, 4, ei::pcmsk<ei::pcmsk1>::bit<4> );
    RW( uint8_t, 0x6c, 7, 7, ei::pcmsk<ei::pcmsk1>::bit<7> );
    RW( uint8_t, 0x6d, 7, 0, ei::pcmsk<ei::pcmsk2>::whole );
    RW( uint8_t, 0x6d, 0, 0, ei::pcmsk<ei::pcmsk2>::bit<0> );
    RW( uint8_t, 0x6d, 4, 4, ei::pcmsk<ei::pcmsk2>::bit<4> );
    RW( uint8_t, 0x6d, 7, 7, ei::pcmsk<ei::pcmsk2>::bit<7> );
}
VP_HARNESS( h_map_gpio )
{
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    vp_cases vp_one;
    RW( uint8_t, 0x23, 7, 0, gpio<port::B>::pin );
    RW( uint8_t, 0x24, 7, 0, gpio<port::B>::ddr );
    RW( uint8_t, 0x25, 7, 0, gpio<port::B>::port );
    RW( uint8_t, 0x26, 7, 0, gpio<port::C>::pin );
    RW( uint8_t, 0x27, 7, 0, gpio<port::C>::ddr );
    RW( uint8_t, 0x28, 7, 0, gpio<port::C>::port );
    RW( uint8_t, 0x29, 7, 0, gpio<port::D>::pin );
    RW( uint8_t, 0x2a, 7, 0, gpio<port::D>::ddr );
    RW( uint8_t, 0x2b, 7, 0, gpio<port::D>::port );
}
VP_HARNESS( h_map_tc0 )
{
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    vp_cases vp_one;
    RW( uint8_t, 0x44, 7, 0, tc0::reg::tccr0a::whole );
    RW( uint8_t, 0x44, 7, 6, tc0::reg::tccr0a::com0a );
    RW( uint8_t, 0x44, 5, 4, tc0::reg::tccr0a::com0b );
    RW( uint8_t, 0x44, 1, 0, tc0::reg::tccr0a::wgm0 );
    RW( uint8_t, 0x45, 7, 0, tc0::reg::tccr0b::whole );
    RW( uint8_t, 0x45, 7, 7, tc0::reg::tccr0b::foc0a );
    RW( uint8_t, 0x45, 6, 6, tc0::reg::tccr0b::foc0b );
    RW( uint8_t, 0x45, 3, 3, tc0::reg::tccr0b::wgm02 );
    RW( uint8_t, 0x45, 2, 0, tc0::reg::tccr0b::cs0 );
    RW( uint8_t, 0x6e, 7, 0, tc0::reg::timsk0::whole );
    RW( uint8_t, 0x6e, 2, 2, tc0::reg::timsk0::ocie0b );
    RW( uint8_t, 0x6e, 1, 1, tc0::reg::timsk0::ocie0a );
    RW( uint8_t, 0x6e, 0, 0, tc0::reg::timsk0::toie0 );
    RW( uint8_t, 0x46, 7, 0, tc0::reg::tcnt0::whole );
    RW( uint8_t, 0x47, 7, 0, tc0::reg::ocr0a::whole );
    RW( uint8_t, 0x48, 7, 0, tc0::reg::ocr0b::whole );
    RW( uint8_t, 0x35, 7, 0, tc0::reg::tifr0::whole );
    W1( uint8_t, 0x35, 2, tc0::reg::tifr0::ocf0b );
    W1( uint8_t, 0x35, 1, tc0::reg::tifr0::ocf0a );
    W1( uint8_t, 0x35, 0, tc0::reg::tifr0::tov0 );
}
VP_HARNESS( h_map_tc1 )
{
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    vp_cases vp_one;
    RW( uint8_t, 0x80, 7, 0, tc1::reg::tccr1a::whole );
    RW( uint8_t, 0x80, 7, 6, tc1::reg::tccr1a::com1a );
    RW( uint8_t, 0x80, 5, 4, tc1::reg::tccr1a::com1b );
    RW( uint8_t, 0x80, 1, 0, tc1::reg::tccr1a::wgm1 );
    RW( uint8_t, 0x81, 7, 0, tc1::reg::tccr1b::whole );
    RW( uint8_t, 0x81, 7, 7, tc1::reg::tccr1b::icnc1 );
    RW( uint8_t, 0x81, 6, 6, tc1::reg::tccr1b::ices1 );
    RW( uint8_t, 0x81, 4, 3, tc1::reg::tccr1b::wgm1 );
    RW( uint8_t, 0x81, 2, 0, tc1::reg::tccr1b::cs1 );
    RW( uint8_t, 0x82, 7, 0, tc1::reg::tccr1c::whole );
    RW( uint8_t, 0x82, 7, 7, tc1::reg::tccr1c::foc1a );
    RW( uint8_t, 0x82, 6, 6, tc1::reg::tccr1c::foc1b );
    RW( uint16_t, 0x84, 15, 0, tc1::reg::tcnt1::whole );
    RW( uint8_t, 0x84, 7, 0, tc1::reg::tcnt1::lo );
    RW( uint8_t, 0x85, 7, 0, tc1::reg::tcnt1::hi );
    RW( uint16_t, 0x86, 15, 0, tc1::reg::icr1::whole );
    RW( uint8_t, 0x86, 7, 0, tc1::reg::icr1::lo );
    RW( uint8_t, 0x87, 7, 0, tc1::reg::icr1::hi );
    RW( uint16_t, 0x88, 15, 0, tc1::reg::ocr1a::whole );
    RW( uint8_t, 0x88, 7, 0, tc1::reg::ocr1a::lo );
    RW( uint8_t, 0x89, 7, 0, tc1::reg::ocr1a::hi );
    RW( uint16_t, 0x8a, 15, 0, tc1::reg::ocr1b::whole );
    RW( uint8_t, 0x8a, 7, 0, tc1::reg::ocr1b::lo );
    RW( uint8_t, 0x8b, 7, 0, tc1::reg::ocr1b::hi );
    RW( uint8_t, 0x6f, 7, 0, tc1::reg::timsk1::whole );
    RW( uint8_t, 0x6f, 5, 5, tc1::reg::timsk1::icie1 );
    RW( uint8_t, 0x6f, 2, 2, tc1::reg::timsk1::ocie1b );
    RW( uint8_t, 0x6f, 1, 1, tc1::reg::timsk1::ocie1a );
    RW( uint8_t, 0x6f, 0, 0, tc1::reg::timsk1::toie1 );
    RW( uint8_t, 0x36, 7, 0, tc1::reg::tifr1::whole );
    W1( uint8_t, 0x36, 5, tc1::reg::tifr1::icf1 );
    W1( uint8_t, 0x36, 2, tc1::reg::tifr1::ocf1b );
    W1( uint8_t, 0x36, 1, tc1::reg::tifr1::ocf1a );
    W1( uint8_t, 0x36, 0, tc1::reg::tifr1::tov1 );
}
VP_HARNESS( h_map_tcp )
{
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    vp_cases vp_one;
    RW( uint8_t, 0x43, 7, 0, tcp::reg::gtccr::whole );
    RW( uint8_t, 0x43, 7, 7, tcp::reg::gtccr::tsm );
    RW( uint8_t, 0x43, 1, 1, tcp::reg::gtccr::psrasy );
    RW( uint8_t, 0x43, 0, 0, tcp::reg::gtccr::psrsync );
}
VP_HARNESS( h_map_twi )
{
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    vp_cases vp_one;
    RW( uint8_t, 0xb8, 7, 0, twi::reg::twbr );
    RW( uint8_t, 0xbb, 7, 0, twi::reg::twdr );
    RW( uint8_t, 0xb9, 7, 0, twi::reg::twsr::whole );
    RO( uint8_t, 0xb9, 7, 3, twi::reg::twsr::tws );
    RW( uint8_t, 0xb9, 1, 0, twi::reg::twsr::twps );
    RW( uint8_t, 0xba, 7, 0, twi::reg::twar::whole );
    RW( uint8_t, 0xba, 7, 1, twi::reg::twar::twa );
    RW( uint8_t, 0xba, 0, 0, twi::reg::twar::twgce );
    RW( uint8_t, 0xbc, 7, 0, twi::reg::twcr::whole );
    W1( uint8_t, 0xbc, 7, twi::reg::twcr::twintc );
    RW( uint8_t, 0xbc, 7, 7, twi::reg::twcr::twint );
    RW( uint8_t, 0xbc, 6, 6, twi::reg::twcr::twea );
    RW( uint8_t, 0xbc, 5, 5, twi::reg::twcr::twsta );
    RW( uint8_t, 0xbc, 4, 4, twi::reg::twcr::twsto );
    RW( uint8_t, 0xbc, 3, 3, twi::reg::twcr::twwc );
    RW( uint8_t, 0xbc, 2, 2, twi::reg::twcr::twen );
    RW( uint8_t, 0xbc, 0, 0, twi::reg::twcr::twie );
    RW( uint8_t, 0xbd, 7, 0, twi::reg::twamr::whole );
    RW( uint8_t, 0xbd, 7, 1, twi::reg::twamr::twam );
}
VP_HARNESS( h_map_ac )
{
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    vp_cases vp_one;
    RW( uint8_t, 0x50, 7, 0, ac::reg::acsr::whole );
    RW( uint8_t, 0x50, 7, 7, ac::reg::acsr::acd );
    RW( uint8_t, 0x50, 6, 6, ac::reg::acsr::acbg );
    RO( uint8_t, 0x50, 5, 5, ac::reg::acsr::aco );
    W1( uint8_t, 0x50, 4, ac::reg::acsr::aci );
    RW( uint8_t, 0x50, 3, 3, ac::reg::acsr::acie );
    RW( uint8_t, 0x50, 2, 2, ac::reg::acsr::acic );
    RW( uint8_t, 0x50, 1, 0, ac::reg::acsr::acis );
    RW( uint8_t, 0x7f, 1, 0, ac::reg::didr1 );
}
VP_HARNESS( h_map_adc )
{
    const uint16_t reg = vp_u16( "register" ), v = vp_u16( "value" );
    vp_cases vp_one;
    RO( uint16_t, 0x78, 15, 0, adc::reg::adc::whole );
    RO( uint16_t, 0x78, 15, 0, adc::reg::adc::adchl );
    RO( uint8_t, 0x78, 7, 0, adc::reg::adc::adcl );
    RO( uint8_t, 0x79, 7, 0, adc::reg::adc::adch );
    RW( uint8_t, 0x7c, 7, 0, adc::reg::admux::whole );
    RW( uint8_t, 0x7c, 7, 6, adc::reg::admux::refs );
    RW( uint8_t, 0x7c, 5, 5, adc::reg::admux::adlar );
    RW( uint8_t, 0x7c, 3, 0, adc::reg::admux::mux );
    RW( uint8_t, 0x7a, 7, 0, adc::reg::adcsra::whole );
    RW( uint8_t, 0x7a, 7, 7, adc::reg::adcsra::aden );
    RW( uint8_t, 0x7a, 6, 6, adc::reg::adcsra::adsc );
    RW( uint8_t, 0x7a, 5, 5, adc::reg::adcsra::adate );
    W1( uint8_t, 0x7a, 4, adc::reg::adcsra::adif );
    RW( uint8_t, 0x7a, 3, 3, adc::reg::adcsra::adie );
    RW( uint8_t, 0x7a, 2, 0, adc::reg::adcsra::adps );
    RW( uint8_t, 0x7b, 7, 0, adc::reg::adcsrb::whole );
    RW( uint8_t, 0x7b, 6, 6, adc::reg::adcsrb::acme );
    RW( uint8_t, 0x7b, 2, 0, adc::reg::adcsrb::adts );
    RW( uint8_t, 0x7e, 5, 0, adc::reg::didr0 );
    RW( uint8_t, 0x7f, 1, 0, adc::reg::didr1 );
}

// Bits of pins, by position
template< int B > void pins( vp_cases & vp_one, uint8_t reg, uint8_t v )
{
    RW( uint8_t, 0x23, B, B, typename gpio<port::B>::template p<B>::inp ); RW( uint8_t, 0x24, B, B, typename gpio<port::B>::template p<B>::dir ); RW( uint8_t, 0x25, B, B, typename gpio<port::B>::template p<B>::out );
    RW( uint8_t, 0x26, B, B, typename gpio<port::C>::template p<B>::inp ); RW( uint8_t, 0x27, B, B, typename gpio<port::C>::template p<B>::dir ); RW( uint8_t, 0x28, B, B, typename gpio<port::C>::template p<B>::out );
    RW( uint8_t, 0x29, B, B, typename gpio<port::D>::template p<B>::inp ); RW( uint8_t, 0x2a, B, B, typename gpio<port::D>::template p<B>::dir ); RW( uint8_t, 0x2b, B, B, typename gpio<port::D>::template p<B>::out );
    if constexpr( B > 0 ) pins< B - 1 >( vp_one, reg, v );
}
VP_HARNESS( h_map_pins ) { const uint8_t reg = vp_u8( "register" ), v = vp_u8( "value" ); vp_cases vp_one; pins<7>( vp_one, reg, v ); }

// Status register: flags that computing changes are decided one at a time
template< typename F, int B > void flag( uint8_t s )
{
    vp_io_set( 0x5f, s );
    const uint8_t r = F::read();
    vp_check( r == ( ( s >> B ) & 1 ), "a status flag reads its bit" );
    F::set();
    vp_check( ( vp_io_get( 0x5f ) >> B & 1 ) == 1, "a status flag is set" );
    F::clear();
    vp_check( ( vp_io_get( 0x5f ) >> B & 1 ) == 0, "a status flag is cleared" );
}
VP_HARNESS( h_map_status )
{
    vp_cases vp_one;
    const uint8_t s = vp_u8( "status" );
    ONE { flag< core::sreg::I, 7 >( s ); }
    ONE { flag< core::sreg::T, 6 >( s ); }
    ONE { flag< core::sreg::H, 5 >( s ); }
    ONE { flag< core::sreg::S, 4 >( s ); }
    ONE { flag< core::sreg::V, 3 >( s ); }
    ONE { flag< core::sreg::N, 2 >( s ); }
    ONE { flag< core::sreg::Z, 1 >( s ); }
    ONE { flag< core::sreg::C, 0 >( s ); }
    vp_io_set( 0x5f, s );
    vp_check( ( core::sreg::whole::read() & 0xc0 ) == ( s & 0xc0 ), "the status register is where the data sheet has it" );
}
VP_HARNESS( h_map_stack )
{
    const uint16_t w = core::sp::whole::read();
    const uint8_t l = core::sp::lo::read(), h = core::sp::hi::read();
    vp_check( ( uint8_t( w ) == l ) & ( uint8_t( w >> 8 ) == h ), "the stack pointer's bytes are low and high" );
}
template< typename F, int N > void gpr()
{
    vp_io_mark();
    const uint8_t r = F::read();
    vp_check( ( vp_io_len() == 1 ) & ( vp_io_addr( 0 ) == N ) & ( vp_io_iswrite( 0 ) == 0 ), "a general purpose register is where the data sheet has it" );
    vp_check( vp_io_value( 0 ) == r, "a general purpose register reads its content" );
}
VP_HARNESS( h_map_general )
{
    vp_cases vp_one;
    using namespace core::gpwr;
    ONE { gpr< r0, 0 >(); }
    ONE { gpr< r1, 1 >(); }
    ONE { gpr< r2, 2 >(); }
    ONE { gpr< r3, 3 >(); }
    ONE { gpr< r4, 4 >(); }
    ONE { gpr< r5, 5 >(); }
    ONE { gpr< r6, 6 >(); }
    ONE { gpr< r7, 7 >(); }
    ONE { gpr< r8, 8 >(); }
    ONE { gpr< r9, 9 >(); }
    ONE { gpr< r10, 10 >(); }
    ONE { gpr< r11, 11 >(); }
    ONE { gpr< r12, 12 >(); }
    ONE { gpr< r13, 13 >(); }
    ONE { gpr< r14, 14 >(); }
    ONE { gpr< r15, 15 >(); }
    ONE { gpr< r16, 16 >(); }
    ONE { gpr< r17, 17 >(); }
    ONE { gpr< r18, 18 >(); }
    ONE { gpr< r19, 19 >(); }
    ONE { gpr< r20, 20 >(); }
    ONE { gpr< r21, 21 >(); }
    ONE { gpr< r22, 22 >(); }
    ONE { gpr< r23, 23 >(); }
    ONE { gpr< r24, 24 >(); }
    ONE { gpr< r25, 25 >(); }
    ONE { gpr< r26, 26 >(); }
    ONE { gpr< r27, 27 >(); }
    ONE { gpr< r28, 28 >(); }
    ONE { gpr< r29, 29 >(); }
    ONE { gpr< r30, 30 >(); }
    ONE { gpr< r31, 31 >(); }
    uint16_t p;
    vp_io_mark(); p = x::read(); vp_check( ( vp_io_addr( 0 ) == 26 ) & ( vp_io_addr( 1 ) == 27 ) & ( vp_io_value( 1 ) == p >> 8 ), "X is r27:r26" );
    vp_io_mark(); p = y::read(); vp_check( ( vp_io_addr( 0 ) == 28 ) & ( vp_io_addr( 1 ) == 29 ) & ( vp_io_value( 1 ) == p >> 8 ), "Y is r29:r28" );
    vp_io_mark(); p = z::read(); vp_check( ( vp_io_addr( 0 ) == 30 ) & ( vp_io_addr( 1 ) == 31 ) & ( vp_io_value( 1 ) == p >> 8 ), "Z is r31:r30" );
}
// Addresses without a register type:
VP_HARNESS( h_map_addresses )
{
    vp_check( ( clock::reg::osccal_addr == 0x66 ) & ( clock::reg::clkpr_addr == 0x61 ), "clock registers" );
    vp_check( ( power::reg::smcr_addr == 0x53 ) & ( power::reg::mcusr_addr == 0x54 ) & ( power::reg::prr_addr == 0x64 ), "power registers" );
    vp_check( ( reset::reg::mcucr_addr == 0x55 ) & ( reset::reg::wdtcsr_addr == 0x60 ), "reset registers" );
    vp_check( ( tc2::reg::tccr2a_addr == 0xb0 ) & ( tc2::reg::tccr2b_addr == 0xb1 ) & ( tc2::reg::tcnt2_addr == 0xb2 ) & ( tc2::reg::ocr2a_addr == 0xb3 )
        & ( tc2::reg::ocr2b_addr == 0xb4 ) & ( tc2::reg::timsk2_addr == 0x70 ) & ( tc2::reg::tifr2_addr == 0x37 ) & ( tc2::reg::assr_addr == 0xb6 )
        & ( tc2::reg::gtccr_addr == 0x43 ), "timer 2 registers" );
}
