// Two-wire interface: initialisation and transfers.
// @mode int
// @target avr
// @bound every address, byte, bit rate, prescaler, register content and status sequence; each step completes within 3 polls
// @assume the hardware reports the end of each step within 3 reads of the control register (a bus that never answers makes the code wait for ever, as written)
#include "avr.h"
#include "mcu/atmega328.hpp"
using namespace mcu;
using namespace mcu::atmega328;

const uint8_t TWBR_ = 0xb8, TWSR_ = 0xb9, TWDR_ = 0xbb, TWCR_ = 0xbc, PORTC_ = 0x28;

// Initialisation: bit rate, prescaler, pull-ups; the interface enabled and no step started.
inline void initialised( uint8_t portc, uint8_t sr, uint8_t rate, uint8_t scale )
{
    vp_check( vp_io_get( TWBR_ ) == rate, "initialisation sets the bit rate" );
    vp_check( ( vp_io_get( TWSR_ ) & 3 ) == scale, "initialisation sets the prescaler" );
    vp_check( vp_io_get( PORTC_ ) == ( portc | 0x30 ), "initialisation enables the pull-ups of the bus pins only" );
    vp_check( vp_io_get( TWCR_ ) == 0x04, "initialisation enables the interface" );
    (void) sr;
}
VP_HARNESS( h_init )
{
    const uint8_t portc = vp_u8( "portc" ), sr = vp_u8( "status" ), cr = vp_u8( "control" ), br = vp_u8( "rate" );
    vp_io_set( PORTC_, portc ); vp_io_set( TWSR_, sr ); vp_io_set( TWCR_, cr ); vp_io_set( TWBR_, br );
    vp_io_mark();
    twi::sync::init();
    initialised( portc, sr, 0x0c, 0 );
    vp_check( vp_io_writes( 0x27 ) + vp_io_writes( 0x26 ) + vp_io_writes( TWDR_ ) == 0, "initialisation leaves directions and data" );
}
VP_HARNESS( h_init_given )
{
    const uint8_t portc = vp_u8( "portc" ), sr = vp_u8( "status" ), cr = vp_u8( "control" ), br = vp_u8( "rate" ), ps = vp_u8( "prescale" ) & 3;
    vp_io_set( PORTC_, portc ); vp_io_set( TWSR_, sr ); vp_io_set( TWCR_, cr );
    vp_io_mark();
    twi::sync::init( twi::control::rate( br ), twi::control::prescale::factor( ps ) );
    initialised( portc, sr, br, ps );
}

// What the bus sees: the log is walked as the interface would take it.
struct walk
{
    int step, polls;            // 0: nothing, 1: start condition, 2: address sent, 3: byte sent, 4: stop condition
    bool ready, legal, waited, loaded;
    uint8_t status, data, first, second;
};
inline walk follow()
{
    walk w = { 0, 0, false, true, true, false, 0, 0, 0, 0 };
    for ( int i = 0; i < vp_io_len(); ++i )
    {
        const uint8_t a = vp_io_addr( i ), v = vp_io_value( i );
        if ( vp_io_iswrite( i ) )
        {
            if ( a == TWDR_ ) { w.data = v; w.loaded = true; }
            else if ( a == TWCR_ )
            {
                w.ready = false;
                ++w.step;
                const bool go = ( v & 0x85 ) == 0x84;        // proceeds, interface enabled, no interrupt
                const bool sta = ( v & 0x20 ) != 0, sto = ( v & 0x10 ) != 0;
                if ( w.step == 1 ) w.legal = w.legal & go & sta & !sto;
                if ( w.step == 2 ) { w.legal = w.legal & go & !sta & !sto & w.loaded; w.first = w.data; }
                if ( w.step == 3 ) { w.legal = w.legal & go & !sta & !sto & w.loaded; w.second = w.data; }
                if ( w.step == 4 ) w.legal = w.legal & go & !sta & sto;
                if ( w.step > 4 )  w.legal = false;
                w.loaded = false;
            }
            else w.legal = false;
        }
        else if ( a == TWCR_ )  w.ready = w.ready | ( ( v & 0x80 ) != 0 );
        else if ( a == TWSR_ )  { w.waited = w.waited & w.ready; w.status = v; }
        else if ( a != TWDR_ )  w.legal = false;
    }
    return w;
}
// the status the hardware reported last decides: what each step expects
inline uint8_t expected( int step ) { return step == 1 ? 0x08 : step == 2 ? 0x18 : 0x28; }

VP_HARNESS( h_write )
{
    const uint8_t address = vp_u8( "address" ), byte = vp_u8( "byte" );
    vp_io_ready( TWCR_, 0x80, 2 );
    vp_io_live( TWSR_ );
    vp_io_mark();
    const bool error = twi::sync::write( address, byte );
    const walk w = follow();
    vp_check( w.legal, "a transfer issues start, address, data and stop in that order" );
    vp_check( w.waited, "a status is used only after the step completed" );
    vp_check( ( w.step < 2 ) | ( w.first == address ), "the address is sent first" );
    vp_check( ( w.step < 3 ) | ( w.second == byte ), "the data byte is sent second" );
    vp_check( error | ( w.step == 4 ), "a transfer that reports no error is complete" );
    if ( error )
    {
        vp_check( w.step < 4, "a complete transfer is no error" );
        vp_check( ( w.status & 0xf8 ) != expected( w.step ), "an error is reported only for another status than expected" );
    }
    else
    {
        vp_check( ( w.status & 0xf8 ) == 0x28, "a transfer that reports no error was acknowledged" );
    }
}
// Fault at a chosen step: exactly one error, and nothing more is sent.
VP_HARNESS( h_fault )
{
    const uint8_t address = vp_u8( "address" ), byte = vp_u8( "byte" );
    vp_io_ready( TWCR_, 0x80, 0 );
    vp_io_live( TWSR_ );
    vp_io_mark();
    const bool error = twi::sync::write( address, byte );
    int reads = 0;
    bool good = true;
    for ( int i = 0; i < vp_io_len(); ++i )
    {
        if ( vp_io_addr( i ) == TWSR_ )
        {
            vp_check( good, "nothing is asked after a step that failed" );
            ++reads;
            good = ( vp_io_value( i ) & 0xf8 ) == expected( reads );
        }
        if ( !good ) vp_check( !( vp_io_iswrite( i ) && vp_io_addr( i ) == TWDR_ ), "nothing is sent after a step that failed" );
    }
    vp_check( error == !good, "a transfer reports an error exactly if a step failed" );
    vp_check( error | ( reads == 3 ), "every step is verified" );
}
