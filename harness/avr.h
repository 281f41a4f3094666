// Harness primitives for the microcontroller: registers and interrupts.
#ifndef AVR_H
#define AVR_H
#include "vp.h"
extern "C" {
uint8_t vp_io_get( uint8_t address );                   // content of a hardware register, not logged
void    vp_io_set( uint8_t address, uint8_t value );    // not logged
void    vp_io_mark();                                   // empty the log, remember the contents
uint8_t vp_io_old( uint8_t address );                   // content at the mark
void    vp_io_live( uint8_t address );                  // every read gives another arbitrary value
void    vp_io_ready( uint8_t address, uint8_t mask, uint8_t n );  // live, and the bits are up after at most n reads since the last write
int     vp_io_len();                                    // log of volatile byte accesses
uint8_t vp_io_addr( int i );
uint8_t vp_io_value( int i );
uint8_t vp_io_iswrite( int i );
uint8_t vp_io_enabled( int i );                         // interrupts were enabled at that access
int     vp_io_reads( uint8_t address );
int     vp_io_writes( uint8_t address );
void    vp_isr( void (*handler)(), int times );         // an interrupt that may come up to so many times
void    vp_no_isr();
void    vp_shared( void const volatile * p );           // object that the handler accesses
void    vp_point();                                     // an interrupt may come here
}
inline uint16_t vp_io_get16( uint8_t a ) { return uint16_t( vp_io_get( a ) | vp_io_get( a + 1 ) << 8 ); }
// accesses to other addresses than one (or two)
inline int vp_io_elsewhere( uint8_t a, uint8_t b )
{
    return vp_io_len() - vp_io_reads( a ) - vp_io_writes( a ) - ( a == b ? 0 : vp_io_reads( b ) + vp_io_writes( b ) );
}
inline int vp_io_elsewhere( uint8_t a ) { return vp_io_elsewhere( a, a ); }
template< typename T > T vp_io_content( uint8_t a ) { return T( sizeof(T) == 1 ? vp_io_get( a ) : vp_io_get16( a ) ); }
template< typename T > void vp_io_put( uint8_t a, T v )
{
    vp_io_set( a, uint8_t( v ) );
    if ( sizeof(T) > 1 ) vp_io_set( a + 1, uint8_t( uint16_t( v ) >> 8 ) );
}
// since the mark every byte of the register was read and written so many times, and nothing else was accessed
template< typename T > bool vp_io_once( uint8_t a, int reads, int writes )
{
    bool ok = vp_io_len() == int( sizeof(T) ) * ( reads + writes );
    for ( int i = 0; i < int( sizeof(T) ); ++i )
        ok = ok & ( vp_io_reads( a + i ) == reads ) & ( vp_io_writes( a + i ) == writes );
    return ok;
}
#endif
