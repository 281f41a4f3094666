// Lazy field writes and their combination with the comma operator.
// @mode int
// @target avr
// @frontend generic
// @bound combinations of 1 to 4 fields of an 8 bit and of a 16 bit register (adjacent, separated, single-bit, whole, overlapping in bits on which the values agree), every order of up to three, every register content and value
#include "avr.h"
#include "mcu/register.hpp"
using namespace mcu;

template< typename F > struct mask_of;
template< typename T, template<typename> typename IO, address_t A, index_t HI, index_t LO >
struct mask_of< bitfield_t< T, IO, A, HI, LO > >
{
    static constexpr T mask = T( ( ( uint32_t( 1 ) << ( HI - LO + 1 ) ) - 1 ) << LO );
    static constexpr uint8_t lo = LO;
    static T at( T v ) { return T( T( uint32_t( v ) << LO ) & mask ); }
};
template< typename T > T    get( uint8_t a ) { return T( sizeof(T) == 1 ? vp_io_get( a ) : vp_io_get16( a ) ); }
template< typename T > void put( uint8_t a, T v )
{
    vp_io_set( a, uint8_t( v ) );
    if ( sizeof(T) > 1 ) vp_io_set( a + 1, uint8_t( uint16_t( v ) >> 8 ) );
}
template< typename T > void verdict( uint8_t a, T reg, T mask, T fields, bool whole = false )
{
    const T now = get<T>( a );
    vp_check( T( now & mask ) == fields, "a combined write stores every named field" );
    vp_check( T( now & T( ~mask ) ) == T( reg & T( ~mask ) ), "a combined write leaves the other bits" );
    bool ok = true;
    for ( int i = 0; i < int( sizeof(T) ); ++i )
        ok = ok & ( vp_io_writes( a + i ) == 1 ) & ( ( vp_io_reads( a + i ) == 1 ) | whole & ( vp_io_reads( a + i ) == 0 ) );
    vp_check( ok, "a combined write reads and writes its register once" );
    vp_check( vp_io_len() <= int( 2 * sizeof(T) ), "a combined write accesses no other register" );
}

template< typename T, address_t A, typename F >
void lazy1( T reg, T v )
{
    put<T>( A, reg );
    vp_io_mark();
    F::write_lazy( v );
    verdict<T>( A, reg, mask_of<F>::mask, mask_of<F>::at( v ), true );
}
template< typename T, address_t A, typename F, typename G >
void lazy2( T reg, T v, T w )
{
    put<T>( A, reg );
    vp_io_mark();
    F::write_lazy( v ), G::write_lazy( w );
    verdict<T>( A, reg, mask_of<F>::mask | mask_of<G>::mask, mask_of<F>::at( v ) | mask_of<G>::at( w ), true );
}
template< typename T, address_t A, typename F, typename G, typename H >
void lazy3( T reg, T v, T w, T x )
{
    put<T>( A, reg );
    vp_io_mark();
    F::write_lazy( v ), G::write_lazy( w ), H::write_lazy( x );
    verdict<T>( A, reg, mask_of<F>::mask | mask_of<G>::mask | mask_of<H>::mask,
        mask_of<F>::at( v ) | mask_of<G>::at( w ) | mask_of<H>::at( x ), true );
    // grouped the other way:
    put<T>( A, reg );
    vp_io_mark();
    F::write_lazy( v ), ( G::write_lazy( w ), H::write_lazy( x ) );
    verdict<T>( A, reg, mask_of<F>::mask | mask_of<G>::mask | mask_of<H>::mask,
        mask_of<F>::at( v ) | mask_of<G>::at( w ) | mask_of<H>::at( x ), true );
}

VP_HARNESS( h_one )
{
    const uint8_t r = vp_u8( "register" ), v = vp_u8( "v" );
    lazy1< uint8_t, 0x84, bitfield8_t< rw_t, 0x84, 0 > >( r, v );
    lazy1< uint8_t, 0x84, bitfield8_t< rw_t, 0x84, 4 > >( r, v );
    lazy1< uint8_t, 0x84, bitfield8_t< rw_t, 0x84, 7 > >( r, v );
    lazy1< uint8_t, 0x84, bitfield8_t< rw_t, 0x84, 1, 0 > >( r, v );
    lazy1< uint8_t, 0x84, bitfield8_t< rw_t, 0x84, 5, 2 > >( r, v );
    lazy1< uint8_t, 0x84, bitfield8_t< rw_t, 0x84, 7, 6 > >( r, v );
    lazy1< uint8_t, 0x84, bitfield8_t< w_t, 0x84, 6, 4 > >( r, v );
    lazy1< uint8_t, 0x84, register8_t< rw_t, 0x84 > >( r, v );
}
VP_HARNESS( h_one_16 )
{
    const uint16_t r = vp_u16( "register" ), v = vp_u16( "v" );
    lazy1< uint16_t, 0x88, bitfield16_t< rw_t, 0x88, 0 > >( r, v );
    lazy1< uint16_t, 0x88, bitfield16_t< rw_t, 0x88, 15 > >( r, v );
    lazy1< uint16_t, 0x88, bitfield16_t< rw_t, 0x88, 9, 6 > >( r, v );
    lazy1< uint16_t, 0x88, bitfield16_t< rw_t, 0x88, 15, 8 > >( r, v );
    lazy1< uint16_t, 0x88, register16_t< rw_t, 0x88 > >( r, v );
}
VP_HARNESS( h_two )
{
    const uint8_t r = vp_u8( "register" ), v = vp_u8( "v" ), w = vp_u8( "w" );
    using A = bitfield8_t< rw_t, 0x84, 7, 6 >;
    using B = bitfield8_t< rw_t, 0x84, 5, 4 >;
    using C = bitfield8_t< rw_t, 0x84, 3 >;
    using D = bitfield8_t< rw_t, 0x84, 2, 0 >;
    using H = bitfield8_t< rw_t, 0x84, 7, 4 >;
    using L = bitfield8_t< rw_t, 0x84, 3, 0 >;
    lazy2< uint8_t, 0x84, A, B >( r, v, w );
    lazy2< uint8_t, 0x84, B, A >( r, v, w );
    lazy2< uint8_t, 0x84, A, D >( r, v, w );
    lazy2< uint8_t, 0x84, D, C >( r, v, w );
    lazy2< uint8_t, 0x84, C, A >( r, v, w );
    lazy2< uint8_t, 0x84, H, L >( r, v, w );
    lazy2< uint8_t, 0x84, L, H >( r, v, w );
}
VP_HARNESS( h_two_16 )
{
    const uint16_t r = vp_u16( "register" ), v = vp_u16( "v" ), w = vp_u16( "w" );
    using A = bitfield16_t< rw_t, 0x88, 15, 12 >;
    using B = bitfield16_t< rw_t, 0x88, 11, 5 >;
    using C = bitfield16_t< rw_t, 0x88, 3 >;
    lazy2< uint16_t, 0x88, A, B >( r, v, w );
    lazy2< uint16_t, 0x88, C, A >( r, v, w );
    lazy2< uint16_t, 0x88, B, C >( r, v, w );
}
VP_HARNESS( h_three )
{
    const uint8_t r = vp_u8( "register" ), v = vp_u8( "v" ), w = vp_u8( "w" ), x = vp_u8( "x" );
    using A = bitfield8_t< rw_t, 0x84, 7, 6 >;
    using B = bitfield8_t< rw_t, 0x84, 4, 2 >;
    using C = bitfield8_t< rw_t, 0x84, 0 >;
    lazy3< uint8_t, 0x84, A, B, C >( r, v, w, x );
    lazy3< uint8_t, 0x84, A, C, B >( r, v, w, x );
    lazy3< uint8_t, 0x84, B, A, C >( r, v, w, x );
    lazy3< uint8_t, 0x84, B, C, A >( r, v, w, x );
    lazy3< uint8_t, 0x84, C, A, B >( r, v, w, x );
    lazy3< uint8_t, 0x84, C, B, A >( r, v, w, x );
}
VP_HARNESS( h_four )
{
    const uint8_t r = vp_u8( "register" ), v = vp_u8( "v" ), w = vp_u8( "w" ), x = vp_u8( "x" ), y = vp_u8( "y" );
    using A = bitfield8_t< rw_t, 0x84, 7 >;
    using B = bitfield8_t< rw_t, 0x84, 5, 4 >;
    using C = bitfield8_t< rw_t, 0x84, 3, 2 >;
    using D = bitfield8_t< rw_t, 0x84, 0 >;
    vp_io_set( 0x84, r );
    vp_io_mark();
    A::write_lazy( v ), B::write_lazy( w ), C::write_lazy( x ), D::write_lazy( y );
    verdict<uint8_t>( 0x84, r, 0xbd, mask_of<A>::at( v ) | mask_of<B>::at( w ) | mask_of<C>::at( x ) | mask_of<D>::at( y ) );
}
// a combination kept in a variable is written when it goes out of scope, and not if it is discarded
VP_HARNESS( h_deferred )
{
    const uint8_t r = vp_u8( "register" ), v = vp_u8( "v" );
    using B = bitfield8_t< rw_t, 0x84, 5, 4 >;
    vp_io_set( 0x84, r );
    vp_io_mark();
    {
        auto p = B::write_lazy( v );
        vp_check( ( vp_io_len() == 0 ) & ( vp_io_get( 0x84 ) == r ), "a lazy write is deferred" );
        (void) p;
    }
    verdict<uint8_t>( 0x84, r, 0x30, mask_of<B>::at( v ) );
    vp_io_mark();
    const uint8_t now = vp_io_get( 0x84 );
    {
        auto p = B::write_lazy( uint8_t( v + 1 ) );
        p.discard();
    }
    vp_check( ( vp_io_len() == 0 ) & ( vp_io_get( 0x84 ) == now ), "a discarded lazy write does nothing" );
}
// fields that share bits, given values that agree on them
VP_HARNESS( h_overlap )
{
    const uint8_t r = vp_u8( "register" ), v = vp_u8( "v" ), w = vp_u8( "w" );
    using A = bitfield8_t< rw_t, 0x84, 5, 3 >;
    using B = bitfield8_t< rw_t, 0x84, 4, 2 >;
    using C = bitfield8_t< rw_t, 0x84, 7, 0 >;
    using D = bitfield8_t< rw_t, 0x84, 6 >;
    const int k = vp_choose( "fields", 4 );
    const uint8_t both = k == 0 ? 0x18 : k == 1 ? 0x38 : k == 2 ? 0x40 : 0x38;
    const uint8_t first = k == 2 ? mask_of<D>::at( v ) : mask_of<A>::at( v );
    const uint8_t second = k == 0 ? mask_of<B>::at( w ) : k == 1 ? mask_of<A>::at( w ) : mask_of<C>::at( w );
    vp_assume( ( first & both ) == ( second & both ) );
    if ( k == 0 ) lazy2< uint8_t, 0x84, A, B >( r, v, w );
    else if ( k == 1 ) lazy2< uint8_t, 0x84, A, A >( r, v, w );
    else if ( k == 2 ) lazy2< uint8_t, 0x84, D, C >( r, v, w );
    else lazy2< uint8_t, 0x84, A, C >( r, v, w );
}
