// Fixed-point arithmetic compiled for the microcontroller.
// @mode int
// @target avr
// @bound every pair of values: fixed_point<int8_t,I>, I=0,3,7; <int16_t,I>, I=0,8,15 and <int16_t,4,4>; <int32_t,I>, I=0,16,31 (products of 32 bit formats: I=16; quotients of 32 bit formats: solver-hard, left to the host claim F03)
// @assume exactness is required where the exact result is representable
#include "avr.h"
#include "num/fixed-point.hpp"
using num::fixed_point;

template< typename FP > FP any( char const * n ) { return FP( FP::construct, vp_any<typename FP::rep>::make( n ) ); }
template< typename FP > int64_t rep( FP x ) { return x.underlying_value(); }
template< typename FP > bool fits( int64_t v )
{
    using R = typename FP::rep;
    const int64_t hi = ( int64_t( 1 ) << ( 8 * sizeof(R) - 1 ) ) - 1;
    return bool( ( v <= hi ) & ( v >= -hi - 1 ) );
}
template< typename FP > void sums()
{
    FP a = any<FP>( "a" ), b = any<FP>( "b" );
    const int64_t ra = rep( a ), rb = rep( b );
    FP s = a + b, d = a - b, n = -a;
    FP sa = a; FP sr = ( sa += b );
    FP da = a; FP dr = ( da -= b );
    vp_check( ( !fits<FP>( ra + rb ) ) | ( rep( s ) == ra + rb ), "a+b is the exact sum when representable" );
    vp_check( ( !fits<FP>( ra - rb ) ) | ( rep( d ) == ra - rb ), "a-b is the exact difference when representable" );
    vp_check( ( !fits<FP>( -ra ) ) | ( rep( n ) == -ra ), "-a is the exact negation when representable" );
    vp_check( ( rep( +a ) == ra ) & ( rep( sa ) == rep( s ) ) & ( rep( sr ) == rep( s ) ) & ( rep( da ) == rep( d ) ) & ( rep( dr ) == rep( d ) ), "compound forms agree" );
    vp_check( ( ( a == b ) == ( ra == rb ) ) & ( ( a != b ) == ( ra != rb ) ) & ( ( a < b ) == ( ra < rb ) ) & ( ( a <= b ) == ( ra <= rb ) )
        & ( ( a > b ) == ( ra > rb ) ) & ( ( a >= b ) == ( ra >= rb ) ), "comparisons are those of the values" );
}
template< typename FP > void product()
{
    FP a = any<FP>( "a" ), b = any<FP>( "b" );
    const int64_t e = ( rep( a ) * rep( b ) ) >> FP::fractional_digits;
    FP p = a * b;
    FP q = a; FP r = ( q *= b );
    vp_check( ( !fits<FP>( e ) ) | ( rep( p ) == e ), "a*b is the exact product rounded down" );
    vp_check( ( rep( q ) == rep( p ) ) & ( rep( r ) == rep( p ) ), "compound forms agree" );
}
template< typename FP, typename W > void quotient()
{
    FP a = any<FP>( "a" ), b = any<FP>( "b" );
    vp_assume( rep( b ) != 0 );
    const W n = W( W( rep( a ) ) * ( W( 1 ) << FP::fractional_digits ) ), e = W( n / W( rep( b ) ) );
    FP p = a / b;
    FP q = a; FP r = ( q /= b );
    vp_check( ( !fits<FP>( e ) ) | ( rep( p ) == e ), "a/b is the exact quotient rounded toward zero" );
    vp_check( ( rep( q ) == rep( p ) ) & ( rep( r ) == rep( p ) ), "compound forms agree" );
}
VP_HARNESS( h_sum_i8_0 )   { sums<fixed_point<int8_t,0>>(); }
VP_HARNESS( h_sum_i8_3 )   { sums<fixed_point<int8_t,3>>(); }
VP_HARNESS( h_sum_i8_7 )   { sums<fixed_point<int8_t,7>>(); }
VP_HARNESS( h_sum_i16_0 )  { sums<fixed_point<int16_t,0>>(); }
VP_HARNESS( h_sum_i16_8 )  { sums<fixed_point<int16_t,8>>(); }
VP_HARNESS( h_sum_i16_15 ) { sums<fixed_point<int16_t,15>>(); }
VP_HARNESS( h_sum_i32_16 ) { sums<fixed_point<int32_t,16>>(); }
VP_HARNESS( h_sum_i32_31 ) { sums<fixed_point<int32_t,31>>(); }
VP_HARNESS( h_product_i8_0 )   { product<fixed_point<int8_t,0>>(); }
VP_HARNESS( h_product_i8_3 )   { product<fixed_point<int8_t,3>>(); }
VP_HARNESS( h_product_i8_7 )   { product<fixed_point<int8_t,7>>(); }
VP_HARNESS( h_product_i16_0 )  { product<fixed_point<int16_t,0>>(); }
VP_HARNESS( h_product_i16_8 )  { product<fixed_point<int16_t,8>>(); }
VP_HARNESS( h_product_i16_15 ) { product<fixed_point<int16_t,15>>(); }
VP_HARNESS( h_product_i16_4_4 ) { product<fixed_point<int16_t,4,4>>(); }
VP_HARNESS( h_product_i32_16 ) { product<fixed_point<int32_t,16>>(); }
VP_HARNESS( h_quotient_i8_0 )  { quotient<fixed_point<int8_t,0>,int32_t>(); }
VP_HARNESS( h_quotient_i8_3 )  { quotient<fixed_point<int8_t,3>,int32_t>(); }
VP_HARNESS( h_quotient_i8_7 )  { quotient<fixed_point<int8_t,7>,int32_t>(); }
VP_HARNESS( h_quotient_i16_8 ) { quotient<fixed_point<int16_t,8>,int64_t>(); }
VP_HARNESS( h_quotient_i16_0 ) { quotient<fixed_point<int16_t,0>,int64_t>(); }

template< typename FP, typename U > void conversions()
{
    // an integer that fits is held exactly and comes back
    const U v = vp_any<U>::make( "v" );
    const int64_t e = int64_t( v ) * ( int64_t( 1 ) << FP::fractional_digits );
    vp_assume( fits<FP>( e ) );
    const FP x( v );
    vp_check( rep( x ) == e, "an integer is held exactly" );
    vp_check( int64_t( x.template as<int>() ) == int64_t( v ), "a whole number comes back" );
}
template< typename FP > void truncation()
{
    const FP x = any<FP>( "x" );
    const int64_t one = int64_t( 1 ) << FP::fractional_digits;
    const int64_t q = int64_t( x.template as<int>() ), r = rep( x ) - q * one;
    vp_check( ( r > -one ) & ( r < one ) & ( ( r == 0 ) | ( ( r < 0 ) == ( rep( x ) < 0 ) ) ), "as truncates toward zero" );
    vp_check( int64_t( x.template as<int32_t>() ) == q, "the type asked does not change the value" );
    vp_check( num::to_rep<FP>()( x ) == x.underlying_value(), "to_rep gives the representation" );
    vp_check( num::from_rep<FP>()( x.underlying_value() ) == x, "from_rep makes the same number" );
    vp_check( ( rep( x.max() ) >= rep( x ) ) & ( rep( x.min() ) <= rep( x ) ) & fits<FP>( rep( x.max() ) ) & !fits<FP>( rep( x.max() ) + 1 ) & !fits<FP>( rep( x.min() ) - 1 ), "limits" );
}
VP_HARNESS( h_convert_i8_3 )   { conversions<fixed_point<int8_t,3>,int8_t>(); }
VP_HARNESS( h_convert_i8_7 )   { conversions<fixed_point<int8_t,7>,int16_t>(); }
VP_HARNESS( h_convert_i16_8 )  { conversions<fixed_point<int16_t,8>,int16_t>(); }
VP_HARNESS( h_convert_i16_8u ) { conversions<fixed_point<int16_t,8>,uint8_t>(); }
VP_HARNESS( h_convert_i32_16 ) { conversions<fixed_point<int32_t,16>,int32_t>(); }
VP_HARNESS( h_convert_i32_8 )  { conversions<fixed_point<int32_t,8>,int32_t>(); }
VP_HARNESS( h_truncate_i8_3 )   { truncation<fixed_point<int8_t,3>>(); }
VP_HARNESS( h_truncate_i8_0 )   { truncation<fixed_point<int8_t,0>>(); }
VP_HARNESS( h_truncate_i16_8 )  { truncation<fixed_point<int16_t,8>>(); }
VP_HARNESS( h_truncate_i16_15 ) { truncation<fixed_point<int16_t,15>>(); }
VP_HARNESS( h_truncate_i32_16 ) { truncation<fixed_point<int32_t,16>>(); }
VP_HARNESS( h_truncate_i32_0 )  { truncation<fixed_point<int32_t,0>>(); }

VP_HARNESS( h_power2 )
{
    const uint8_t n = vp_u8( "n" );
    vp_assume( n < 63 );
    vp_check( num::detail::power2( n ) == int64_t( 1 ) << n, "powers of two" );
}
VP_HARNESS( h_default ) { vp_check( ( rep( fixed_point<int16_t,8>() ) == 0 ) & ( rep( fixed_point<int32_t,16>{} ) == 0 ), "the default number is zero" ); }
