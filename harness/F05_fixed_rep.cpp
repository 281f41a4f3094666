// @mode int
// @bound every representable value of fixed_point<int8_t,I> for every I, <int16_t,I> for I=0,1,4,7,8,12,15, <int32_t,I> for I=0,1,8,16,24,31 and <int16_t,4,4>, <int32_t,8,10>
// @assume the integer part is the value truncated toward zero
#include "vp.h"
#include "num/fixed-point.hpp"
using num::fixed_point;

template< typename FP > FP any( char const * n ) { return FP( FP::construct, vp_any<typename FP::rep>::make( n ) ); }

template< typename T, int I, int F > void rep()
{
    using FP = fixed_point<T,I,F>;
    T v = vp_any<T>::make("v");
    FP x( FP::construct, v );
    vp_check( x.underlying_value() == v, "a value built from its representation has that representation" );
    FP y( x ), z;
    z = x;
    vp_check( (y.underlying_value() == v) & (z.underlying_value() == v) & (x.underlying_value() == v), "copies keep the value" );
    vp_check( num::to_rep<FP>()( x ) == v, "to_rep yields the representation" );
    vp_check( num::from_rep<FP>()( v ).underlying_value() == v, "from_rep yields the value with that representation" );
    vp_check( (x.min().underlying_value() <= v) & (v <= x.max().underlying_value()), "min() <= x <= max()" );
    const T lo = T( T(1) << (8 * sizeof(T) - 1) );
    vp_check( (x.min().underlying_value() == lo) & (x.max().underlying_value() == T(~lo)), "min() and max() are the extreme representable values" );
    vp_check( (FP::integer_digits == I) & (FP::fractional_digits == F) & (FP::digits == 8 * sizeof(T) - 1), "digit counts" );
}

// the integer part, and reading as an integer type of any width
template< typename T, int I, int F > void as_int()
{
    using FP = fixed_point<T,I,F>;
    FP x = any<FP>("x");
    const int64_t v = x.underlying_value();
    const int64_t one = int64_t(1) << F;
    const int64_t t = v >= 0 ? (v >> F) : -((-v) >> F);
    const int64_t i64 = x.template as<int64_t>();
    const int64_t i32 = x.template as<int32_t>();
    const int64_t i16 = x.template as<int16_t>();
    const int64_t i8  = x.template as<int8_t>();
    vp_check( i64 == t, "read as a 64-bit integer: truncated toward zero" );
    vp_check( i32 == t, "read as a 32-bit integer: truncated toward zero" );
    vp_check( (t < -32768) | (t > 32767) | (i16 == t), "read as a 16-bit integer: truncated toward zero" );
    vp_check( (t < -128) | (t > 127) | (i8 == t), "read as an 8-bit integer: truncated toward zero" );
    vp_check( (i64 * one <= v) | (v < 0), "the integer part does not exceed the value" );
}

// from an integer of any width
template< typename T, int I, int F, typename U > void from_int()
{
    using FP = fixed_point<T,I,F>;
    U n = vp_any<U>::make("n");
    const int64_t hi = (int64_t(1) << (8 * sizeof(T) - 1)) - 1;
    const int64_t v = int64_t(n) * (int64_t(1) << F);
    vp_assume( bool( (v <= hi) & (v >= -hi - 1) ) );
    FP x( n );
    FP y = n;
    vp_check( (x.underlying_value() == v) & (y.underlying_value() == v), "an integer that fits is converted exactly" );
    vp_check( x.template as<int64_t>() == n, "and read back unchanged" );
}

VP_HARNESS( h_rep_8_0_7 ) { rep<int8_t,0,7>(); }
VP_HARNESS( h_as_8_0_7 ) { as_int<int8_t,0,7>(); }
VP_HARNESS( h_from_int8_8_0_7 ) { from_int<int8_t,0,7,int8_t>(); }
VP_HARNESS( h_from_int16_8_0_7 ) { from_int<int8_t,0,7,int16_t>(); }
VP_HARNESS( h_from_int32_8_0_7 ) { from_int<int8_t,0,7,int32_t>(); }
VP_HARNESS( h_rep_8_1_6 ) { rep<int8_t,1,6>(); }
VP_HARNESS( h_as_8_1_6 ) { as_int<int8_t,1,6>(); }
VP_HARNESS( h_from_int8_8_1_6 ) { from_int<int8_t,1,6,int8_t>(); }
VP_HARNESS( h_from_int16_8_1_6 ) { from_int<int8_t,1,6,int16_t>(); }
VP_HARNESS( h_from_int32_8_1_6 ) { from_int<int8_t,1,6,int32_t>(); }
VP_HARNESS( h_rep_8_2_5 ) { rep<int8_t,2,5>(); }
VP_HARNESS( h_as_8_2_5 ) { as_int<int8_t,2,5>(); }
VP_HARNESS( h_from_int8_8_2_5 ) { from_int<int8_t,2,5,int8_t>(); }
VP_HARNESS( h_from_int16_8_2_5 ) { from_int<int8_t,2,5,int16_t>(); }
VP_HARNESS( h_from_int32_8_2_5 ) { from_int<int8_t,2,5,int32_t>(); }
VP_HARNESS( h_rep_8_3_4 ) { rep<int8_t,3,4>(); }
VP_HARNESS( h_as_8_3_4 ) { as_int<int8_t,3,4>(); }
VP_HARNESS( h_from_int8_8_3_4 ) { from_int<int8_t,3,4,int8_t>(); }
VP_HARNESS( h_from_int16_8_3_4 ) { from_int<int8_t,3,4,int16_t>(); }
VP_HARNESS( h_from_int32_8_3_4 ) { from_int<int8_t,3,4,int32_t>(); }
VP_HARNESS( h_rep_8_4_3 ) { rep<int8_t,4,3>(); }
VP_HARNESS( h_as_8_4_3 ) { as_int<int8_t,4,3>(); }
VP_HARNESS( h_from_int8_8_4_3 ) { from_int<int8_t,4,3,int8_t>(); }
VP_HARNESS( h_from_int16_8_4_3 ) { from_int<int8_t,4,3,int16_t>(); }
VP_HARNESS( h_from_int32_8_4_3 ) { from_int<int8_t,4,3,int32_t>(); }
VP_HARNESS( h_from_uint8_8_4_3 ) { from_int<int8_t,4,3,uint8_t>(); }
VP_HARNESS( h_from_uint16_8_4_3 ) { from_int<int8_t,4,3,uint16_t>(); }
VP_HARNESS( h_rep_8_5_2 ) { rep<int8_t,5,2>(); }
VP_HARNESS( h_as_8_5_2 ) { as_int<int8_t,5,2>(); }
VP_HARNESS( h_from_int8_8_5_2 ) { from_int<int8_t,5,2,int8_t>(); }
VP_HARNESS( h_from_int16_8_5_2 ) { from_int<int8_t,5,2,int16_t>(); }
VP_HARNESS( h_from_int32_8_5_2 ) { from_int<int8_t,5,2,int32_t>(); }
VP_HARNESS( h_rep_8_6_1 ) { rep<int8_t,6,1>(); }
VP_HARNESS( h_as_8_6_1 ) { as_int<int8_t,6,1>(); }
VP_HARNESS( h_from_int8_8_6_1 ) { from_int<int8_t,6,1,int8_t>(); }
VP_HARNESS( h_from_int16_8_6_1 ) { from_int<int8_t,6,1,int16_t>(); }
VP_HARNESS( h_from_int32_8_6_1 ) { from_int<int8_t,6,1,int32_t>(); }
VP_HARNESS( h_rep_8_7_0 ) { rep<int8_t,7,0>(); }
VP_HARNESS( h_as_8_7_0 ) { as_int<int8_t,7,0>(); }
VP_HARNESS( h_from_int8_8_7_0 ) { from_int<int8_t,7,0,int8_t>(); }
VP_HARNESS( h_from_int16_8_7_0 ) { from_int<int8_t,7,0,int16_t>(); }
VP_HARNESS( h_from_int32_8_7_0 ) { from_int<int8_t,7,0,int32_t>(); }
VP_HARNESS( h_rep_16_0_15 ) { rep<int16_t,0,15>(); }
VP_HARNESS( h_as_16_0_15 ) { as_int<int16_t,0,15>(); }
VP_HARNESS( h_from_int8_16_0_15 ) { from_int<int16_t,0,15,int8_t>(); }
VP_HARNESS( h_from_int16_16_0_15 ) { from_int<int16_t,0,15,int16_t>(); }
VP_HARNESS( h_from_int32_16_0_15 ) { from_int<int16_t,0,15,int32_t>(); }
VP_HARNESS( h_rep_16_1_14 ) { rep<int16_t,1,14>(); }
VP_HARNESS( h_as_16_1_14 ) { as_int<int16_t,1,14>(); }
VP_HARNESS( h_from_int8_16_1_14 ) { from_int<int16_t,1,14,int8_t>(); }
VP_HARNESS( h_from_int16_16_1_14 ) { from_int<int16_t,1,14,int16_t>(); }
VP_HARNESS( h_from_int32_16_1_14 ) { from_int<int16_t,1,14,int32_t>(); }
VP_HARNESS( h_rep_16_4_11 ) { rep<int16_t,4,11>(); }
VP_HARNESS( h_as_16_4_11 ) { as_int<int16_t,4,11>(); }
VP_HARNESS( h_from_int8_16_4_11 ) { from_int<int16_t,4,11,int8_t>(); }
VP_HARNESS( h_from_int16_16_4_11 ) { from_int<int16_t,4,11,int16_t>(); }
VP_HARNESS( h_from_int32_16_4_11 ) { from_int<int16_t,4,11,int32_t>(); }
VP_HARNESS( h_from_uint8_16_4_11 ) { from_int<int16_t,4,11,uint8_t>(); }
VP_HARNESS( h_from_uint16_16_4_11 ) { from_int<int16_t,4,11,uint16_t>(); }
VP_HARNESS( h_rep_16_7_8 ) { rep<int16_t,7,8>(); }
VP_HARNESS( h_as_16_7_8 ) { as_int<int16_t,7,8>(); }
VP_HARNESS( h_from_int8_16_7_8 ) { from_int<int16_t,7,8,int8_t>(); }
VP_HARNESS( h_from_int16_16_7_8 ) { from_int<int16_t,7,8,int16_t>(); }
VP_HARNESS( h_from_int32_16_7_8 ) { from_int<int16_t,7,8,int32_t>(); }
VP_HARNESS( h_rep_16_8_7 ) { rep<int16_t,8,7>(); }
VP_HARNESS( h_as_16_8_7 ) { as_int<int16_t,8,7>(); }
VP_HARNESS( h_from_int8_16_8_7 ) { from_int<int16_t,8,7,int8_t>(); }
VP_HARNESS( h_from_int16_16_8_7 ) { from_int<int16_t,8,7,int16_t>(); }
VP_HARNESS( h_from_int32_16_8_7 ) { from_int<int16_t,8,7,int32_t>(); }
VP_HARNESS( h_from_uint8_16_8_7 ) { from_int<int16_t,8,7,uint8_t>(); }
VP_HARNESS( h_from_uint16_16_8_7 ) { from_int<int16_t,8,7,uint16_t>(); }
VP_HARNESS( h_rep_16_12_3 ) { rep<int16_t,12,3>(); }
VP_HARNESS( h_as_16_12_3 ) { as_int<int16_t,12,3>(); }
VP_HARNESS( h_from_int8_16_12_3 ) { from_int<int16_t,12,3,int8_t>(); }
VP_HARNESS( h_from_int16_16_12_3 ) { from_int<int16_t,12,3,int16_t>(); }
VP_HARNESS( h_from_int32_16_12_3 ) { from_int<int16_t,12,3,int32_t>(); }
VP_HARNESS( h_rep_16_15_0 ) { rep<int16_t,15,0>(); }
VP_HARNESS( h_as_16_15_0 ) { as_int<int16_t,15,0>(); }
VP_HARNESS( h_from_int8_16_15_0 ) { from_int<int16_t,15,0,int8_t>(); }
VP_HARNESS( h_from_int16_16_15_0 ) { from_int<int16_t,15,0,int16_t>(); }
VP_HARNESS( h_from_int32_16_15_0 ) { from_int<int16_t,15,0,int32_t>(); }
VP_HARNESS( h_rep_32_0_31 ) { rep<int32_t,0,31>(); }
VP_HARNESS( h_as_32_0_31 ) { as_int<int32_t,0,31>(); }
VP_HARNESS( h_from_int8_32_0_31 ) { from_int<int32_t,0,31,int8_t>(); }
VP_HARNESS( h_from_int16_32_0_31 ) { from_int<int32_t,0,31,int16_t>(); }
VP_HARNESS( h_from_int32_32_0_31 ) { from_int<int32_t,0,31,int32_t>(); }
VP_HARNESS( h_rep_32_1_30 ) { rep<int32_t,1,30>(); }
VP_HARNESS( h_as_32_1_30 ) { as_int<int32_t,1,30>(); }
VP_HARNESS( h_from_int8_32_1_30 ) { from_int<int32_t,1,30,int8_t>(); }
VP_HARNESS( h_from_int16_32_1_30 ) { from_int<int32_t,1,30,int16_t>(); }
VP_HARNESS( h_from_int32_32_1_30 ) { from_int<int32_t,1,30,int32_t>(); }
VP_HARNESS( h_rep_32_8_23 ) { rep<int32_t,8,23>(); }
VP_HARNESS( h_as_32_8_23 ) { as_int<int32_t,8,23>(); }
VP_HARNESS( h_from_int8_32_8_23 ) { from_int<int32_t,8,23,int8_t>(); }
VP_HARNESS( h_from_int16_32_8_23 ) { from_int<int32_t,8,23,int16_t>(); }
VP_HARNESS( h_from_int32_32_8_23 ) { from_int<int32_t,8,23,int32_t>(); }
VP_HARNESS( h_from_uint8_32_8_23 ) { from_int<int32_t,8,23,uint8_t>(); }
VP_HARNESS( h_from_uint16_32_8_23 ) { from_int<int32_t,8,23,uint16_t>(); }
VP_HARNESS( h_rep_32_16_15 ) { rep<int32_t,16,15>(); }
VP_HARNESS( h_as_32_16_15 ) { as_int<int32_t,16,15>(); }
VP_HARNESS( h_from_int8_32_16_15 ) { from_int<int32_t,16,15,int8_t>(); }
VP_HARNESS( h_from_int16_32_16_15 ) { from_int<int32_t,16,15,int16_t>(); }
VP_HARNESS( h_from_int32_32_16_15 ) { from_int<int32_t,16,15,int32_t>(); }
VP_HARNESS( h_rep_32_24_7 ) { rep<int32_t,24,7>(); }
VP_HARNESS( h_as_32_24_7 ) { as_int<int32_t,24,7>(); }
VP_HARNESS( h_from_int8_32_24_7 ) { from_int<int32_t,24,7,int8_t>(); }
VP_HARNESS( h_from_int16_32_24_7 ) { from_int<int32_t,24,7,int16_t>(); }
VP_HARNESS( h_from_int32_32_24_7 ) { from_int<int32_t,24,7,int32_t>(); }
VP_HARNESS( h_rep_32_31_0 ) { rep<int32_t,31,0>(); }
VP_HARNESS( h_as_32_31_0 ) { as_int<int32_t,31,0>(); }
VP_HARNESS( h_from_int8_32_31_0 ) { from_int<int32_t,31,0,int8_t>(); }
VP_HARNESS( h_from_int16_32_31_0 ) { from_int<int32_t,31,0,int16_t>(); }
VP_HARNESS( h_from_int32_32_31_0 ) { from_int<int32_t,31,0,int32_t>(); }
VP_HARNESS( h_rep_16_4_4 ) { rep<int16_t,4,4>(); }
VP_HARNESS( h_as_16_4_4 ) { as_int<int16_t,4,4>(); }
VP_HARNESS( h_from_int8_16_4_4 ) { from_int<int16_t,4,4,int8_t>(); }
VP_HARNESS( h_from_int16_16_4_4 ) { from_int<int16_t,4,4,int16_t>(); }
VP_HARNESS( h_from_int32_16_4_4 ) { from_int<int16_t,4,4,int32_t>(); }
VP_HARNESS( h_from_uint8_16_4_4 ) { from_int<int16_t,4,4,uint8_t>(); }
VP_HARNESS( h_from_uint16_16_4_4 ) { from_int<int16_t,4,4,uint16_t>(); }
VP_HARNESS( h_rep_32_8_10 ) { rep<int32_t,8,10>(); }
VP_HARNESS( h_as_32_8_10 ) { as_int<int32_t,8,10>(); }
VP_HARNESS( h_from_int8_32_8_10 ) { from_int<int32_t,8,10,int8_t>(); }
VP_HARNESS( h_from_int16_32_8_10 ) { from_int<int32_t,8,10,int16_t>(); }
VP_HARNESS( h_from_int32_32_8_10 ) { from_int<int32_t,8,10,int32_t>(); }
VP_HARNESS( h_from_uint8_32_8_10 ) { from_int<int32_t,8,10,uint8_t>(); }
VP_HARNESS( h_from_uint16_32_8_10 ) { from_int<int32_t,8,10,uint16_t>(); }
