// @mode ieee
// @bound every double x (and every float x for the 8- and 16-bit types) whose conversion fits, for fixed_point<int8_t,I> for every I, <int16_t,I> I=0,4,8,12,15, <int32_t,I> I=0,8,16,24,31, <int16_t,4,4>, <int32_t,8,10>; floating-point arithmetic bit-exact IEEE 754 binary64/binary32, round to nearest even
// @assume x is not NaN and lies strictly within the representable range
// @assume float conversions may be off by 1/256 step more than half a step, the rounding of the float addition
#include "vp.h"
#include "num/fixed-point.hpp"
using num::fixed_point;

template< typename FP > FP any( char const * n ) { return FP( FP::construct, vp_any<typename FP::rep>::make( n ) ); }

template< typename T, int I, int F > void from_double()
{
    using FP = fixed_point<T,I,F>;
    const double one = double( int64_t(1) << F );
    const double hi = double( (int64_t(1) << (8 * sizeof(T) - 1)) - 1 ) / one;
    const double x = vp_real("x");
    vp_assume( bool( (x <= hi) & (x >= -hi) ) );
    FP a( x );
    const double r = double( a.underlying_value() ) / one;
    vp_le( r - x, 0.5 / one, "a real number is converted to a nearest representable value (not above half a step)" );
    vp_le( x - r, 0.5 / one, "a real number is converted to a nearest representable value (not below half a step)" );
    FP b( -x );
    vp_check( (b + a).underlying_value() == 0, "conversion is odd: fp(-x) == -fp(x)" );
    FP c = x;
    vp_check( c == a, "implicit and explicit conversion agree" );
}

template< typename T, int I, int F > void round_trip()
{
    using FP = fixed_point<T,I,F>;
    FP a = any<FP>("a");
    const double one = double( int64_t(1) << F );
    const double d = a.as_double();
    vp_eq( d * one, double( a.underlying_value() ), "the real value is the representation over 2^F" );
    vp_eq( a.template as<double>(), d, "as<double>() is the same" );
    vp_check( FP( d ) == a, "real value and back is exact" );
}

template< typename T, int I, int F > void monotone()
{
    using FP = fixed_point<T,I,F>;
    const double one = double( int64_t(1) << F );
    const double hi = double( (int64_t(1) << (8 * sizeof(T) - 1)) - 1 ) / one;
    const double x = vp_real("x"), y = vp_real("y");
    vp_assume( bool( (x <= hi) & (x >= -hi) & (y <= hi) & (y >= -hi) & (x <= y) ) );
    vp_check( FP( x ) <= FP( y ), "conversion keeps order" );
}

template< typename T, int I, int F > void from_float()
{
    using FP = fixed_point<T,I,F>;
    const float one = float( int64_t(1) << F );
    const float hi = float( (int64_t(1) << (8 * sizeof(T) - 1)) - 1 ) / one;
    const float x = vp_sym_f32("x");
    vp_assume( bool( (x <= hi) & (x >= -hi) ) );
    FP a( x );
    const double r = double( a.underlying_value() ) / double( one );
    vp_check( bool( (r - double(x) <= (0.5 + 1.0 / 256) / double(one)) & (double(x) - r <= (0.5 + 1.0 / 256) / double(one)) ), "a float is converted to a nearest representable value up to the rounding of float" );
    const float f = a.template as<float>();
    vp_check( double( f ) == a.as_double(), "reading as float gives the same value" );
}

VP_HARNESS( h_from_double_8_0_7 ) { from_double<int8_t,0,7>(); }
VP_HARNESS( h_round_trip_8_0_7 ) { round_trip<int8_t,0,7>(); }
VP_HARNESS( h_monotone_8_0_7 ) { monotone<int8_t,0,7>(); }
VP_HARNESS( h_from_float_8_0_7 ) { from_float<int8_t,0,7>(); }
VP_HARNESS( h_from_double_8_1_6 ) { from_double<int8_t,1,6>(); }
VP_HARNESS( h_round_trip_8_1_6 ) { round_trip<int8_t,1,6>(); }
VP_HARNESS( h_monotone_8_1_6 ) { monotone<int8_t,1,6>(); }
VP_HARNESS( h_from_float_8_1_6 ) { from_float<int8_t,1,6>(); }
VP_HARNESS( h_from_double_8_2_5 ) { from_double<int8_t,2,5>(); }
VP_HARNESS( h_round_trip_8_2_5 ) { round_trip<int8_t,2,5>(); }
VP_HARNESS( h_monotone_8_2_5 ) { monotone<int8_t,2,5>(); }
VP_HARNESS( h_from_float_8_2_5 ) { from_float<int8_t,2,5>(); }
VP_HARNESS( h_from_double_8_3_4 ) { from_double<int8_t,3,4>(); }
VP_HARNESS( h_round_trip_8_3_4 ) { round_trip<int8_t,3,4>(); }
VP_HARNESS( h_monotone_8_3_4 ) { monotone<int8_t,3,4>(); }
VP_HARNESS( h_from_float_8_3_4 ) { from_float<int8_t,3,4>(); }
VP_HARNESS( h_from_double_8_4_3 ) { from_double<int8_t,4,3>(); }
VP_HARNESS( h_round_trip_8_4_3 ) { round_trip<int8_t,4,3>(); }
VP_HARNESS( h_monotone_8_4_3 ) { monotone<int8_t,4,3>(); }
VP_HARNESS( h_from_float_8_4_3 ) { from_float<int8_t,4,3>(); }
VP_HARNESS( h_from_double_8_5_2 ) { from_double<int8_t,5,2>(); }
VP_HARNESS( h_round_trip_8_5_2 ) { round_trip<int8_t,5,2>(); }
VP_HARNESS( h_monotone_8_5_2 ) { monotone<int8_t,5,2>(); }
VP_HARNESS( h_from_float_8_5_2 ) { from_float<int8_t,5,2>(); }
VP_HARNESS( h_from_double_8_6_1 ) { from_double<int8_t,6,1>(); }
VP_HARNESS( h_round_trip_8_6_1 ) { round_trip<int8_t,6,1>(); }
VP_HARNESS( h_monotone_8_6_1 ) { monotone<int8_t,6,1>(); }
VP_HARNESS( h_from_float_8_6_1 ) { from_float<int8_t,6,1>(); }
VP_HARNESS( h_from_double_8_7_0 ) { from_double<int8_t,7,0>(); }
VP_HARNESS( h_round_trip_8_7_0 ) { round_trip<int8_t,7,0>(); }
VP_HARNESS( h_monotone_8_7_0 ) { monotone<int8_t,7,0>(); }
VP_HARNESS( h_from_float_8_7_0 ) { from_float<int8_t,7,0>(); }
VP_HARNESS( h_from_double_16_0_15 ) { from_double<int16_t,0,15>(); }
VP_HARNESS( h_round_trip_16_0_15 ) { round_trip<int16_t,0,15>(); }
VP_HARNESS( h_monotone_16_0_15 ) { monotone<int16_t,0,15>(); }
VP_HARNESS( h_from_float_16_0_15 ) { from_float<int16_t,0,15>(); }
VP_HARNESS( h_from_double_16_4_11 ) { from_double<int16_t,4,11>(); }
VP_HARNESS( h_round_trip_16_4_11 ) { round_trip<int16_t,4,11>(); }
VP_HARNESS( h_monotone_16_4_11 ) { monotone<int16_t,4,11>(); }
VP_HARNESS( h_from_float_16_4_11 ) { from_float<int16_t,4,11>(); }
VP_HARNESS( h_from_double_16_8_7 ) { from_double<int16_t,8,7>(); }
VP_HARNESS( h_round_trip_16_8_7 ) { round_trip<int16_t,8,7>(); }
VP_HARNESS( h_monotone_16_8_7 ) { monotone<int16_t,8,7>(); }
VP_HARNESS( h_from_float_16_8_7 ) { from_float<int16_t,8,7>(); }
VP_HARNESS( h_from_double_16_12_3 ) { from_double<int16_t,12,3>(); }
VP_HARNESS( h_round_trip_16_12_3 ) { round_trip<int16_t,12,3>(); }
VP_HARNESS( h_monotone_16_12_3 ) { monotone<int16_t,12,3>(); }
VP_HARNESS( h_from_float_16_12_3 ) { from_float<int16_t,12,3>(); }
VP_HARNESS( h_from_double_16_15_0 ) { from_double<int16_t,15,0>(); }
VP_HARNESS( h_round_trip_16_15_0 ) { round_trip<int16_t,15,0>(); }
VP_HARNESS( h_monotone_16_15_0 ) { monotone<int16_t,15,0>(); }
VP_HARNESS( h_from_float_16_15_0 ) { from_float<int16_t,15,0>(); }
VP_HARNESS( h_from_double_32_0_31 ) { from_double<int32_t,0,31>(); }
VP_HARNESS( h_round_trip_32_0_31 ) { round_trip<int32_t,0,31>(); }
VP_HARNESS( h_monotone_32_0_31 ) { monotone<int32_t,0,31>(); }
VP_HARNESS( h_from_double_32_8_23 ) { from_double<int32_t,8,23>(); }
VP_HARNESS( h_round_trip_32_8_23 ) { round_trip<int32_t,8,23>(); }
VP_HARNESS( h_monotone_32_8_23 ) { monotone<int32_t,8,23>(); }
VP_HARNESS( h_from_double_32_16_15 ) { from_double<int32_t,16,15>(); }
VP_HARNESS( h_round_trip_32_16_15 ) { round_trip<int32_t,16,15>(); }
VP_HARNESS( h_monotone_32_16_15 ) { monotone<int32_t,16,15>(); }
VP_HARNESS( h_from_double_32_24_7 ) { from_double<int32_t,24,7>(); }
VP_HARNESS( h_round_trip_32_24_7 ) { round_trip<int32_t,24,7>(); }
VP_HARNESS( h_monotone_32_24_7 ) { monotone<int32_t,24,7>(); }
VP_HARNESS( h_from_double_32_31_0 ) { from_double<int32_t,31,0>(); }
VP_HARNESS( h_round_trip_32_31_0 ) { round_trip<int32_t,31,0>(); }
VP_HARNESS( h_monotone_32_31_0 ) { monotone<int32_t,31,0>(); }
VP_HARNESS( h_from_double_16_4_4 ) { from_double<int16_t,4,4>(); }
VP_HARNESS( h_round_trip_16_4_4 ) { round_trip<int16_t,4,4>(); }
VP_HARNESS( h_monotone_16_4_4 ) { monotone<int16_t,4,4>(); }
VP_HARNESS( h_from_float_16_4_4 ) { from_float<int16_t,4,4>(); }
VP_HARNESS( h_from_double_32_8_10 ) { from_double<int32_t,8,10>(); }
VP_HARNESS( h_round_trip_32_8_10 ) { round_trip<int32_t,8,10>(); }
VP_HARNESS( h_monotone_32_8_10 ) { monotone<int32_t,8,10>(); }
