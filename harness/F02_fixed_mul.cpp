// @mode int
// @bound every pair of representable values of fixed_point<int8_t,I> and <int16_t,I> for every I, and <int32_t,I> for I=0,1,4,8,12,15,16,20,24,28,30,31; plus the non-default fractional widths <int16_t,4,4>, <int32_t,8,10>
// @assume the rounding rule is the one the design states: round toward minus infinity (shift of the exact double-width product)
#include "vp.h"
#include "num/fixed-point.hpp"
using num::fixed_point;

template< typename FP > FP any( char const * n ) { return FP( FP::construct, vp_any<typename FP::rep>::make( n ) ); }
template< typename FP > int64_t rep( FP x ) { return x.underlying_value(); }

template< typename FP > void mul()
{
    using R = typename FP::rep;
    const int F = FP::fractional_digits;
    FP a = any<FP>("a"), b = any<FP>("b");
    const int64_t exact = rep(a) * rep(b);                      // scaled by 2^2F
    const int64_t lo = exact & ((int64_t(1) << F) - 1);         // fraction dropped
    const int64_t q  = (exact - lo) / (int64_t(1) << F);        // floor
    const int64_t hi = (int64_t(1) << (8 * sizeof(R) - 1)) - 1;
    const bool fits = bool( (q <= hi) & (q >= -hi - 1) );
    FP p = a * b;
    FP c = a; FP cr = (c *= b);
    vp_check( (!fits) | (rep(p) == q), "a*b is the exact product rounded down to the grid" );
    vp_check( (rep(c) == rep(p)) & (rep(cr) == rep(p)), "*= agrees with *" );
    vp_check( rep(b * a) == rep(p), "multiplication commutes" );
}
template< typename T, int I > void one() { mul< fixed_point<T,I> >(); }

template< typename FP > void unit()
{
    const int F = FP::fractional_digits;
    FP a = any<FP>("a");
    FP u( FP::construct, typename FP::rep( typename FP::rep(1) << F ) );
    FP z( FP::construct, 0 );
    vp_check( rep( a * u ) == rep(a), "a*1 == a" );
    vp_check( rep( a * z ) == 0, "a*0 == 0" );
}

VP_HARNESS( h_i8_0 ) { one<int8_t,0>(); }
VP_HARNESS( h_i8_1 ) { one<int8_t,1>(); }
VP_HARNESS( h_i8_2 ) { one<int8_t,2>(); }
VP_HARNESS( h_i8_3 ) { one<int8_t,3>(); }
VP_HARNESS( h_i8_4 ) { one<int8_t,4>(); }
VP_HARNESS( h_i8_5 ) { one<int8_t,5>(); }
VP_HARNESS( h_i8_6 ) { one<int8_t,6>(); }
VP_HARNESS( h_i8_7 ) { one<int8_t,7>(); }
VP_HARNESS( h_i16_0 ) { one<int16_t,0>(); }
VP_HARNESS( h_i16_1 ) { one<int16_t,1>(); }
VP_HARNESS( h_i16_2 ) { one<int16_t,2>(); }
VP_HARNESS( h_i16_3 ) { one<int16_t,3>(); }
VP_HARNESS( h_i16_4 ) { one<int16_t,4>(); }
VP_HARNESS( h_i16_5 ) { one<int16_t,5>(); }
VP_HARNESS( h_i16_6 ) { one<int16_t,6>(); }
VP_HARNESS( h_i16_7 ) { one<int16_t,7>(); }
VP_HARNESS( h_i16_8 ) { one<int16_t,8>(); }
VP_HARNESS( h_i16_9 ) { one<int16_t,9>(); }
VP_HARNESS( h_i16_10 ) { one<int16_t,10>(); }
VP_HARNESS( h_i16_11 ) { one<int16_t,11>(); }
VP_HARNESS( h_i16_12 ) { one<int16_t,12>(); }
VP_HARNESS( h_i16_13 ) { one<int16_t,13>(); }
VP_HARNESS( h_i16_14 ) { one<int16_t,14>(); }
VP_HARNESS( h_i16_15 ) { one<int16_t,15>(); }
VP_HARNESS( h_i16_4_4 ) { mul< fixed_point<int16_t,4,4> >(); }
VP_HARNESS( h_i32_8_10 ) { mul< fixed_point<int32_t,8,10> >(); }
VP_HARNESS( h_i32_0 ) { one<int32_t,0>(); }
VP_HARNESS( h_i32_1 ) { one<int32_t,1>(); }
VP_HARNESS( h_i32_4 ) { one<int32_t,4>(); }
VP_HARNESS( h_i32_8 ) { one<int32_t,8>(); }
VP_HARNESS( h_i32_12 ) { one<int32_t,12>(); }
VP_HARNESS( h_i32_15 ) { one<int32_t,15>(); }
VP_HARNESS( h_i32_16 ) { one<int32_t,16>(); }
VP_HARNESS( h_i32_20 ) { one<int32_t,20>(); }
VP_HARNESS( h_i32_24 ) { one<int32_t,24>(); }
VP_HARNESS( h_i32_28 ) { one<int32_t,28>(); }
VP_HARNESS( h_i32_30 ) { one<int32_t,30>(); }
VP_HARNESS( h_i32_31 ) { one<int32_t,31>(); }
VP_HARNESS( h_unit_i8 ) { unit< fixed_point<int8_t,4> >(); }
VP_HARNESS( h_unit_i16 ) { unit< fixed_point<int16_t,8> >(); }
VP_HARNESS( h_unit_i32 ) { unit< fixed_point<int32_t,16> >(); }
