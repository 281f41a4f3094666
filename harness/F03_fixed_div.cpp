// @mode int
// @bound every pair (a, b) of representable values with b != 0 of fixed_point<int8_t,I> for every I, <int16_t,I> for I=0,4,8,12,15, <int32_t,I> for I=0,8,16,24,31, and the non-default fractional widths <int16_t,4,4>, <int32_t,8,10>
// @assume the rounding rule is truncation toward zero of the exact quotient; a quotient outside the representable range is outside the claim; a zero divisor is outside the claim
#include "vp.h"
#include "num/fixed-point.hpp"
using num::fixed_point;

template< typename FP > FP any( char const * n ) { return FP( FP::construct, vp_any<typename FP::rep>::make( n ) ); }
template< typename FP > int64_t rep( FP x ) { return x.underlying_value(); }

template< typename FP > void div()
{
    using R = typename FP::rep;
    const int F = FP::fractional_digits;
    FP a = any<FP>("a"), b = any<FP>("b");
    vp_assume( rep(b) != 0 );
    const int64_t num = rep(a) * (int64_t(1) << F);
    const int64_t q = num / rep(b);                             // truncates toward zero
    const int64_t hi = (int64_t(1) << (8 * sizeof(R) - 1)) - 1;
    const bool fits = bool( (q <= hi) & (q >= -hi - 1) );
    FP p = a / b;
    FP c = a; FP cr = (c /= b);
    vp_check( (!fits) | (rep(p) == q), "a/b is the exact quotient truncated to the grid" );
    vp_check( (rep(c) == rep(p)) & (rep(cr) == rep(p)), "/= agrees with /" );
}

// the defining property of the truncated quotient, without dividing in the oracle
template< typename FP > void euclid()
{
    const int F = FP::fractional_digits;
    FP a = any<FP>("a"), b = any<FP>("b");
    const int32_t ra = a.underlying_value(), rb = b.underlying_value();
    vp_assume( rb != 0 );
    const int32_t num = ra * (int32_t(1) << F);
    const int32_t q = ( a / b ).underlying_value();
    const int32_t rem = num - q * rb;
    const int32_t arem = rem < 0 ? -rem : rem, arb = rb < 0 ? -rb : rb, anum = num < 0 ? -num : num;
    vp_assume( anum < arb * 128 );                                // quotient representable
    vp_check( (arem < arb) & ((rem == 0) | ((rem < 0) == (num < 0))), "remainder smaller than the divisor and signed as the dividend" );
}

template< typename FP > void unit()
{
    const int F = FP::fractional_digits;
    FP a = any<FP>("a");
    FP u( FP::construct, typename FP::rep( typename FP::rep(1) << F ) );
    vp_check( rep( a / u ) == rep(a), "a/1 == a" );
    vp_assume( rep(a) != 0 );
    vp_check( rep( a / a ) == rep(u), "a/a == 1" );
    vp_check( rep( FP( FP::construct, 0 ) / a ) == 0, "0/a == 0" );
}

VP_HARNESS( h_i8_0 ) { div< fixed_point<int8_t,0> >(); }
VP_HARNESS( h_i8_1 ) { div< fixed_point<int8_t,1> >(); }
VP_HARNESS( h_i8_2 ) { div< fixed_point<int8_t,2> >(); }
VP_HARNESS( h_i8_3 ) { div< fixed_point<int8_t,3> >(); }
VP_HARNESS( h_i8_4 ) { div< fixed_point<int8_t,4> >(); }
VP_HARNESS( h_i8_5 ) { div< fixed_point<int8_t,5> >(); }
VP_HARNESS( h_i8_6 ) { div< fixed_point<int8_t,6> >(); }
VP_HARNESS( h_i8_7 ) { div< fixed_point<int8_t,7> >(); }
VP_HARNESS( h_i16_0 ) { div< fixed_point<int16_t,0> >(); }
VP_HARNESS( h_i16_4 ) { div< fixed_point<int16_t,4> >(); }
VP_HARNESS( h_i16_8 ) { div< fixed_point<int16_t,8> >(); }
VP_HARNESS( h_i16_12 ) { div< fixed_point<int16_t,12> >(); }
VP_HARNESS( h_i16_15 ) { div< fixed_point<int16_t,15> >(); }
VP_HARNESS( h_i16_4_4 ) { div< fixed_point<int16_t,4,4> >(); }
VP_HARNESS( h_i32_0 ) { div< fixed_point<int32_t,0> >(); }
VP_HARNESS( h_i32_8 ) { div< fixed_point<int32_t,8> >(); }
VP_HARNESS( h_i32_16 ) { div< fixed_point<int32_t,16> >(); }
VP_HARNESS( h_i32_24 ) { div< fixed_point<int32_t,24> >(); }
VP_HARNESS( h_i32_31 ) { div< fixed_point<int32_t,31> >(); }
VP_HARNESS( h_i32_8_10 ) { div< fixed_point<int32_t,8,10> >(); }
VP_HARNESS( h_euclid_i8_3 ) { euclid< fixed_point<int8_t,3> >(); }
VP_HARNESS( h_euclid_i8_5 ) { euclid< fixed_point<int8_t,5> >(); }
VP_HARNESS( h_unit_i8 ) { unit< fixed_point<int8_t,4> >(); }
VP_HARNESS( h_unit_i16 ) { unit< fixed_point<int16_t,8> >(); }
VP_HARNESS( h_unit_i32 ) { unit< fixed_point<int32_t,16> >(); }
