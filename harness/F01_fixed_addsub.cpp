// @mode int
// @bound every pair/triple of representable values of fixed_point<int8_t,I> (I=0..7), <int16_t,I> (I=0,3,8,15), <int32_t,I> (I=0,8,16,31), and the non-default fractional widths <int16_t,4,4>, <int32_t,16,8>
// @assume exactness is required where the exact result is representable; overflow is outside the claim
#include "vp.h"
#include "num/fixed-point.hpp"
using num::fixed_point;

template< typename FP > FP any( char const * n ) { return FP( FP::construct, vp_any<typename FP::rep>::make( n ) ); }
template< typename FP > int64_t rep( FP x ) { return x.underlying_value(); }
template< typename FP > bool fits( int64_t v )
{
    using R = typename FP::rep;
    int64_t hi = (int64_t(1) << (8 * sizeof(R) - 1)) - 1;
    return bool( (v <= hi) & (v >= -hi - 1) );
}

template< typename FP > void addsub()
{
    FP a = any<FP>("a"), b = any<FP>("b");
    const int64_t ra = rep(a), rb = rep(b);
    FP s = a + b, d = a - b, p = +a, n = -a;
    FP sa = a; FP sr = (sa += b);
    FP da = a; FP dr = (da -= b);
    vp_check( (!fits<FP>(ra + rb)) | (rep(s) == ra + rb), "a+b is the exact sum when representable" );
    vp_check( (!fits<FP>(ra - rb)) | (rep(d) == ra - rb), "a-b is the exact difference when representable" );
    vp_check( (!fits<FP>(-ra)) | (rep(n) == -ra), "-a is the exact negation when representable" );
    vp_check( rep(p) == ra, "+a is a" );
    vp_check( (rep(sa) == rep(s)) & (rep(sr) == rep(s)), "+= agrees with +" );
    vp_check( (rep(da) == rep(d)) & (rep(dr) == rep(d)), "-= agrees with -" );
    vp_check( (rep(a) == ra) & (rep(b) == rb), "operands unchanged" );
}

template< typename FP > void compare()
{
    FP a = any<FP>("a"), b = any<FP>("b");
    const int64_t ra = rep(a), rb = rep(b);
    vp_check( (a == b) == (ra == rb), "== is equality of values" );
    vp_check( (a != b) == (ra != rb), "!= is inequality of values" );
    vp_check( (a <  b) == (ra <  rb), "< orders by value" );
    vp_check( (a <= b) == (ra <= rb), "<= orders by value" );
    vp_check( (a >  b) == (ra >  rb), "> orders by value" );
    vp_check( (a >= b) == (ra >= rb), ">= orders by value" );
}

VP_HARNESS( h_add_i8_0 )  { addsub<fixed_point<int8_t,0>>(); }
VP_HARNESS( h_add_i8_3 )  { addsub<fixed_point<int8_t,3>>(); }
VP_HARNESS( h_add_i8_7 )  { addsub<fixed_point<int8_t,7>>(); }
VP_HARNESS( h_add_i16_0 ) { addsub<fixed_point<int16_t,0>>(); }
VP_HARNESS( h_add_i16_8 ) { addsub<fixed_point<int16_t,8>>(); }
VP_HARNESS( h_add_i16_15 ) { addsub<fixed_point<int16_t,15>>(); }
VP_HARNESS( h_add_i16_4_4 ) { addsub<fixed_point<int16_t,4,4>>(); }
VP_HARNESS( h_add_i32_0 ) { addsub<fixed_point<int32_t,0>>(); }
VP_HARNESS( h_add_i32_16 ) { addsub<fixed_point<int32_t,16>>(); }
VP_HARNESS( h_add_i32_31 ) { addsub<fixed_point<int32_t,31>>(); }
VP_HARNESS( h_cmp_i8_0 )  { compare<fixed_point<int8_t,0>>(); }
VP_HARNESS( h_cmp_i8_4 )  { compare<fixed_point<int8_t,4>>(); }
VP_HARNESS( h_cmp_i16_8 ) { compare<fixed_point<int16_t,8>>(); }
VP_HARNESS( h_cmp_i16_15 ) { compare<fixed_point<int16_t,15>>(); }
VP_HARNESS( h_cmp_i32_0 ) { compare<fixed_point<int32_t,0>>(); }
VP_HARNESS( h_cmp_i32_16 ) { compare<fixed_point<int32_t,16>>(); }
VP_HARNESS( h_cmp_i32_16_8 ) { compare<fixed_point<int32_t,16,8>>(); }

// comparison is a total order compatible with addition of a constant
VP_HARNESS( h_order_i32 )
{
    using FP = fixed_point<int32_t,16>;
    FP a = any<FP>("a"), b = any<FP>("b"), c = any<FP>("c");
    vp_check( (!((a <= b) & (b <= c))) | (a <= c), "order is transitive" );
    vp_check( (a <= b) | (b <= a), "order is total" );
    vp_check( (!((a <= b) & (b <= a))) | (a == b), "order is antisymmetric" );
}
