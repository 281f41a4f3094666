// @mode real
// @bound two states, one or two measurements; every degenerate innovation covariance (zero, or singular with zero determinant) over the reals; every 16-bit fixed-point (8 integer bits) measurement, control, covariance and noise value in the stated small systems
// @assume element type double as exact reals in the real-valued harnesses
#include "kal.h"
#include "num/fixed-point.hpp"

// R = -H P H': the measurement carries no usable information and must be ignored, not divide by zero
VP_HARNESS( h_zero_innovation_m1 ) {
    const M2 A = any2("A"), P = sym2("P"), Pp = sym2("p");
    const V2 h = anyv("h"), x = anyv("x"), b = anyv("b");
    const double u = vp_real("u"), z = vp_real("z");
    const M2 Q = sub( Pp, mul( mul( A, P ), tr( A ) ) );
    const V2 Ph = mul( Pp, h );
    const double R = -( h.x * Ph.x + h.y * Ph.y );
    kalman<double,2,1,1> kf( 1, mat( A ), vec( b ), row( h ), mat( Q ), one( R ), mat( P ), vec( x ) );
    kf.update( one( u ), one( z ) );
    eq( getv( kf.kalman_gain() ), V2{ 0, 0 }, "gain is zero when the innovation covariance is singular" );
    eq( getv( kf.system_state() ), V2{ A.a*x.x + A.b*x.y + b.x*u, A.c*x.x + A.d*x.y + b.y*u }, "the estimate is the prediction when the innovation covariance is singular" );
    eq( get( kf.estimation_error_covariance() ), Pp, "the covariance is the predicted one when the innovation covariance is singular" );
}

VP_HARNESS( h_zero_innovation_m2 ) {
    const M2 A = any2("A"), P = sym2("P"), Pp = sym2("p"), H = any2("H");
    const V2 x = anyv("x"), b = anyv("b"), z = anyv("z");
    const double u = vp_real("u"), s = vp_real("s"), k = vp_real("k");
    const M2 Q = sub( Pp, mul( mul( A, P ), tr( A ) ) );
    const M2 S = { s, k * s, k * s, k * k * s };                    // every singular symmetric matrix with S.a != 0, and zero
    const M2 R = sub( S, mul( H, mul( Pp, tr( H ) ) ) );
    kalman<double,2,2,1> kf( 1, mat( A ), vec( b ), mat( H ), mat( Q ), mat( R ), mat( P ), vec( x ) );
    kf.update( one( u ), vec( z ) );
    eq( get( kf.kalman_gain() ), M2{ 0, 0, 0, 0 }, "gain is zero when the innovation covariance is singular" );
    eq( getv( kf.system_state() ), V2{ A.a*x.x + A.b*x.y + b.x*u, A.c*x.x + A.d*x.y + b.y*u }, "the estimate is the prediction when the innovation covariance is singular" );
    eq( get( kf.estimation_error_covariance() ), Pp, "the covariance is the predicted one when the innovation covariance is singular" );
}

using FP = num::fixed_point<int16_t,8>;
inline FP fp( char const * n ) { return FP( FP::construct, vp_i16( n ) ); }

// a resting system observed through noise: whatever the covariance values, no update divides by zero
VP_HARNESS( h_fixed_m1 ) {
    num::matrix<FP,2,2> I( FP( 0 ) ), P( FP( 0 ) ), Q( FP( 0 ) );
    I( 0, 0 ) = FP( 1 ); I( 1, 1 ) = FP( 1 );
    P( 0, 0 ) = fp("P");
    num::matrix<FP,2,1> const b( FP( 0 ) );
    num::matrix<FP,2,1> x( FP( 0 ) );
    x( 0, 0 ) = fp("x");
    num::matrix<FP,1,2> h( FP( 0 ) );
    h( 0, 0 ) = FP( 1 );
    num::matrix<FP,1,1> r( FP( 0 ) ), u( FP( 0 ) ), z( FP( 0 ) );
    r( 0, 0 ) = fp("R"); z( 0, 0 ) = fp("z");
    kalman<FP,2,1,1> kf( FP( 1 ), I, b, h, Q, r, P, x );
    const int16_t s = int16_t( P( 0, 0 ).underlying_value() + r( 0, 0 ).underlying_value() );
    kf.update( u, z );
    vp_check( ( s != 0 ) | ( kf.kalman_gain()( 0, 0 ).underlying_value() == 0 ), "fixed-point: gain is zero when the innovation covariance is zero" );
    vp_check( ( s != 0 ) | ( kf.system_state()( 0, 0 ).underlying_value() == x( 0, 0 ).underlying_value() ), "fixed-point: the estimate is the prediction when the innovation covariance is zero" );
    vp_check( kf.system_state()( 1, 0 ).underlying_value() == 0, "fixed-point: an unrelated state stays" );
    vp_check( kf.kalman_gain()( 1, 0 ).underlying_value() == 0, "fixed-point: an unrelated state has zero gain" );
}

VP_HARNESS( h_fixed_m2 ) {
    num::matrix<FP,2,2> I( FP( 0 ) ), P( FP( 0 ) ), Q( FP( 0 ) ), R( FP( 0 ) );
    I( 0, 0 ) = FP( 1 ); I( 1, 1 ) = FP( 1 );
    R( 0, 0 ) = fp("r"); R( 1, 1 ) = fp("s");
    num::matrix<FP,2,1> const b( FP( 0 ) );
    num::matrix<FP,2,1> x( FP( 0 ) ), z( FP( 0 ) );
    x( 0, 0 ) = fp("x"); x( 1, 0 ) = fp("y");
    z( 0, 0 ) = fp("z"); z( 1, 0 ) = fp("w");
    num::matrix<FP,1,1> const u( FP( 0 ) );
    kalman<FP,2,2,1> kf( FP( 1 ), I, b, I, Q, R, P, x );
    kf.update( u, z );
    // P is zero, so the gain is zero and the state stays, whether or not R can be inverted
    for( int i = 0; i < 4; ++i )
        vp_check( kf.kalman_gain().at( i ).underlying_value() == 0, "fixed-point: no gain without uncertainty" );
    vp_check( kf.system_state()( 0, 0 ).underlying_value() == x( 0, 0 ).underlying_value(), "fixed-point: the state stays without uncertainty" );
    vp_check( kf.system_state()( 1, 0 ).underlying_value() == x( 1, 0 ).underlying_value(), "fixed-point: the state stays without uncertainty" );
}
