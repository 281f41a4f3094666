// @mode real
// @bound up to five updates; observers called in any order before and between updates; every time step and every initial state; fixed-point time steps of 16 bits
// @assume element type double as exact reals; a sum of time steps that leaves the fixed-point range wraps as documented for fixed-point addition
#include "kal.h"
#include "num/fixed-point.hpp"

VP_HARNESS( h_before_update ) {
    const M2 A = any2("A"), P = any2("P"), Q = any2("Q"), H = any2("H"), R = any2("R");
    const V2 x = anyv("x"), b = anyv("b");
    kalman<double,2,2,1> const kf( vp_real("dt"), mat( A ), vec( b ), mat( H ), mat( Q ), mat( R ), mat( P ), vec( x ) );
    vp_eq( kf.time(), 0, "the clock starts at zero" );
    eq( getv( kf.system_state() ), x, "the state starts as given" );
    eq( get( kf.estimation_error_covariance() ), P, "the covariance starts as given" );
    eq( get( kf.kalman_gain() ), M2{ 0, 0, 0, 0 }, "the gain starts at zero" );
}

VP_HARNESS( h_clock ) {
    const double dt = vp_real("dt");
    const int n = vp_range( "n", 0, 5 );
    const V2 h = anyv("h");
    kalman<double,2,1,1> kf( dt, mat( M2{ 1, 0, 0, 1 } ), vec( V2{ 0, 0 } ), row( V2{ 0, 0 } ), mat( M2{ 0, 0, 0, 0 } ), one( 1 ), mat( M2{ 0, 0, 0, 0 } ), vec( h ) );
    for( int i = 0; i < n; ++i )
    {
        kf.update( one( vp_real("u") ), one( vp_real("z") ) );
        vp_eq( kf.time(), ( i + 1 ) * dt, "the clock advances by the time step per update" );
    }
    vp_eq( kf.time(), n * dt, "elapsed time is the number of updates times the time step" );
}

VP_HARNESS( h_observers ) {
    const M2 A = { 1, 0.5, -0.25, 2 }, P = sym2("P"), Q = { 2, 1, 1, 3 };
    const V2 h = { 1, -2 }, x = anyv("x"), b = { 1, 2 };
    const double dt = vp_real("dt"), R = 3, z1 = vp_real("z1"), u1 = vp_real("u1");
    kalman<double,2,1,1> p( dt, mat( A ), vec( b ), row( h ), mat( Q ), one( R ), mat( P ), vec( x ) );
    kalman<double,2,1,1> q( dt, mat( A ), vec( b ), row( h ), mat( Q ), one( R ), mat( P ), vec( x ) );
    for( int k = 0; k < 2; ++k )
    {
        switch( vp_choose( "observe", 5 ) )
        {
        case 0: (void) p.time(); break;
        case 1: (void) p.kalman_gain(); break;
        case 2: { auto s = p.system_state(); s( 0, 0 ) = 99; break; }
        case 3: { auto s = p.estimation_error_covariance(); s( 0, 0 ) = 99; break; }
        default: break;
        }
        p.update( one( u1 ), one( z1 ) );
        q.update( one( u1 ), one( z1 ) );
        eq( getv( p.system_state() ), getv( q.system_state() ), "observing does not change the state" );
        eq( get( p.estimation_error_covariance() ), get( q.estimation_error_covariance() ), "observing does not change the covariance" );
        eq( getv( p.kalman_gain() ), getv( q.kalman_gain() ), "observing does not change the gain" );
        vp_eq( p.time(), q.time(), "observing does not change the time" );
        vp_eq( p.time(), ( k + 1 ) * dt, "elapsed time is the number of updates times the time step" );
        if ( k == 0 && vp_choose( "stop", 2 ) ) break;
    }
}

VP_HARNESS( h_fixed_clock ) {
    using FP = num::fixed_point<int16_t,8>;
    const int16_t d = vp_i16("dt");
    const FP zero( 0 );
    num::matrix<FP,2,2> const Z( zero );
    num::matrix<FP,2,1> const z21( zero );
    num::matrix<FP,1,2> const z12( zero );
    num::matrix<FP,1,1> const z11( zero );
    kalman<FP,2,1,1> kf( FP( FP::construct, d ), Z, z21, z12, Z, z11, Z, z21 );
    vp_check( kf.time().underlying_value() == 0, "the clock starts at zero" );
    const int n = vp_range( "n", 1, 4 );
    for( int i = 0; i < n; ++i )
        kf.update( z11, z11 );
    vp_check( kf.time().underlying_value() == int16_t( n * d ), "elapsed time is the number of updates times the time step" );
}
