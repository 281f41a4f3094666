// @mode real
// @bound two states, one or two measurements, one to three control inputs (the sizes the matrix code supports); every real value of A, B, H, Q, R, P, x, u, z with P, Q, R symmetric; one update from an arbitrary state, two updates shown equal to one update restarted from the observed state
// @assume element type double as exact reals (rounding is outside the claim); the innovation covariance is invertible
// Q, R and z are written as (predicted value) - (its formula), which is a bijection and loses no generality.
#include "kal.h"

template< int U > V2 control( matrix<double,2,U> const & B, colvec<double,U> const & u )
{
    V2 r = { 0, 0 };
    for( int i = 0; i < U; ++i ) { r.x = r.x + B( 0, i ) * u( i, 0 ); r.y = r.y + B( 1, i ) * u( i, 0 ); }
    return r;
}

template< int U > void one_measurement()
{
    const M2 A = any2("A"), P = sym2("P"), Pp = sym2("p");         // Pp: the predicted covariance
    const V2 h = anyv("h"), x = anyv("x");
    const double S = vp_real("S"), y = vp_real("y"), dt = vp_real("dt");
    vp_assume( S != 0 );
    matrix<double,2,U> const B = anym<double,2,U>("b");
    colvec<double,U> const u = anym<double,U,1>("u");
    const M2 Q = sub( Pp, mul( mul( A, P ), tr( A ) ) );
    const V2 Ph = mul( Pp, h );
    const double R = S - ( h.x * Ph.x + h.y * Ph.y );
    const V2 xp = add( mul( A, x ), control<U>( B, u ) );
    const double z = y + ( h.x * xp.x + h.y * xp.y );
    kalman<double,2,1,U> kf( dt, mat( A ), B, row( h ), mat( Q ), one( R ), mat( P ), vec( x ) );
    kf.update( u, one( z ) );
    auto const K = kf.kalman_gain();
    V2 const x1 = getv( kf.system_state() );
    M2 const P1 = get( kf.estimation_error_covariance() );
    vp_eq( K(0,0) * S, Ph.x, "gain times innovation covariance is P H'" );
    vp_eq( K(1,0) * S, Ph.y, "gain times innovation covariance is P H'" );
    vp_eq( x1.x, xp.x + Ph.x / S * y, "state: prediction plus gain times innovation" );
    vp_eq( x1.y, xp.y + Ph.y / S * y, "state: prediction plus gain times innovation" );
    vp_eq( P1.a, Pp.a - Ph.x * Ph.x / S, "covariance: (I - K H) P" );
    vp_eq( P1.b, Pp.b - Ph.x * Ph.y / S, "covariance: (I - K H) P" );
    vp_eq( P1.c, Pp.c - Ph.y * Ph.x / S, "covariance: (I - K H) P" );
    vp_eq( P1.d, Pp.d - Ph.y * Ph.y / S, "covariance: (I - K H) P" );
}

template< int U > void two_measurements()
{
    const M2 A = any2("A"), P = sym2("P"), Pp = sym2("p"), H = any2("H"), S = sym2("S");
    const V2 x = anyv("x"), y = anyv("y");
    const double dt = vp_real("dt");
    const double det = S.a * S.d - S.b * S.c;
    vp_assume( det != 0 );
    matrix<double,2,U> const B = anym<double,2,U>("b");
    colvec<double,U> const u = anym<double,U,1>("u");
    const M2 Q = sub( Pp, mul( mul( A, P ), tr( A ) ) );
    const M2 PH = mul( Pp, tr( H ) );
    const M2 R = sub( S, mul( H, PH ) );
    const V2 xp = add( mul( A, x ), control<U>( B, u ) );
    const V2 z = add( y, mul( H, xp ) );
    kalman<double,2,2,U> kf( dt, mat( A ), B, mat( H ), mat( Q ), mat( R ), mat( P ), vec( x ) );
    kf.update( u, vec( z ) );
    M2 const K = get( kf.kalman_gain() );
    V2 const x1 = getv( kf.system_state() );
    M2 const P1 = get( kf.estimation_error_covariance() );
    eq( mul( K, S ), PH, "gain times innovation covariance is P H'" );
    eq( x1, add( xp, mul( K, y ) ), "state: prediction plus gain times innovation" );
    eq( P1, sub( Pp, mul( mul( K, H ), Pp ) ), "covariance: (I - K H) P" );
}

VP_HARNESS( h_m1_u1 ) { one_measurement<1>(); }
VP_HARNESS( h_m1_u2 ) { one_measurement<2>(); }
VP_HARNESS( h_m1_u3 ) { one_measurement<3>(); }
VP_HARNESS( h_m2_u1 ) { two_measurements<1>(); }
VP_HARNESS( h_m2_u2 ) { two_measurements<2>(); }
VP_HARNESS( h_m2_u3 ) { two_measurements<3>(); }

// Nothing but P and x is carried from one update to the next (A, H, Q, R here are particular numbers, P, x, u, z arbitrary).
VP_HARNESS( h_restart_m1 ) {
    const M2 A = { 1, 0.5, -0.25, 2 }, P = sym2("P"), Q = { 2, 1, 1, 3 };
    const V2 h = { 1, -2 }, x = anyv("x"), b = anyv("b");
    const double R = 3, z1 = vp_real("z1"), z2 = vp_real("z2"), u1 = vp_real("u1"), u2 = vp_real("u2"), dt = vp_real("dt");
    kalman<double,2,1,1> kf( dt, mat( A ), vec( b ), row( h ), mat( Q ), one( R ), mat( P ), vec( x ) );
    kf.update( one( u1 ), one( z1 ) );
    kalman<double,2,1,1> fresh( dt, mat( A ), vec( b ), row( h ), mat( Q ), one( R ), kf.estimation_error_covariance(), kf.system_state() );
    kf.update( one( u2 ), one( z2 ) );
    fresh.update( one( u2 ), one( z2 ) );
    eq( getv( kf.system_state() ), getv( fresh.system_state() ), "a second update continues from the observed state" );
    eq( get( kf.estimation_error_covariance() ), get( fresh.estimation_error_covariance() ), "a second update continues from the observed covariance" );
    eq( getv( kf.kalman_gain() ), getv( fresh.kalman_gain() ), "the gain does not depend on earlier gains" );
}

VP_HARNESS( h_restart_m2 ) {
    const M2 A = { 1, 0.5, -0.25, 2 }, P = { vp_real("P1"), 0, 0, vp_real("P2") }, Q = { 2, 1, 1, 3 }, H = { 1, 2, 0, 1 }, R = { 1, 0, 0, 2 };
    const V2 x = anyv("x"), b = anyv("b"), z1 = anyv("y"), z2 = anyv("z");
    const double u1 = vp_real("u1"), u2 = vp_real("u2"), dt = vp_real("dt");
    kalman<double,2,2,1> kf( dt, mat( A ), vec( b ), mat( H ), mat( Q ), mat( R ), mat( P ), vec( x ) );
    kf.update( one( u1 ), vec( z1 ) );
    kalman<double,2,2,1> fresh( dt, mat( A ), vec( b ), mat( H ), mat( Q ), mat( R ), kf.estimation_error_covariance(), kf.system_state() );
    kf.update( one( u2 ), vec( z2 ) );
    fresh.update( one( u2 ), vec( z2 ) );
    eq( getv( kf.system_state() ), getv( fresh.system_state() ), "a second update continues from the observed state" );
    eq( get( kf.estimation_error_covariance() ), get( fresh.estimation_error_covariance() ), "a second update continues from the observed covariance" );
    eq( get( kf.kalman_gain() ), get( fresh.kalman_gain() ), "the gain does not depend on earlier gains" );
}

// two estimators do not influence each other; a copy continues independently
VP_HARNESS( h_independent ) {
    const M2 A = any2("A"), P = sym2("P"), Q = sym2("Q");
    const V2 h = anyv("h"), x = anyv("x"), b = anyv("b");
    const double R = vp_real("R"), z1 = vp_real("z1"), z2 = vp_real("z2"), dt = vp_real("dt");
    kalman<double,2,1,1> kf( dt, mat( A ), vec( b ), row( h ), mat( Q ), one( R ), mat( P ), vec( x ) );
    kalman<double,2,1,1> copy( kf );
    copy.update( one( 0 ), one( z2 ) );
    eq( getv( kf.system_state() ), x, "updating a copy leaves the original state" );
    eq( get( kf.estimation_error_covariance() ), P, "updating a copy leaves the original covariance" );
    vp_eq( kf.time(), 0, "updating a copy leaves the original time" );
    kalman<double,2,1,1> again( kf );
    kf.update( one( 0 ), one( z1 ) );
    again.update( one( 0 ), one( z1 ) );
    eq( getv( kf.system_state() ), getv( again.system_state() ), "same history, same state" );
    eq( get( kf.estimation_error_covariance() ), get( again.estimation_error_covariance() ), "same history, same covariance" );
}

// the same with element type float (conversions exact: rounding is outside the claim)
// @fopt f32=exact
VP_HARNESS( h_float ) {
    vp_note( "coarse" );
    const M2 A = { 1, 0.5, -0.25, 2 }, P = sym2("P"), Q = { 2, 1, 1, 3 };
    const V2 h = anyv("h"), x = anyv("x"), b = anyv("b");
    const double R = vp_real("R"), z = vp_real("z"), u = vp_real("u");
    const M2 Pp = add( mul( mul( A, P ), tr( A ) ), Q );
    const V2 Ph = mul( Pp, h );
    const double S = R + ( h.x * Ph.x + h.y * Ph.y );
    vp_assume( S != 0 );
    const V2 xp = { A.a * x.x + A.b * x.y + b.x * u, A.c * x.x + A.d * x.y + b.y * u };
    const double y = z - ( h.x * xp.x + h.y * xp.y );
    matrix<float,2,2> a( 0.0f ), p( 0.0f ), q( 0.0f );
    a(0,0) = A.a; a(0,1) = A.b; a(1,0) = A.c; a(1,1) = A.d;
    p(0,0) = P.a; p(0,1) = P.b; p(1,0) = P.c; p(1,1) = P.d;
    q(0,0) = Q.a; q(0,1) = Q.b; q(1,0) = Q.c; q(1,1) = Q.d;
    matrix<float,2,1> bb( 0.0f ), xx( 0.0f ); bb(0,0) = b.x; bb(1,0) = b.y; xx(0,0) = x.x; xx(1,0) = x.y;
    matrix<float,1,2> hh( 0.0f ); hh(0,0) = h.x; hh(0,1) = h.y;
    matrix<float,1,1> r( 0.0f ), uu( 0.0f ), zz( 0.0f ); r(0,0) = R; uu(0,0) = u; zz(0,0) = z;
    kalman<float,2,1,1> kf( 1.0f, a, bb, hh, q, r, p, xx );
    kf.update( uu, zz );
    auto const K = kf.kalman_gain();
    auto const x1 = kf.system_state();
    auto const P1 = kf.estimation_error_covariance();
    vp_eq( K(0,0) * S, Ph.x, "gain times innovation covariance is P H' (float)" );
    vp_eq( K(1,0) * S, Ph.y, "gain times innovation covariance is P H' (float)" );
    vp_eq( x1(0,0), xp.x + Ph.x / S * y, "state: prediction plus gain times innovation (float)" );
    vp_eq( x1(1,0), xp.y + Ph.y / S * y, "state: prediction plus gain times innovation (float)" );
    vp_eq( P1(0,0), Pp.a - Ph.x * Ph.x / S, "covariance: (I - K H) P (float)" );
    vp_eq( P1(0,1), Pp.b - Ph.x * Ph.y / S, "covariance: (I - K H) P (float)" );
    vp_eq( P1(1,0), Pp.c - Ph.y * Ph.x / S, "covariance: (I - K H) P (float)" );
    vp_eq( P1(1,1), Pp.d - Ph.y * Ph.y / S, "covariance: (I - K H) P (float)" );
}
