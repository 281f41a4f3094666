// @mode real
// @bound two states, one or two measurements; every real A, B, H, x, u, z; predicted covariance L L' and measurement noise N N' for every lower triangular L, N (every covariance has this form) with an invertible innovation covariance; one update from an arbitrary state, which by the restart harnesses of the update property extends to every history
// @assume element type double as exact reals (loss of symmetry through rounding is outside the claim)
#include "kal.h"

struct Low { double a, c, d; };
inline Low low( char const * n ) { char s[4] = { n[0], n[1], '1', 0 }; Low m; m.a = vp_real( s ); s[2] = '3'; m.c = vp_real( s ); s[2] = '4'; m.d = vp_real( s ); return m; }
inline M2 square( Low const & l ) { return { l.a*l.a, l.a*l.c, l.a*l.c, l.c*l.c + l.d*l.d }; }

VP_HARNESS( h_one_measurement ) {
    const M2 A = any2("A"), P = sym2("P");
    const Low L = low("L");
    const M2 Pp = square( L );
    const V2 h = anyv("h"), x = anyv("x"), b = anyv("b"), v = anyv("v");
    const double n = vp_real("n"), z = vp_real("z"), u = vp_real("u");
    const V2 Ph = mul( Pp, h );
    const double S = h.x * Ph.x + h.y * Ph.y + n * n;
    vp_assume( S > 0 );
    const M2 Q = sub( Pp, mul( mul( A, P ), tr( A ) ) );
    kalman<double,2,1,1> kf( 1, mat( A ), vec( b ), row( h ), mat( Q ), one( n * n ), mat( P ), vec( x ) );
    kf.update( one( u ), one( z ) );
    const M2 P1 = get( kf.estimation_error_covariance() );
    vp_eq( P1.b, P1.c, "covariance stays symmetric" );
    // v' P1 v S is a sum of squares
    const V2 w = { L.a * v.x + L.c * v.y, L.d * v.y }, g = { L.a * h.x + L.c * h.y, L.d * h.y };
    const double cross = w.x * g.y - w.y * g.x;
    const double q1 = v.x * ( P1.a * v.x + P1.b * v.y ) + v.y * ( P1.c * v.x + P1.d * v.y );
    const double q0 = w.x * w.x + w.y * w.y;
    vp_eq( q1 * S, n * n * q0 + cross * cross, "covariance stays positive semidefinite" );
    const double d = w.x * g.x + w.y * g.y;
    vp_eq( ( q0 - q1 ) * S, d * d, "a measurement never increases the uncertainty" );
    vp_le( 0, P1.a, "variance is not negative" );
    vp_le( 0, P1.d, "variance is not negative" );
    vp_le( P1.a, Pp.a, "variance does not grow by a measurement" );
    vp_le( P1.d, Pp.d, "variance does not grow by a measurement" );
}

VP_HARNESS( h_two_measurements ) {
    const M2 A = any2("A"), P = sym2("P"), H = any2("H");
    const Low L = low("L"), N = low("N");
    const M2 Pp = square( L ), R = square( N );
    const V2 x = anyv("x"), b = anyv("b"), z = anyv("z"), v = anyv("v");
    const double u = vp_real("u");
    const M2 S = add( mul( mul( H, Pp ), tr( H ) ), R );
    vp_assume( S.a * S.d - S.b * S.c != 0 );
    const M2 Q = sub( Pp, mul( mul( A, P ), tr( A ) ) );
    kalman<double,2,2,1> kf( 1, mat( A ), vec( b ), mat( H ), mat( Q ), mat( R ), mat( P ), vec( x ) );
    kf.update( one( u ), vec( z ) );
    const M2 P1 = get( kf.estimation_error_covariance() ), K = get( kf.kalman_gain() );
    vp_eq( P1.b, P1.c, "covariance stays symmetric" );
    // Joseph form: v' P1 v = | L' (I - K H)' v |^2 + | N' K' v |^2
    const V2 kv = mul( tr( K ), v ), c = sub( v, mul( tr( H ), kv ) );
    const V2 w = { L.a * c.x + L.c * c.y, L.d * c.y }, g = { N.a * kv.x + N.c * kv.y, N.d * kv.y };
    const double q1 = v.x * ( P1.a * v.x + P1.b * v.y ) + v.y * ( P1.c * v.x + P1.d * v.y );
    vp_eq( q1, w.x * w.x + w.y * w.y + g.x * g.x + g.y * g.y, "covariance stays positive semidefinite" );
    // v' (Pp - P1) v = | L' H' K' v |^2 + | N' K' v |^2
    const V2 e = mul( tr( H ), kv ), f = { L.a * e.x + L.c * e.y, L.d * e.y };
    const double q0 = v.x * ( Pp.a * v.x + Pp.b * v.y ) + v.y * ( Pp.c * v.x + Pp.d * v.y );
    vp_eq( q0 - q1, f.x * f.x + f.y * f.y + g.x * g.x + g.y * g.y, "a measurement never increases the uncertainty" );
}

// the predicted covariance, seen through a measurement that carries no information
VP_HARNESS( h_predict ) {
    const M2 A = any2("A");
    const Low L = low("L"), W = low("W");
    const V2 x = anyv("x"), b = anyv("b"), v = anyv("v");
    const double r = vp_real("r"), z = vp_real("z"), u = vp_real("u");
    vp_assume( r > 0 );
    kalman<double,2,1,1> kf( 1, mat( A ), vec( b ), row( V2{ 0, 0 } ), mat( square( W ) ), one( r ), mat( square( L ) ), vec( x ) );
    kf.update( one( u ), one( z ) );
    const M2 P1 = get( kf.estimation_error_covariance() );
    vp_eq( P1.b, P1.c, "covariance stays symmetric" );
    const V2 a = mul( tr( A ), v ), w = { L.a * a.x + L.c * a.y, L.d * a.y }, g = { W.a * v.x + W.c * v.y, W.d * v.y };
    const double q1 = v.x * ( P1.a * v.x + P1.b * v.y ) + v.y * ( P1.c * v.x + P1.d * v.y );
    vp_eq( q1, w.x * w.x + w.y * w.y + g.x * g.x + g.y * g.y, "predicted covariance is A P A' + Q" );
    eq( getv( kf.system_state() ), V2{ A.a * x.x + A.b * x.y + b.x * u, A.c * x.x + A.d * x.y + b.y * u }, "without information the estimate is the prediction" );
}

// exact measurements of the whole state
VP_HARNESS( h_exact ) {
    const M2 A = any2("A"), P = sym2("P"), Pp = sym2("p"), H = any2("H");
    const V2 x = anyv("x"), b = anyv("b"), truth = anyv("t");
    const double u = vp_real("u");
    vp_assume( (Pp.a * Pp.d - Pp.b * Pp.c != 0) & (H.a * H.d - H.b * H.c != 0) );
    const M2 Q = sub( Pp, mul( mul( A, P ), tr( A ) ) );
    kalman<double,2,2,1> kf( 1, mat( A ), vec( b ), mat( H ), mat( Q ), mat( M2{ 0, 0, 0, 0 } ), mat( P ), vec( x ) );
    kf.update( one( u ), vec( mul( H, truth ) ) );
    eq( getv( kf.system_state() ), truth, "a complete noise-free measurement determines the state" );
    eq( get( kf.estimation_error_covariance() ), M2{ 0, 0, 0, 0 }, "a complete noise-free measurement leaves no uncertainty" );
}
