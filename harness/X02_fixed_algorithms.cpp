// The algorithms in fixed-point arithmetic: exact where every value of the calculation is on the grid, and within the rounding
// of their products elsewhere.
// @mode int
// @opt intpoly=1
// @bound fixed_point<int32_t,15> (the format of the examples) and <int16_t,8>: values in units from 1 down to 2^-14, a few up to 2^11 units in magnitude (stated per harness), as matrix elements, coefficients, inputs, states; matrix products of the shapes of a two-state estimator; one estimator update with one and two measurements and an innovation (co)variance that divides exactly; three filter steps, three step functions, cascade of two; rounding: every value of fixed_point<int8_t,3>, two steps
// @assume no value of the calculation leaves the range of the format
#include "vp.h"
#include "num/fixed-point.hpp"
#include "num/matrix.hpp"
#include "dsp/biquad.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/onepole.hpp"
#include "dsp/kalman.hpp"

using num::fixed_point;
using num::matrix;
using X = fixed_point<int32_t,15>;
using S = fixed_point<int16_t,8>;

// a small integer in [lo,hi]
inline int64_t small( char const * n, int lo = -3, int hi = 3 ) { return vp_sym_small( n, lo, hi ); }
// the number v / 2^f
template< typename T > T num_( int64_t v, int f = 0 ) { return T( T::construct, typename T::rep( v * ( int64_t( 1 ) << ( T::fractional_digits - f ) ) ) ); }
// x is exactly v / 2^f
template< typename T > void is( T x, int64_t v, int f, char const * what )
{
    vp_check( int64_t( x.underlying_value() ) == v * ( int64_t( 1 ) << ( T::fractional_digits - f ) ), what );
}

struct I2 { int64_t a, b, c, d; };
struct C2 { int64_t x, y; };
inline I2 mul( I2 p, I2 q ) { return { p.a*q.a + p.b*q.c, p.a*q.b + p.b*q.d, p.c*q.a + p.d*q.c, p.c*q.b + p.d*q.d }; }
inline C2 mul( I2 p, C2 q ) { return { p.a*q.x + p.b*q.y, p.c*q.x + p.d*q.y }; }
inline I2 tr( I2 p ) { return { p.a, p.c, p.b, p.d }; }
inline I2 add( I2 p, I2 q ) { return { p.a+q.a, p.b+q.b, p.c+q.c, p.d+q.d }; }
inline I2 times( I2 p, int64_t k ) { return { p.a*k, p.b*k, p.c*k, p.d*k }; }
inline I2 sub( I2 p, I2 q ) { return { p.a-q.a, p.b-q.b, p.c-q.c, p.d-q.d }; }
template< typename T > matrix<T,2,2> mat( I2 p, int f = 0 )
{
    matrix<T,2,2> m( T( 0 ) );
    m( 0, 0 ) = num_<T>( p.a, f ); m( 0, 1 ) = num_<T>( p.b, f ); m( 1, 0 ) = num_<T>( p.c, f ); m( 1, 1 ) = num_<T>( p.d, f );
    return m;
}
template< typename T > matrix<T,2,1> vec( C2 p, int f = 0 ) { matrix<T,2,1> m( T( 0 ) ); m( 0, 0 ) = num_<T>( p.x, f ); m( 1, 0 ) = num_<T>( p.y, f ); return m; }
template< typename T > matrix<T,1,2> row( C2 p, int f = 0 ) { matrix<T,1,2> m( T( 0 ) ); m( 0, 0 ) = num_<T>( p.x, f ); m( 0, 1 ) = num_<T>( p.y, f ); return m; }
template< typename T > matrix<T,1,1> one( int64_t v, int f = 0 ) { return matrix<T,1,1>( num_<T>( v, f ) ); }
template< typename T > void is( matrix<T,2,2> const & m, I2 p, int f, char const * what )
{
    is( m( 0, 0 ), p.a, f, what ); is( m( 0, 1 ), p.b, f, what ); is( m( 1, 0 ), p.c, f, what ); is( m( 1, 1 ), p.d, f, what );
}
template< typename T > void is( matrix<T,2,1> const & m, C2 p, int f, char const * what ) { is( m( 0, 0 ), p.x, f, what ); is( m( 1, 0 ), p.y, f, what ); }
inline I2 any2( char const * n, int lo = -3, int hi = 3 ) { const auto a = small( n, lo, hi ), b = small( n, lo, hi ), c = small( n, lo, hi ), d = small( n, lo, hi ); return { a, b, c, d }; }
inline I2 sym2( char const * n, int lo, int hi ) { const auto a = small( n, lo, hi ), b = small( n, lo, hi ), d = small( n, lo, hi ); return { a, b, b, d }; }
inline C2 anyv( char const * n, int lo = -3, int hi = 3 ) { const auto a = small( n, lo, hi ), b = small( n, lo, hi ); return { a, b }; }

// matrices of values in units of 2^-f up to m
template< typename T, int f, int m > void matrices()
{
    const I2 p = any2( "p", -m, m ), q = any2( "q", -m, m );
    const C2 v = anyv( "v", -m, m ), w = anyv( "w", -m, m );
    const auto P = mat<T>( p, f ), Q = mat<T>( q, f );
    is( P + Q, add( p, q ), f, "sum of matrices" );
    is( P - Q, sub( p, q ), f, "difference of matrices" );
    is( P * Q, mul( p, q ), 2*f, "product of matrices" );
    is( P * vec<T>( v, f ), mul( p, v ), 2*f, "product of a matrix and a column" );
    is( transposed( P ), tr( p ), f, "transposed matrix" );
    is( T( row<T>( w, f ) * vec<T>( v, f ) ), w.x * v.x + w.y * v.y, 2*f, "inner product" );
    const matrix<T,2,2> o = vec<T>( v, f ) * row<T>( w, f );
    is( o, I2{ v.x * w.x, v.x * w.y, v.y * w.x, v.y * w.y }, 2*f, "outer product" );
    is( num::eye<T,2>(), I2{ 1, 0, 0, 1 }, 0, "identity" );
}
// products of values with different numbers of fractional bits; the shapes of an estimator with two states and three inputs
template< typename T, int f, int m, int g, int l > void products()
{
    const I2 p = any2( "p", -m, m ), q = any2( "q", -l, l );
    is( mat<T>( p, f ) * mat<T>( q, g ), mul( p, q ), f + g, "product of matrices" );
    is( mat<T>( q, g ) * mat<T>( p, f ), mul( q, p ), f + g, "product of matrices" );
    matrix<T,2,3> b( T( 0 ) );
    matrix<T,3,1> u( T( 0 ) );
    int64_t e[6], w[3];
    for( int i = 0; i < 6; ++i ) b.at( i ) = num_<T>( e[i] = small( "e", -m, m ), f );
    for( int i = 0; i < 3; ++i ) u.at( i ) = num_<T>( w[i] = small( "w", -l, l ), g );
    is( b * u, C2{ e[0]*w[0] + e[1]*w[1] + e[2]*w[2], e[3]*w[0] + e[4]*w[1] + e[5]*w[2] }, f + g, "product of a matrix with three columns and a column" );
}
VP_HARNESS( h_products_i32 ) { products<X,4,640,12,30000>(); }
VP_HARNESS( h_products_i32_other ) { products<X,2,100,14,16383>(); }
VP_HARNESS( h_products_i16 ) { products<S,2,20,5,100>(); }
VP_HARNESS( h_matrices_i32 ) { matrices<X,8,2560>(); }
VP_HARNESS( h_matrices_i16 ) { matrices<S,3,40>(); }

template< typename T > void inverse()
{
    const int64_t a = small( "a" ), b = small( "b" ), c = small( "c" );
    const I2 p = { a, b, b, c };
    const int64_t det = p.a * p.d - p.b * p.c;
    const int64_t d = int64_t( 1 ) << vp_choose( "power", 4 );
    const bool negative = vp_choose( "negative", 2 );
    vp_assume( det == ( negative ? -d : d ) );
    const int64_t s = ( negative ? -8 : 8 ) / d;            // 8 / det
    is( inverted( mat<T>( p ) ), I2{ p.d * s, -p.b * s, -p.c * s, p.a * s }, 3, "inverse of a symmetric matrix whose determinant is a power of two" );
}
VP_HARNESS( h_inverse_i32 ) { inverse<X>(); }
VP_HARNESS( h_inverse_i16 ) { inverse<S>(); }

// coefficients in units of 2^-f up to m, integral inputs up to l
template< typename T, int f, int m, int l, typename Step > void biquad( Step step )
{
    const int64_t b0 = small( "b0", -m, m ), b1 = small( "b1", -m, m ), b2 = small( "b2", -m, m ), a1 = small( "a1", -m, m ), a2 = small( "a2", -m, m );
    dsp::BiQuadT<T> q( { num_<T>( b0, f ), num_<T>( b1, f ), num_<T>( b2, f ) }, { num_<T>( a1, f ), num_<T>( a2, f ) } );
    const int64_t x0 = small( "x0", -l, l ), x1 = small( "x1", -l, l ), x2 = small( "x2", -l, l ), u = 1 << f;
    const int64_t y0 = b0 * x0;                                                           // f
    const int64_t y1 = u * ( b0 * x1 + b1 * x0 ) - a1 * y0;                               // 2f
    const int64_t y2 = u * u * ( b0 * x2 + b1 * x1 + b2 * x0 ) - a1 * y1 - u * a2 * y0;   // 3f
    is( step( q, num_<T>( x0 ) ), y0, f, "first output" );
    is( step( q, num_<T>( x1 ) ), y1, 2*f, "second output" );
    is( step( q, num_<T>( x2 ) ), y2, 3*f, "third output" );
}
VP_HARNESS( h_biquad_i32 )            { biquad<X,4,64,100>( []( auto & q, auto x ) { return q.step( x ); } ); }
VP_HARNESS( h_biquad_df2_i32 )        { biquad<X,4,64,100>( []( auto & q, auto x ) { return q.step_df2( x ); } ); }
VP_HARNESS( h_biquad_transposed_i32 ) { biquad<X,4,64,100>( []( auto & q, auto x ) { return q.step_df2_transposed( x ); } ); }
VP_HARNESS( h_biquad_i16 )            { biquad<S,2,6,6>( []( auto & q, auto x ) { return q.step( x ); } ); }
VP_HARNESS( h_biquad_transposed_i16 ) { biquad<S,2,6,6>( []( auto & q, auto x ) { return q.step_df2_transposed( x ); } ); }

template< typename T, int f, int m, int l > void cascade()
{
    dsp::BiQuadCascadeT<T,3> c;
    int64_t b[2], d[2], a[2];
    for( int i = 0; i < 2; ++i )
    {
        b[i] = small( "b", -m, m ); d[i] = small( "d", -m, m ); a[i] = small( "a", -m, m );
        c.append( dsp::BiQuadT<T>( { num_<T>( b[i], f ), num_<T>( d[i], f ), num_<T>( 0 ) }, { num_<T>( a[i], f ), num_<T>( 0 ) } ) );
    }
    const int64_t x0 = small( "x0", -l, l ), x1 = small( "x1", -l, l ), u = 1 << f;
    const int64_t u0 = b[0] * x0, u1 = u * ( b[0] * x1 + d[0] * x0 ) - a[0] * u0;         // f, 2f
    const int64_t y0 = b[1] * u0, y1 = b[1] * u1 + u * d[1] * u0 - a[1] * y0;             // 2f, 3f
    is( step( c, num_<T>( x0 ) ), y0, 2*f, "first output of a cascade" );
    is( step( c, num_<T>( x1 ) ), y1, 3*f, "second output of a cascade" );
}
VP_HARNESS( h_cascade_i32 ) { cascade<X,4,64,100>(); }
VP_HARNESS( h_cascade_i16 ) { cascade<S,2,6,6>(); }

template< typename T, int f, int m, int l > void onepole()
{
    const int64_t b0 = small( "b0", -m, m ), a1 = small( "a1", -m, m ), u = 1 << f;
    dsp::OnePoleT<T> q( { num_<T>( b0, f ) }, { num_<T>( a1, f ) } );
    const int64_t x0 = small( "x0", -l, l ), x1 = small( "x1", -l, l ), x2 = small( "x2", -l, l );
    const int64_t y0 = b0 * x0, y1 = u * b0 * x1 - a1 * y0, y2 = u * u * b0 * x2 - a1 * y1;
    is( q.step( num_<T>( x0 ) ), y0, f, "first output" );
    is( q.step( num_<T>( x1 ) ), y1, 2*f, "second output" );
    is( q.step( num_<T>( x2 ) ), y2, 3*f, "third output" );
}
VP_HARNESS( h_onepole_i32 ) { onepole<X,4,64,100>(); }
VP_HARNESS( h_onepole_i16 ) { onepole<S,2,6,6>(); }

// one estimator update with values in units of 2^-f up to m; the innovation variance is 1, 2, 4 or their negatives, so that its
// inverse is on the grid
template< typename T, int f, int m > void kalman1()
{
    const I2 A = any2( "A", -m, m ), P = sym2( "P", -m, m ), Q = sym2( "Q", -m, m );
    const C2 B = anyv( "B", -m, m ), h = anyv( "h", -m, m ), x = anyv( "x", -m, m );
    const int64_t u = small( "u", -m, m ), z = small( "z", -m, m ), one_ = 1;
    const int64_t g = one_ << vp_choose( "power", 3 );
    const int64_t s = vp_choose( "negative", 2 ) ? -g : g, n = 4 / s;                     // n / 4 is the inverse
    const C2 xm = { A.a*x.x + A.b*x.y + B.x*u, A.c*x.x + A.d*x.y + B.y*u };               // 2f
    const I2 Pm = add( mul( mul( A, P ), tr( A ) ), times( Q, one_ << 2*f ) );            // 3f
    const C2 ph = mul( Pm, h ), hp = mul( tr( Pm ), h );                                  // 4f
    const C2 k = { ph.x * n, ph.y * n };                                                  // 4f + 2
    const int64_t e = z * ( one_ << 2*f ) - h.x*xm.x - h.y*xm.y;                          // 3f
    const int64_t r = s * ( one_ << 5*f ) - h.x*ph.x - h.y*ph.y;                          // 5f
    num::kalman<T,2,1,1> kf( num_<T>( 1, 1 ), mat<T>( A, f ), vec<T>( B, f ), row<T>( h, f ), mat<T>( Q, f ), one<T>( r, 5*f ), mat<T>( P, f ), vec<T>( x, f ) );
    kf.update( one<T>( u, f ), one<T>( z, f ) );
    is( kf.kalman_gain(), k, 4*f + 2, "gain" );
    const int64_t w = one_ << ( 5*f + 2 );
    is( kf.system_state(), C2{ w*xm.x + k.x*e, w*xm.y + k.y*e }, 7*f + 2, "state" );
    is( kf.estimation_error_covariance(), I2{ w*Pm.a - k.x*hp.x, w*Pm.b - k.x*hp.y, w*Pm.c - k.y*hp.x, w*Pm.d - k.y*hp.y }, 8*f + 2, "covariance" );
    is( kf.time(), 1, 1, "time" );
}
VP_HARNESS( h_kalman1_i32 ) { kalman1<X,1,4>(); }
VP_HARNESS( h_kalman1_i16 ) { kalman1<S,0,1>(); }

template< typename T, int f, int m > void kalman2()
{
    static const I2 list[] = { { 1, 0, 0, 1 }, { 2, 1, 1, 1 }, { 2, 0, 0, 4 }, { 1, -2, -2, 2 } };
    const I2 s = list[ vp_choose( "innovation", 4 ) ];
    const int64_t det = s.a * s.d - s.b * s.c, n = 8 / det, one_ = 1;                     // n / 8 is the inverse of the determinant
    const I2 A = any2( "A", -m, m ), P = sym2( "P", -m, m ), Q = sym2( "Q", -m, m ), H = any2( "H", -m, m );
    const C2 B = anyv( "B", -m, m ), x = anyv( "x", -m, m ), z = anyv( "z", -m, m );
    const int64_t u = small( "u", -m, m );
    const C2 ax = mul( A, x ), xm = { ax.x + B.x*u, ax.y + B.y*u };                       // 2f
    const I2 Pm = add( mul( mul( A, P ), tr( A ) ), times( Q, one_ << 2*f ) );            // 3f
    const I2 K = mul( mul( Pm, tr( H ) ), I2{ s.d*n, -s.b*n, -s.c*n, s.a*n } );           // 4f + 3
    const C2 hx = mul( H, xm ), ke = mul( K, C2{ z.x*( one_ << 2*f ) - hx.x, z.y*( one_ << 2*f ) - hx.y } );
    const I2 kh = mul( K, mul( H, Pm ) );
    const I2 R = sub( times( s, one_ << 5*f ), mul( mul( H, Pm ), tr( H ) ) );            // 5f
    num::kalman<T,2,2,1> kf( num_<T>( 1 ), mat<T>( A, f ), vec<T>( B, f ), mat<T>( H, f ), mat<T>( Q, f ), mat<T>( R, 5*f ), mat<T>( P, f ), vec<T>( x, f ) );
    kf.update( one<T>( u, f ), vec<T>( z, f ) );
    is( kf.kalman_gain(), K, 4*f + 3, "gain" );
    const int64_t w = one_ << ( 5*f + 3 );
    is( kf.system_state(), C2{ w*xm.x + ke.x, w*xm.y + ke.y }, 7*f + 3, "state" );
    is( kf.estimation_error_covariance(), sub( times( Pm, w ), kh ), 8*f + 3, "covariance" );
}
VP_HARNESS( h_kalman2_i32 ) { kalman2<X,1,3>(); }
