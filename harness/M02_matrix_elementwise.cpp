// @mode real
// @bound matrices of every shape 1..4 x 1..4 (the scalar forms and differences; sums and 1x1 forms from 2 elements), every element value; element types double (exact reals) and int32_t, int16_t (modular)
#include "mat.h"

template< typename T, int N, int M > void scalar()
{
    matrix<T,N,M> const A = anym<T,N,M>("a");
    const T v = vp_any<T>::make("v");
    auto p = A + v, q = v + A, d = A - v, m = A * v, n = v * A;
    vp_check( (p.rows() == N) & (p.columns() == M) & (m.rows() == N) & (d.columns() == M), "shape of the result" );
    for( int r = 0; r < N; ++r )
        for( int c = 0; c < M; ++c )
        {
            const T a = A( r, c );
            same( p( r, c ), T( a + v ), "A + v adds v to every element" );
            same( q( r, c ), T( a + v ), "v + A adds v to every element" );
            same( d( r, c ), T( a - v ), "A - v subtracts v from every element" );
            same( m( r, c ), T( a * v ), "A * v multiplies every element" );
            same( n( r, c ), T( a * v ), "v * A multiplies every element" );
        }
}

template< typename T, int N, int M > void binary()
{
    matrix<T,N,M> const A = anym<T,N,M>("a"), B = anym<T,N,M>("b");
    auto p = A + B, d = A - B;
    vp_check( (p.rows() == N) & (p.columns() == M) & (d.rows() == N) & (d.columns() == M), "shape of the result" );
    for( int r = 0; r < N; ++r )
        for( int c = 0; c < M; ++c )
        {
            same( p( r, c ), T( A( r, c ) + B( r, c ) ), "A + B adds element by element" );
            same( d( r, c ), T( A( r, c ) - B( r, c ) ), "A - B subtracts element by element" );
        }
}

template< typename T, int N, int M > void with_1x1()
{
    matrix<T,N,M> const A = anym<T,N,M>("a");
    matrix<T,1,1> const s = anym<T,1,1>("s");
    const T v = s( 0 );
    auto p = A + s, q = s + A, m = A * s, n = s * A;
    for( int r = 0; r < N; ++r )
        for( int c = 0; c < M; ++c )
        {
            const T a = A( r, c );
            same( p( r, c ), T( a + v ), "A + 1x1 behaves as adding its element" );
            same( q( r, c ), T( a + v ), "1x1 + A behaves as adding its element" );
            same( m( r, c ), T( a * v ), "A * 1x1 behaves as multiplying by its element" );
            same( n( r, c ), T( a * v ), "1x1 * A behaves as multiplying by its element" );
        }
}

// 1x1 with a scalar gives a scalar
template< typename T > void one_by_one()
{
    matrix<T,1,1> const A = anym<T,1,1>("a"), B = anym<T,1,1>("b");
    const T v = vp_any<T>::make("v"), a = A( 0 ), b = B( 0 );
    T r1 = A + v, r2 = v + A, r3 = A - v, r4 = v - A, r5 = A * v, r6 = v * A;
    same( r1, T( a + v ), "1x1 + v" );
    same( r2, T( a + v ), "v + 1x1" );
    same( r3, T( a - v ), "1x1 - v" );
    same( r4, T( v - a ), "v - 1x1" );
    same( r5, T( a * v ), "1x1 * v" );
    same( r6, T( a * v ), "v * 1x1" );
    matrix<T,1,1> const P = A * B, D = A - B;
    same( P( 0 ), T( a * b ), "1x1 * 1x1" );
    same( D( 0 ), T( a - b ), "1x1 - 1x1" );
}

VP_HARNESS( h_1x1_d ) { one_by_one<double>(); }
VP_HARNESS( h_1x1_i ) { one_by_one<int32_t>(); }
VP_HARNESS( h_1x1_s ) { one_by_one<int16_t>(); }
VP_HARNESS( h_scalar_d12 ) { scalar<double,1,2>(); }
VP_HARNESS( h_binary_d12 ) { binary<double,1,2>(); }
VP_HARNESS( h_with_1x1_d12 ) { with_1x1<double,1,2>(); }
VP_HARNESS( h_scalar_d13 ) { scalar<double,1,3>(); }
VP_HARNESS( h_binary_d13 ) { binary<double,1,3>(); }
VP_HARNESS( h_with_1x1_d13 ) { with_1x1<double,1,3>(); }
VP_HARNESS( h_scalar_i13 ) { scalar<int32_t,1,3>(); }
VP_HARNESS( h_binary_i13 ) { binary<int32_t,1,3>(); }
VP_HARNESS( h_with_1x1_i13 ) { with_1x1<int32_t,1,3>(); }
VP_HARNESS( h_scalar_s13 ) { scalar<int16_t,1,3>(); }
VP_HARNESS( h_binary_s13 ) { binary<int16_t,1,3>(); }
VP_HARNESS( h_with_1x1_s13 ) { with_1x1<int16_t,1,3>(); }
VP_HARNESS( h_scalar_d14 ) { scalar<double,1,4>(); }
VP_HARNESS( h_binary_d14 ) { binary<double,1,4>(); }
VP_HARNESS( h_with_1x1_d14 ) { with_1x1<double,1,4>(); }
VP_HARNESS( h_scalar_d21 ) { scalar<double,2,1>(); }
VP_HARNESS( h_binary_d21 ) { binary<double,2,1>(); }
VP_HARNESS( h_with_1x1_d21 ) { with_1x1<double,2,1>(); }
VP_HARNESS( h_scalar_d22 ) { scalar<double,2,2>(); }
VP_HARNESS( h_binary_d22 ) { binary<double,2,2>(); }
VP_HARNESS( h_with_1x1_d22 ) { with_1x1<double,2,2>(); }
VP_HARNESS( h_scalar_i22 ) { scalar<int32_t,2,2>(); }
VP_HARNESS( h_binary_i22 ) { binary<int32_t,2,2>(); }
VP_HARNESS( h_with_1x1_i22 ) { with_1x1<int32_t,2,2>(); }
VP_HARNESS( h_scalar_s22 ) { scalar<int16_t,2,2>(); }
VP_HARNESS( h_binary_s22 ) { binary<int16_t,2,2>(); }
VP_HARNESS( h_with_1x1_s22 ) { with_1x1<int16_t,2,2>(); }
VP_HARNESS( h_scalar_d23 ) { scalar<double,2,3>(); }
VP_HARNESS( h_binary_d23 ) { binary<double,2,3>(); }
VP_HARNESS( h_with_1x1_d23 ) { with_1x1<double,2,3>(); }
VP_HARNESS( h_scalar_i23 ) { scalar<int32_t,2,3>(); }
VP_HARNESS( h_binary_i23 ) { binary<int32_t,2,3>(); }
VP_HARNESS( h_with_1x1_i23 ) { with_1x1<int32_t,2,3>(); }
VP_HARNESS( h_scalar_s23 ) { scalar<int16_t,2,3>(); }
VP_HARNESS( h_binary_s23 ) { binary<int16_t,2,3>(); }
VP_HARNESS( h_with_1x1_s23 ) { with_1x1<int16_t,2,3>(); }
VP_HARNESS( h_scalar_d24 ) { scalar<double,2,4>(); }
VP_HARNESS( h_binary_d24 ) { binary<double,2,4>(); }
VP_HARNESS( h_with_1x1_d24 ) { with_1x1<double,2,4>(); }
VP_HARNESS( h_scalar_d31 ) { scalar<double,3,1>(); }
VP_HARNESS( h_binary_d31 ) { binary<double,3,1>(); }
VP_HARNESS( h_with_1x1_d31 ) { with_1x1<double,3,1>(); }
VP_HARNESS( h_scalar_i31 ) { scalar<int32_t,3,1>(); }
VP_HARNESS( h_binary_i31 ) { binary<int32_t,3,1>(); }
VP_HARNESS( h_with_1x1_i31 ) { with_1x1<int32_t,3,1>(); }
VP_HARNESS( h_scalar_s31 ) { scalar<int16_t,3,1>(); }
VP_HARNESS( h_binary_s31 ) { binary<int16_t,3,1>(); }
VP_HARNESS( h_with_1x1_s31 ) { with_1x1<int16_t,3,1>(); }
VP_HARNESS( h_scalar_d32 ) { scalar<double,3,2>(); }
VP_HARNESS( h_binary_d32 ) { binary<double,3,2>(); }
VP_HARNESS( h_with_1x1_d32 ) { with_1x1<double,3,2>(); }
VP_HARNESS( h_scalar_d33 ) { scalar<double,3,3>(); }
VP_HARNESS( h_binary_d33 ) { binary<double,3,3>(); }
VP_HARNESS( h_with_1x1_d33 ) { with_1x1<double,3,3>(); }
VP_HARNESS( h_scalar_d34 ) { scalar<double,3,4>(); }
VP_HARNESS( h_binary_d34 ) { binary<double,3,4>(); }
VP_HARNESS( h_with_1x1_d34 ) { with_1x1<double,3,4>(); }
VP_HARNESS( h_scalar_d41 ) { scalar<double,4,1>(); }
VP_HARNESS( h_binary_d41 ) { binary<double,4,1>(); }
VP_HARNESS( h_with_1x1_d41 ) { with_1x1<double,4,1>(); }
VP_HARNESS( h_scalar_d42 ) { scalar<double,4,2>(); }
VP_HARNESS( h_binary_d42 ) { binary<double,4,2>(); }
VP_HARNESS( h_with_1x1_d42 ) { with_1x1<double,4,2>(); }
VP_HARNESS( h_scalar_i42 ) { scalar<int32_t,4,2>(); }
VP_HARNESS( h_binary_i42 ) { binary<int32_t,4,2>(); }
VP_HARNESS( h_with_1x1_i42 ) { with_1x1<int32_t,4,2>(); }
VP_HARNESS( h_scalar_s42 ) { scalar<int16_t,4,2>(); }
VP_HARNESS( h_binary_s42 ) { binary<int16_t,4,2>(); }
VP_HARNESS( h_with_1x1_s42 ) { with_1x1<int16_t,4,2>(); }
VP_HARNESS( h_scalar_d43 ) { scalar<double,4,3>(); }
VP_HARNESS( h_binary_d43 ) { binary<double,4,3>(); }
VP_HARNESS( h_with_1x1_d43 ) { with_1x1<double,4,3>(); }
VP_HARNESS( h_scalar_d44 ) { scalar<double,4,4>(); }
VP_HARNESS( h_binary_d44 ) { binary<double,4,4>(); }
VP_HARNESS( h_with_1x1_d44 ) { with_1x1<double,4,4>(); }
