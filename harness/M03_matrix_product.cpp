// @mode real
// @bound every conforming pair N x K, K x M with N, K, M in 1..4, every element value; element types double (exact reals) and, for some shapes, int32_t (modular)
#include "mat.h"

template< typename T > matrix<T,1,1> as_matrix( T v ) { return matrix<T,1,1>( v ); }
template< typename T, int N, int M > matrix<T,N,M> as_matrix( matrix<T,N,M> const & A ) { return A; }

template< typename T, int N, int K, int M > void product()
{
    matrix<T,N,K> const A = anym<T,N,K>("a");
    matrix<T,K,M> const B = anym<T,K,M>("b");
    matrix<T,N,M> const P = as_matrix( A * B );        // a row times a column is a scalar
    for( int r = 0; r < N; ++r )
        for( int c = 0; c < M; ++c )
        {
            T s = T( 0 );
            for( int k = 0; k < K; ++k )
                s = T( s + A( r, k ) * B( k, c ) );
            same( P( r, c ), s, "element (r,c) is the sum over k of A(r,k) B(k,c)" );
        }
}

template< int N > void laws()
{
    matrix<double,N,N> const A = anym<double,N,N>("a"), B = anym<double,N,N>("b"), C = anym<double,N,N>("c");
    colvec<double,N> const x = anym<double,N,1>("x");
    rowvec<double,N> const y = anym<double,1,N>("y");
    matrix<double,N,N> const L = ( A * B ) * C, R = A * ( B * C ), D = A * ( B + C ), E = A * B + A * C;
    colvec<double,N> const u = ( A * B ) * x, w = A * ( B * x );
    rowvec<double,N> const yu = y * ( A * B ), yw = ( y * A ) * B;
    for( int i = 0; i < N * N; ++i )
    {
        vp_eq( L.at( i ), R.at( i ), "the product is associative" );
        vp_eq( D.at( i ), E.at( i ), "the product distributes over the sum" );
    }
    for( int i = 0; i < N; ++i )
    {
        vp_eq( u( i ), w( i ), "(AB)x == A(Bx)" );
        vp_eq( yu( i ), yw( i ), "y(AB) == (yA)B" );
    }
    const double s1 = y * ( A * x ), s2 = ( y * A ) * x;
    vp_eq( s1, s2, "y(Ax) == (yA)x" );
}

VP_HARNESS( h_laws_2 ) { laws<2>(); }
VP_HARNESS( h_laws_3 ) { laws<3>(); }
VP_HARNESS( h_d111 ) { product<double,1,1,1>(); }
VP_HARNESS( h_d112 ) { product<double,1,1,2>(); }
VP_HARNESS( h_d113 ) { product<double,1,1,3>(); }
VP_HARNESS( h_d114 ) { product<double,1,1,4>(); }
VP_HARNESS( h_d121 ) { product<double,1,2,1>(); }
VP_HARNESS( h_d122 ) { product<double,1,2,2>(); }
VP_HARNESS( h_d123 ) { product<double,1,2,3>(); }
VP_HARNESS( h_d124 ) { product<double,1,2,4>(); }
VP_HARNESS( h_d131 ) { product<double,1,3,1>(); }
VP_HARNESS( h_d132 ) { product<double,1,3,2>(); }
VP_HARNESS( h_d133 ) { product<double,1,3,3>(); }
VP_HARNESS( h_d134 ) { product<double,1,3,4>(); }
VP_HARNESS( h_d141 ) { product<double,1,4,1>(); }
VP_HARNESS( h_d142 ) { product<double,1,4,2>(); }
VP_HARNESS( h_d143 ) { product<double,1,4,3>(); }
VP_HARNESS( h_d144 ) { product<double,1,4,4>(); }
VP_HARNESS( h_d211 ) { product<double,2,1,1>(); }
VP_HARNESS( h_d212 ) { product<double,2,1,2>(); }
VP_HARNESS( h_d213 ) { product<double,2,1,3>(); }
VP_HARNESS( h_d214 ) { product<double,2,1,4>(); }
VP_HARNESS( h_d221 ) { product<double,2,2,1>(); }
VP_HARNESS( h_d222 ) { product<double,2,2,2>(); }
VP_HARNESS( h_d223 ) { product<double,2,2,3>(); }
VP_HARNESS( h_d224 ) { product<double,2,2,4>(); }
VP_HARNESS( h_d231 ) { product<double,2,3,1>(); }
VP_HARNESS( h_d232 ) { product<double,2,3,2>(); }
VP_HARNESS( h_d233 ) { product<double,2,3,3>(); }
VP_HARNESS( h_d234 ) { product<double,2,3,4>(); }
VP_HARNESS( h_d241 ) { product<double,2,4,1>(); }
VP_HARNESS( h_d242 ) { product<double,2,4,2>(); }
VP_HARNESS( h_d243 ) { product<double,2,4,3>(); }
VP_HARNESS( h_d244 ) { product<double,2,4,4>(); }
VP_HARNESS( h_d311 ) { product<double,3,1,1>(); }
VP_HARNESS( h_d312 ) { product<double,3,1,2>(); }
VP_HARNESS( h_d313 ) { product<double,3,1,3>(); }
VP_HARNESS( h_d314 ) { product<double,3,1,4>(); }
VP_HARNESS( h_d321 ) { product<double,3,2,1>(); }
VP_HARNESS( h_d322 ) { product<double,3,2,2>(); }
VP_HARNESS( h_d323 ) { product<double,3,2,3>(); }
VP_HARNESS( h_d324 ) { product<double,3,2,4>(); }
VP_HARNESS( h_d331 ) { product<double,3,3,1>(); }
VP_HARNESS( h_d332 ) { product<double,3,3,2>(); }
VP_HARNESS( h_d333 ) { product<double,3,3,3>(); }
VP_HARNESS( h_d334 ) { product<double,3,3,4>(); }
VP_HARNESS( h_d341 ) { product<double,3,4,1>(); }
VP_HARNESS( h_d342 ) { product<double,3,4,2>(); }
VP_HARNESS( h_d343 ) { product<double,3,4,3>(); }
VP_HARNESS( h_d344 ) { product<double,3,4,4>(); }
VP_HARNESS( h_d411 ) { product<double,4,1,1>(); }
VP_HARNESS( h_d412 ) { product<double,4,1,2>(); }
VP_HARNESS( h_d413 ) { product<double,4,1,3>(); }
VP_HARNESS( h_d414 ) { product<double,4,1,4>(); }
VP_HARNESS( h_d421 ) { product<double,4,2,1>(); }
VP_HARNESS( h_d422 ) { product<double,4,2,2>(); }
VP_HARNESS( h_d423 ) { product<double,4,2,3>(); }
VP_HARNESS( h_d424 ) { product<double,4,2,4>(); }
VP_HARNESS( h_d431 ) { product<double,4,3,1>(); }
VP_HARNESS( h_d432 ) { product<double,4,3,2>(); }
VP_HARNESS( h_d433 ) { product<double,4,3,3>(); }
VP_HARNESS( h_d434 ) { product<double,4,3,4>(); }
VP_HARNESS( h_d441 ) { product<double,4,4,1>(); }
VP_HARNESS( h_d442 ) { product<double,4,4,2>(); }
VP_HARNESS( h_d443 ) { product<double,4,4,3>(); }
VP_HARNESS( h_d444 ) { product<double,4,4,4>(); }
VP_HARNESS( h_i222 ) { product<int32_t,2,2,2>(); }
VP_HARNESS( h_i232 ) { product<int32_t,2,3,2>(); }
VP_HARNESS( h_i123 ) { product<int32_t,1,2,3>(); }
VP_HARNESS( h_i321 ) { product<int32_t,3,2,1>(); }
VP_HARNESS( h_i313 ) { product<int32_t,3,1,3>(); }
VP_HARNESS( h_i131 ) { product<int32_t,1,3,1>(); }
VP_HARNESS( h_i333 ) { product<int32_t,3,3,3>(); }
