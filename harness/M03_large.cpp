// Products of long vectors and wide matrices.
// @mode real
// @bound row by column vectors of 300, column by row vectors of 17, products 2x130 by 130x2, 1x20 by 20x15 and 20x15 by 15x1, every element value
#include "mat.h"
template< typename T, int N, int M > matrix<T,N,M> many( char const * n )
{
    matrix<T,N,M> A( T(0) );
    for( int i = 0; i < N * M; ++i ) A.at( i ) = vp_any<T>::make( n );
    return A;
}
template< int N, int K, int M > void product()
{
    auto const A = many<double,N,K>( "a" );
    auto const B = many<double,K,M>( "b" );
    auto const P = A * B;
    for( int i = 0; i < N; ++i )
        for( int j = 0; j < M; ++j )
        {
            double s = 0;
            for( int k = 0; k < K; ++k ) s += A( i, k ) * B( k, j );
            vp_eq( P( i, j ), s, "element of the product" );
        }
}
VP_HARNESS( h_dot )
{
    auto const a = many<double,1,300>( "a" );
    auto const b = many<double,300,1>( "b" );
    double s = 0;
    for( int i = 0; i < 300; ++i ) s += a( i ) * b( i );
    const double d = a * b;
    vp_eq( d, s, "product of a row and a column" );
}
VP_HARNESS( h_outer )
{
    auto const a = many<double,17,1>( "a" );
    auto const b = many<double,1,17>( "b" );
    auto const P = a * b;
    for( int i = 0; i < 17; ++i ) for( int j = 0; j < 17; ++j ) vp_eq( P( i, j ), a( i ) * b( j ), "product of a column and a row" );
}
VP_HARNESS( h_2_130_2 ) { product<2,130,2>(); }
VP_HARNESS( h_1_20_15 ) { product<1,20,15>(); }
VP_HARNESS( h_20_15_1 ) { product<20,15,1>(); }
