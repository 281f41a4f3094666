// Element by element operations on matrices with more elements than one byte can count.
// @mode real
// @bound shapes 1x300, 300x1, 20x15, every element value
#include "mat.h"
template< typename T, int N, int M > matrix<T,N,M> many( char const * n )
{
    matrix<T,N,M> A( T(0) );
    for( int i = 0; i < N * M; ++i ) A.at( i ) = vp_any<T>::make( n );
    return A;
}
template< typename T, int N, int M > void large()
{
    auto const A = many<T,N,M>( "a" ), B = many<T,N,M>( "b" );
    const T v = vp_any<T>::make( "v" );
    auto const S = A + B, D = A - B, P = A + v, Q = v + A, R = A - v, X = A * v, Y = v * A;
    for( int i = 0; i < N * M; ++i )
    {
        const T a = A.at( i ), b = B.at( i );
        same( S.at( i ), T( a + b ), "sum" );
        same( D.at( i ), T( a - b ), "difference" );
        same( P.at( i ), T( a + v ), "matrix plus scalar" );
        same( Q.at( i ), T( a + v ), "scalar plus matrix" );
        same( R.at( i ), T( a - v ), "matrix minus scalar" );
        same( X.at( i ), T( a * v ), "matrix times scalar" );
        same( Y.at( i ), T( a * v ), "scalar times matrix" );
    }
}
VP_HARNESS( h_large_row )   { large<double,1,300>(); }
VP_HARNESS( h_large_col )   { large<double,300,1>(); }
VP_HARNESS( h_large_20_15 ) { large<double,20,15>(); }
