// Matrices with more elements than one byte can count.
// @mode real
// @bound shapes 1x300, 300x1, 20x15 and 15x20, every element value (elements of selected places for writing)
// @assume indices are within the shape
#include "mat.h"
template< typename T, int N, int M > void large()
{
    const int places[] = { 0, 1, 127, 128, 129, 254, 255, 256, 257, N * M - 1 };
    const T v = vp_any<T>::make( "v" );
    matrix<T,N,M> A( v );
    vp_check( (A.rows() == N) & (A.columns() == M) & (A.size() == N * M) & (A.end() - A.begin() == N * M), "shape" );
    for( int i = 0; i < N * M; ++i ) same( A.at( i ), v, "construction from a value fills all elements" );
    T e[N * M];
    for( int i = 0; i < N * M; ++i ) A.at( i ) = e[i] = vp_any<T>::make( "e" );
    matrix<T,N,M> B( A ), C( v );
    C = A;
    const int k = places[ vp_choose( "place", 10 ) ];
    B( k / M, k % M ) = v;
    C( k ) = v;
    auto const & CA = A;
    for( int i = 0; i < N * M; ++i )
    {
        same( A( i / M, i % M ), e[i], "element access by row and column" );
        same( CA( i / M, i % M ), e[i], "element access by row and column" );
        same( CA.at( i ), e[i], "element access by index" );
        same( CA( i ), e[i], "element access by index" );
        same( CA[i], e[i], "element access by index" );
        same( A[i], e[i], "element access by index" );
        same( B.at( i ), i == k ? v : e[i], "writing an element changes it and no other" );
        same( C( i / M, i % M ), i == k ? v : e[i], "writing an element changes it and no other" );
    }
    int n = 0;
    for( auto x : A ) { same( x, e[n], "ranged for" ); ++n; }
    vp_check( n == N * M, "ranged for visits every element" );
}
VP_HARNESS( h_large_row )   { large<double,1,300>(); }
VP_HARNESS( h_large_col )   { large<int32_t,300,1>(); }
VP_HARNESS( h_large_20_15 ) { large<double,20,15>(); }
VP_HARNESS( h_large_15_20 ) { large<int32_t,15,20>(); }
