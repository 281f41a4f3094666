// @mode real
// @bound 2x2 matrices, row and column vectors of length 2..6, identity matrices of size 1..6, every element value; element types double and int32_t
#include "mat.h"

template< typename T > void t22()
{
    matrix<T,2,2> const A = anym<T,2,2>("a"), B = anym<T,2,2>("b");
    matrix<T,2,2> const t = transposed( A ), tt = transposed( t ), p = transposed( A * B ), q = transposed( B ) * transposed( A ), s = transposed( A + B );
    for( int r = 0; r < 2; ++r )
        for( int c = 0; c < 2; ++c )
        {
            same( t( r, c ), A( c, r ), "transposition exchanges rows and columns" );
            same( tt( r, c ), A( r, c ), "transposing twice is the identity" );
            same( p( r, c ), q( r, c ), "(AB)' == B'A'" );
            same( s( r, c ), T( A( c, r ) + B( c, r ) ), "(A+B)' == A'+B'" );
        }
}

template< typename T, int N > void vectors()
{
    colvec<T,N> const x = anym<T,N,1>("x");
    rowvec<T,N> const y = anym<T,1,N>("y");
    rowvec<T,N> const xt = transposed( x );
    colvec<T,N> const yt = transposed( y );
    colvec<T,N> const xtt = transposed( xt );
    for( int i = 0; i < N; ++i )
    {
        same( xt( 0, i ), x( i, 0 ), "a transposed column is the row of its elements" );
        same( yt( i, 0 ), y( 0, i ), "a transposed row is the column of its elements" );
        same( xtt( i ), x( i ), "transposing a vector twice" );
    }
    const T d1 = y * x, d2 = transposed( x ) * transposed( y );
    same( d1, d2, "yx == x'y'" );
}

template< typename T, int N > void identity()
{
    matrix<T,N,N> const I = num::eye<T,N>();
    vp_check( (I.rows() == N) & (I.columns() == N), "the identity is square" );
    for( int r = 0; r < N; ++r )
        for( int c = 0; c < N; ++c )
            same( I( r, c ), T( r == c ? 1 : 0 ), "ones on the diagonal, zeros elsewhere" );
}

template< typename T, int N > void neutral()
{
    matrix<T,N,N> const I = num::eye<T,N>(), A = anym<T,N,N>("a"), L = I * A, R = A * I;
    colvec<T,N> const x = anym<T,N,1>("x"), y = I * x;
    for( int i = 0; i < N * N; ++i )
    {
        same( L.at( i ), A.at( i ), "IA == A" );
        same( R.at( i ), A.at( i ), "AI == A" );
    }
    for( int i = 0; i < N; ++i )
        same( y( i ), x( i ), "Ix == x" );
}

VP_HARNESS( h_t22_d ) { t22<double>(); }
VP_HARNESS( h_t22_i ) { t22<int32_t>(); }
VP_HARNESS( h_neutral_2 ) { neutral<double,2>(); }
VP_HARNESS( h_neutral_3 ) { neutral<double,3>(); }
VP_HARNESS( h_neutral_4 ) { neutral<double,4>(); }
VP_HARNESS( h_neutral_i2 ) { neutral<int32_t,2>(); }
VP_HARNESS( h_neutral_i3 ) { neutral<int32_t,3>(); }
VP_HARNESS( h_eye_d1 ) { identity<double,1>(); }
VP_HARNESS( h_eye_i1 ) { identity<int32_t,1>(); }
VP_HARNESS( h_eye_d2 ) { identity<double,2>(); }
VP_HARNESS( h_vec_d2 ) { vectors<double,2>(); }
VP_HARNESS( h_eye_i2 ) { identity<int32_t,2>(); }
VP_HARNESS( h_vec_i2 ) { vectors<int32_t,2>(); }
VP_HARNESS( h_eye_d3 ) { identity<double,3>(); }
VP_HARNESS( h_vec_d3 ) { vectors<double,3>(); }
VP_HARNESS( h_eye_i3 ) { identity<int32_t,3>(); }
VP_HARNESS( h_vec_i3 ) { vectors<int32_t,3>(); }
VP_HARNESS( h_eye_d4 ) { identity<double,4>(); }
VP_HARNESS( h_vec_d4 ) { vectors<double,4>(); }
VP_HARNESS( h_eye_i4 ) { identity<int32_t,4>(); }
VP_HARNESS( h_vec_i4 ) { vectors<int32_t,4>(); }
VP_HARNESS( h_eye_d5 ) { identity<double,5>(); }
VP_HARNESS( h_vec_d5 ) { vectors<double,5>(); }
VP_HARNESS( h_eye_i5 ) { identity<int32_t,5>(); }
VP_HARNESS( h_vec_i5 ) { vectors<int32_t,5>(); }
VP_HARNESS( h_eye_d6 ) { identity<double,6>(); }
VP_HARNESS( h_vec_d6 ) { vectors<double,6>(); }
VP_HARNESS( h_eye_i6 ) { identity<int32_t,6>(); }
VP_HARNESS( h_vec_i6 ) { vectors<int32_t,6>(); }
