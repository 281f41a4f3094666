// @mode real
// @bound matrices of every shape 1..4 x 1..4, every element value, every in-range index; element types double and int32_t
// @assume indices are within the shape; an initializer list has at most rows*columns elements
#include "mat.h"

template< typename T, int N, int M > void access()
{
    matrix<T,N,M> A = anym<T,N,M>("a");
    matrix<T,N,M> const & C = A;
    vp_check( (A.rows() == N) & (A.columns() == M) & (A.size() == N * M), "shape" );
    const int r = vp_range( "r", 0, N - 1 ), c = vp_range( "c", 0, M - 1 );
    const T v = A( r, c );
    same( C( r, c ), v, "const element access" );
    same( C.at( r, c ), v, "at(row,col)" );
    same( A.at( r, c ), v, "at(row,col) to modify" );
    same( C( r * M + c ), v, "row-major linear access" );
    same( C[ r * M + c ], v, "row-major subscript" );
    same( C.at( r * M + c ), v, "row-major at" );
    same( *( C.begin() + r * M + c ), v, "iteration is row-major" );
    same( *( A.begin() + r * M + c ), v, "iteration to modify is row-major" );
    vp_check( (C.end() - C.begin() == N * M) & (A.end() - A.begin() == N * M), "iteration covers all elements" );
}

template< typename T, int N, int M > void modify()
{
    matrix<T,N,M> A = anym<T,N,M>("a");
    matrix<T,N,M> B( A );
    const int r = vp_range( "r", 0, N - 1 ), c = vp_range( "c", 0, M - 1 );
    const T v = vp_any<T>::make("v");
    switch( vp_choose( "how", 6 ) )
    {
    case 0: B( r, c ) = v; break;
    case 1: B.at( r, c ) = v; break;
    case 2: B( r * M + c ) = v; break;
    case 3: B[ r * M + c ] = v; break;
    case 4: B.at( r * M + c ) = v; break;
    case 5: *( B.begin() + r * M + c ) = v; break;
    }
    for( int i = 0; i < N; ++i )
        for( int j = 0; j < M; ++j )
            same( B( i, j ), ( i == r && j == c ) ? v : A( i, j ), "writing an element changes it and no other" );
}

template< typename T, int N, int M > void construct()
{
    const T v = vp_any<T>::make("v");
    matrix<T,N,M> A( v );
    for( int i = 0; i < N * M; ++i )
        same( A.at( i ), v, "construction from a value fills all elements" );
    matrix<T,N,M> B = anym<T,N,M>("b");
    matrix<T,N,M> C( B ), D( v ), E( v ), F( v ), X( std::move( C ) );
    D = B;
    E = D = B;
    F = std::move( E );
    for( int i = 0; i < N * M; ++i )
    {
        same( X.at( i ), B.at( i ), "copy and move construction" );
        same( D.at( i ), B.at( i ), "copy assignment" );
        same( F.at( i ), B.at( i ), "move assignment" );
    }
    D.at( 0 ) = v;
    same( B.at( 0 ), X.at( 0 ), "a copy does not alias the original" );
}

template< typename T > void lists()
{
    const T a = vp_any<T>::make("a"), b = vp_any<T>::make("b"), c = vp_any<T>::make("c"), d = vp_any<T>::make("d"), e = vp_any<T>::make("e"), f = vp_any<T>::make("f");
    matrix<T,2,3> A = { a, b, c, d, e, f };
    same( A(0,0), a, "initializer list is row-major (0,0)" );
    same( A(0,1), b, "initializer list is row-major (0,1)" );
    same( A(0,2), c, "initializer list is row-major (0,2)" );
    same( A(1,0), d, "initializer list is row-major (1,0)" );
    same( A(1,1), e, "initializer list is row-major (1,1)" );
    same( A(1,2), f, "initializer list is row-major (1,2)" );
    matrix<T,3,2> B = { a, b, c, d };
    same( B(1,1), d, "a short initializer list" );
    same( B(2,0), T(0), "elements not listed are zero" );
    same( B(2,1), T(0), "elements not listed are zero" );
    colvec<T,3> x = { a, b, c };
    rowvec<T,3> y = { a, b, c };
    for( int i = 0; i < 3; ++i )
    {
        same( x( i ), A( i ), "column vector from a list" );
        same( y( i ), A( i ), "row vector from a list" );
        same( x( i, 0 ), A( i ), "column vector shape" );
        same( y( 0, i ), A( i ), "row vector shape" );
    }
    vp_check( (x.rows() == 3) & (x.columns() == 1) & (y.rows() == 1) & (y.columns() == 3), "vector shapes" );
}

// ranged for sees every element once, in order, and modifies in place
template< typename T, int N, int M > void iterate()
{
    matrix<T,N,M> A = anym<T,N,M>("a");
    matrix<T,N,M> const B( A );
    int i = 0;
    for( auto x : B )
    {
        same( x, A.at( i ), "ranged for" );
        ++i;
    }
    vp_check( i == N * M, "ranged for visits every element" );
    for( auto & x : A )
        x = x + T(1);
    for( int k = 0; k < N * M; ++k )
        same( A.at( k ), T( B.at( k ) + T(1) ), "ranged for modifies in place" );
}

VP_HARNESS( h_lists_d ) { lists<double>(); }
VP_HARNESS( h_lists_i ) { lists<int32_t>(); }
VP_HARNESS( h_access_d11 ) { access<double,1,1>(); }
VP_HARNESS( h_modify_d11 ) { modify<double,1,1>(); }
VP_HARNESS( h_construct_d11 ) { construct<double,1,1>(); }
VP_HARNESS( h_iterate_d11 ) { iterate<double,1,1>(); }
VP_HARNESS( h_access_i11 ) { access<int32_t,1,1>(); }
VP_HARNESS( h_modify_i11 ) { modify<int32_t,1,1>(); }
VP_HARNESS( h_construct_i11 ) { construct<int32_t,1,1>(); }
VP_HARNESS( h_iterate_i11 ) { iterate<int32_t,1,1>(); }
VP_HARNESS( h_access_d12 ) { access<double,1,2>(); }
VP_HARNESS( h_modify_d12 ) { modify<double,1,2>(); }
VP_HARNESS( h_construct_d12 ) { construct<double,1,2>(); }
VP_HARNESS( h_iterate_d12 ) { iterate<double,1,2>(); }
VP_HARNESS( h_access_d13 ) { access<double,1,3>(); }
VP_HARNESS( h_modify_d13 ) { modify<double,1,3>(); }
VP_HARNESS( h_construct_d13 ) { construct<double,1,3>(); }
VP_HARNESS( h_iterate_d13 ) { iterate<double,1,3>(); }
VP_HARNESS( h_access_i13 ) { access<int32_t,1,3>(); }
VP_HARNESS( h_modify_i13 ) { modify<int32_t,1,3>(); }
VP_HARNESS( h_construct_i13 ) { construct<int32_t,1,3>(); }
VP_HARNESS( h_iterate_i13 ) { iterate<int32_t,1,3>(); }
VP_HARNESS( h_access_d14 ) { access<double,1,4>(); }
VP_HARNESS( h_modify_d14 ) { modify<double,1,4>(); }
VP_HARNESS( h_construct_d14 ) { construct<double,1,4>(); }
VP_HARNESS( h_iterate_d14 ) { iterate<double,1,4>(); }
VP_HARNESS( h_access_d21 ) { access<double,2,1>(); }
VP_HARNESS( h_modify_d21 ) { modify<double,2,1>(); }
VP_HARNESS( h_construct_d21 ) { construct<double,2,1>(); }
VP_HARNESS( h_iterate_d21 ) { iterate<double,2,1>(); }
VP_HARNESS( h_access_d22 ) { access<double,2,2>(); }
VP_HARNESS( h_modify_d22 ) { modify<double,2,2>(); }
VP_HARNESS( h_construct_d22 ) { construct<double,2,2>(); }
VP_HARNESS( h_iterate_d22 ) { iterate<double,2,2>(); }
VP_HARNESS( h_access_i22 ) { access<int32_t,2,2>(); }
VP_HARNESS( h_modify_i22 ) { modify<int32_t,2,2>(); }
VP_HARNESS( h_construct_i22 ) { construct<int32_t,2,2>(); }
VP_HARNESS( h_iterate_i22 ) { iterate<int32_t,2,2>(); }
VP_HARNESS( h_access_d23 ) { access<double,2,3>(); }
VP_HARNESS( h_modify_d23 ) { modify<double,2,3>(); }
VP_HARNESS( h_construct_d23 ) { construct<double,2,3>(); }
VP_HARNESS( h_iterate_d23 ) { iterate<double,2,3>(); }
VP_HARNESS( h_access_i23 ) { access<int32_t,2,3>(); }
VP_HARNESS( h_modify_i23 ) { modify<int32_t,2,3>(); }
VP_HARNESS( h_construct_i23 ) { construct<int32_t,2,3>(); }
VP_HARNESS( h_iterate_i23 ) { iterate<int32_t,2,3>(); }
VP_HARNESS( h_access_d24 ) { access<double,2,4>(); }
VP_HARNESS( h_modify_d24 ) { modify<double,2,4>(); }
VP_HARNESS( h_construct_d24 ) { construct<double,2,4>(); }
VP_HARNESS( h_iterate_d24 ) { iterate<double,2,4>(); }
VP_HARNESS( h_access_d31 ) { access<double,3,1>(); }
VP_HARNESS( h_modify_d31 ) { modify<double,3,1>(); }
VP_HARNESS( h_construct_d31 ) { construct<double,3,1>(); }
VP_HARNESS( h_iterate_d31 ) { iterate<double,3,1>(); }
VP_HARNESS( h_access_i31 ) { access<int32_t,3,1>(); }
VP_HARNESS( h_modify_i31 ) { modify<int32_t,3,1>(); }
VP_HARNESS( h_construct_i31 ) { construct<int32_t,3,1>(); }
VP_HARNESS( h_iterate_i31 ) { iterate<int32_t,3,1>(); }
VP_HARNESS( h_access_d32 ) { access<double,3,2>(); }
VP_HARNESS( h_modify_d32 ) { modify<double,3,2>(); }
VP_HARNESS( h_construct_d32 ) { construct<double,3,2>(); }
VP_HARNESS( h_iterate_d32 ) { iterate<double,3,2>(); }
VP_HARNESS( h_access_d33 ) { access<double,3,3>(); }
VP_HARNESS( h_modify_d33 ) { modify<double,3,3>(); }
VP_HARNESS( h_construct_d33 ) { construct<double,3,3>(); }
VP_HARNESS( h_iterate_d33 ) { iterate<double,3,3>(); }
VP_HARNESS( h_access_d34 ) { access<double,3,4>(); }
VP_HARNESS( h_modify_d34 ) { modify<double,3,4>(); }
VP_HARNESS( h_construct_d34 ) { construct<double,3,4>(); }
VP_HARNESS( h_iterate_d34 ) { iterate<double,3,4>(); }
VP_HARNESS( h_access_d41 ) { access<double,4,1>(); }
VP_HARNESS( h_modify_d41 ) { modify<double,4,1>(); }
VP_HARNESS( h_construct_d41 ) { construct<double,4,1>(); }
VP_HARNESS( h_iterate_d41 ) { iterate<double,4,1>(); }
VP_HARNESS( h_access_d42 ) { access<double,4,2>(); }
VP_HARNESS( h_modify_d42 ) { modify<double,4,2>(); }
VP_HARNESS( h_construct_d42 ) { construct<double,4,2>(); }
VP_HARNESS( h_iterate_d42 ) { iterate<double,4,2>(); }
VP_HARNESS( h_access_i42 ) { access<int32_t,4,2>(); }
VP_HARNESS( h_modify_i42 ) { modify<int32_t,4,2>(); }
VP_HARNESS( h_construct_i42 ) { construct<int32_t,4,2>(); }
VP_HARNESS( h_iterate_i42 ) { iterate<int32_t,4,2>(); }
VP_HARNESS( h_access_d43 ) { access<double,4,3>(); }
VP_HARNESS( h_modify_d43 ) { modify<double,4,3>(); }
VP_HARNESS( h_construct_d43 ) { construct<double,4,3>(); }
VP_HARNESS( h_iterate_d43 ) { iterate<double,4,3>(); }
VP_HARNESS( h_access_d44 ) { access<double,4,4>(); }
VP_HARNESS( h_modify_d44 ) { modify<double,4,4>(); }
VP_HARNESS( h_construct_d44 ) { construct<double,4,4>(); }
VP_HARNESS( h_iterate_d44 ) { iterate<double,4,4>(); }
