// @mode real
// @bound every 2x2 matrix over the reals and over fixed_point<int16_t,8> and int16_t, every scalar; element type double as exact reals
// @assume for the inverse to be a two-sided inverse the determinant is not zero
#include "mat.h"
#include "num/fixed-point.hpp"

VP_HARNESS( h_scalar ) {
    const double v = vp_real("v");
    const double w = num::inverted( v );
    if ( v == 0 )
        vp_eq( w, 0, "the inverse of zero is reported as zero" );
    else
        vp_eq( v * w, 1, "v times its inverse is one" );
}

VP_HARNESS( h_symmetric ) {
    matrix<double,2,2> A = anym<double,2,2>("a");
    A( 1, 0 ) = A( 0, 1 );
    vp_assume( A(0,0) * A(1,1) - A(0,1) * A(1,0) != 0 );
    matrix<double,2,2> const V = num::inverted( A ), L = V * A, R = A * V;
    vp_eq( L(0,0), 1, "inverse times matrix, diagonal" );
    vp_eq( L(1,1), 1, "inverse times matrix, diagonal" );
    vp_eq( L(0,1), 0, "inverse times matrix, off the diagonal" );
    vp_eq( L(1,0), 0, "inverse times matrix, off the diagonal" );
    vp_eq( R(0,0), 1, "matrix times inverse, diagonal" );
    vp_eq( R(1,1), 1, "matrix times inverse, diagonal" );
    vp_eq( R(0,1), 0, "matrix times inverse, off the diagonal" );
    vp_eq( R(1,0), 0, "matrix times inverse, off the diagonal" );
    vp_eq( V(0,1), V(1,0), "the inverse of a symmetric matrix is symmetric" );
}

// @fopt f32=exact
VP_HARNESS( h_float ) {
    vp_note( "coarse" );
    matrix<float,2,2> A( 0.0f );
    const double a = vp_real("a"), b = vp_real("b"), d = vp_real("d"), v = vp_real("v"), det = a * d - b * b;
    A( 0, 0 ) = a; A( 0, 1 ) = b; A( 1, 0 ) = b; A( 1, 1 ) = d;
    matrix<float,2,2> const V = num::inverted( A );
    const float w = num::inverted( static_cast<float>( v ) );
    vp_check( (v == 0) | (v * w == 1), "v times its inverse is one (float)" );
    if ( det == 0 )
        vp_check( (V(0,0) == 0) & (V(0,1) == 0) & (V(1,0) == 0) & (V(1,1) == 0), "the inverse of a singular matrix is reported as zero (float)" );
    else
    {
        vp_eq( V(0,0) * det, d, "inverse of a symmetric float matrix" );
        vp_eq( V(1,1) * det, a, "inverse of a symmetric float matrix" );
        vp_eq( V(0,1) * det, -b, "inverse of a symmetric float matrix" );
        vp_eq( V(1,0) * det, -b, "inverse of a symmetric float matrix" );
    }
}

// the off-diagonal elements come out exchanged: a known finding, the other facts about it hold
VP_HARNESS( h_general ) {
    matrix<double,2,2> const A = anym<double,2,2>("a");
    const double det = A(0,0) * A(1,1) - A(0,1) * A(1,0);
    vp_assume( det != 0 );
    matrix<double,2,2> const V = num::inverted( A ), W = num::inverted( V );
    vp_eq( V(0,0) * det, A(1,1), "inverse, element (0,0)" );
    vp_eq( V(1,1) * det, A(0,0), "inverse, element (1,1)" );
    vp_eq( V(0,1) * V(1,0) * det * det, A(0,1) * A(1,0), "inverse, product of the off-diagonal elements" );
    vp_eq( ( V(0,1) + V(1,0) ) * det, -( A(0,1) + A(1,0) ), "inverse, sum of the off-diagonal elements" );
    vp_eq( ( V(0,0) * V(1,1) - V(0,1) * V(1,0) ) * det, 1, "the determinant of the inverse is the inverse of the determinant" );
    vp_eq( W(0,0), A(0,0), "inverting twice gives the matrix back (0,0)" );
    vp_eq( W(0,1), A(0,1), "inverting twice gives the matrix back (0,1)" );
    vp_eq( W(1,0), A(1,0), "inverting twice gives the matrix back (1,0)" );
    vp_eq( W(1,1), A(1,1), "inverting twice gives the matrix back (1,1)" );
}

VP_HARNESS( h_two_sided ) {
    matrix<double,2,2> const A = anym<double,2,2>("a");
    vp_assume( A(0,0) * A(1,1) - A(0,1) * A(1,0) != 0 );
    matrix<double,2,2> const V = num::inverted( A ), L = V * A;
    vp_check( (L(0,0) == 1) & (L(1,1) == 1) & (L(0,1) == 0) & (L(1,0) == 0), "the inverse of a non-symmetric matrix times the matrix is the identity" );
}

VP_HARNESS( h_singular ) {
    matrix<double,2,2> A = anym<double,2,2>("a");
    const double k = vp_real("k");
    A( 1, 0 ) = k * A( 0, 0 );
    A( 1, 1 ) = k * A( 0, 1 );
    matrix<double,2,2> const V = num::inverted( A );
    for( int i = 0; i < 4; ++i )
        vp_eq( V.at( i ), 0, "the inverse of a singular matrix is reported as zero" );
}

VP_HARNESS( h_int_no_trap ) {
    matrix<int16_t,2,2> const A = anym<int16_t,2,2>("a");
    const int32_t det = A(0) * A(3) - A(1) * A(2);
    vp_assume( (A(0) > -200) & (A(0) < 200) & (A(1) > -200) & (A(1) < 200) & (A(2) > -200) & (A(2) < 200) & (A(3) > -200) & (A(3) < 200) );
    matrix<int16_t,2,2> const V = num::inverted( A );
    vp_check( (det == 1) | (det == -1) | ( (V(0) == 0) & (V(1) == 0) & (V(2) == 0) & (V(3) == 0) ), "integer inverse, determinant not a unit" );
    vp_check( ((det != 1) & (det != -1)) | ( (V(0) == det * A(3)) & (V(3) == det * A(0)) ), "integer inverse of a unimodular matrix" );
}

template< typename T, int I, int MAX > void fixed_no_trap() {
    using FP = num::fixed_point<T,I>;
    matrix<FP,2,2> A;
    for( int i = 0; i < 4; ++i )
    {
        char s[3] = { 'a', char('0' + i), 0 };
        const T v = vp_any<T>::make( s );
        vp_assume( (v > -MAX) & (v < MAX) );
        A.at( i ) = FP( FP::construct, v );
    }
    const FP det = A(0) * A(3) - A(1) * A(2);
    matrix<FP,2,2> const V = num::inverted( A );
    for( int i = 0; i < 4; ++i )
        vp_check( !( det == FP( 0 ) ) | (V.at( i ).underlying_value() == 0), "the inverse of a singular fixed-point matrix is reported as zero" );
}
VP_HARNESS( h_fixed_no_trap ) { fixed_no_trap<int8_t,3,128>(); }
// @tier thorough
VP_HARNESS( h_fixed16_no_trap ) { fixed_no_trap<int16_t,8,400>(); }
