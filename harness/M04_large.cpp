// Long vectors transposed, and a large identity.
// @mode real
// @bound vectors of 300 elements, every value; identity of size 17
#include "mat.h"
VP_HARNESS( h_vectors )
{
    num::colvec<double,300> x( 0.0 );
    num::rowvec<int32_t,300> y( 0 );
    for( int i = 0; i < 300; ++i ) { x( i ) = vp_real( "x" ); y( i ) = vp_i32( "y" ); }
    auto const tx = num::transposed( x );
    auto const ty = num::transposed( y );
    vp_check( (tx.rows() == 1) & (tx.columns() == 300) & (ty.rows() == 300) & (ty.columns() == 1), "shapes" );
    for( int i = 0; i < 300; ++i ) { same( tx( 0, i ), x( i ), "transposed column" ); same( ty( i, 0 ), y( i ), "transposed row" ); }
}
VP_HARNESS( h_identity )
{
    auto const I = num::eye<double,17>();
    for( int i = 0; i < 17; ++i ) for( int j = 0; j < 17; ++j ) vp_eq( I( i, j ), i == j, "identity" );
}
