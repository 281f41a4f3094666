// Text output of fixed-point numbers.
// @mode ieee
// @bound every value of fixed_point<int8_t,I>, I=0,3,7, <int16_t,I>, I=0,8,15, and <int32_t,16>; matrices of them
#include "text.h"
#include "num/matrix-io.hpp"
#include "num/fixed-point-io.hpp"

template< typename T, int I > void number()
{
    using F = num::fixed_point<T,I>;
    const T r = vp_any<T>::make( "representation" ), q = vp_any<T>::make( "another" );
    const int frac = int( 8 * sizeof(T) ) - 1 - I;
    const double x = double( r ) / double( int64_t( 1 ) << frac ), y = double( q ) / double( int64_t( 1 ) << frac );
    F f( F::construct, r ), g( F::construct, q );
    num::matrix<F,1,2> m;
    m( 0, 0 ) = f; m( 0, 1 ) = g;
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << f << ";" << m;
    b << x << ";" << " " << x << " " << y << "\n";
    vp_same_output( a, b, "a fixed-point number is written as the number it stands for" );
}
VP_HARNESS( h_8_0 )   { number<int8_t,0>(); }
VP_HARNESS( h_8_3 )   { number<int8_t,3>(); }
VP_HARNESS( h_8_7 )   { number<int8_t,7>(); }
VP_HARNESS( h_16_0 )  { number<int16_t,0>(); }
VP_HARNESS( h_16_8 )  { number<int16_t,8>(); }
VP_HARNESS( h_16_15 ) { number<int16_t,15>(); }
VP_HARNESS( h_32_16 ) { number<int32_t,16>(); }
