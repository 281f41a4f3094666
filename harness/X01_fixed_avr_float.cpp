// Fixed-point and floating point on the microcontroller, where double has 32 bits.
// @mode ieee
// @target avr
// @bound every value of the 8 and 16 bit formats; 32 bit IEEE arithmetic as libgcc computes it
#include "avr.h"
#include "num/fixed-point.hpp"
using num::fixed_point;
template< typename FP > void through_double()
{
    const typename FP::rep r = vp_any<typename FP::rep>::make( "r" );
    const FP x( FP::construct, r );
    const double d = x.as_double();
    vp_check( d * double( int32_t( 1 ) << FP::fractional_digits ) == double( r ), "as_double gives the exact value" );
    vp_check( FP( d ).underlying_value() == r, "a number comes back from double" );
    vp_check( FP( float( d ) ).underlying_value() == r, "a number comes back from float" );
}
VP_HARNESS( h_double_i8_0 )   { through_double<fixed_point<int8_t,0>>(); }
VP_HARNESS( h_double_i8_3 )   { through_double<fixed_point<int8_t,3>>(); }
VP_HARNESS( h_double_i8_7 )   { through_double<fixed_point<int8_t,7>>(); }
VP_HARNESS( h_double_i16_0 )  { through_double<fixed_point<int16_t,0>>(); }
VP_HARNESS( h_double_i16_8 )  { through_double<fixed_point<int16_t,8>>(); }
VP_HARNESS( h_double_i16_15 ) { through_double<fixed_point<int16_t,15>>(); }
