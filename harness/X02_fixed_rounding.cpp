// Filters in fixed-point arithmetic where products are not on the grid: each product costs at most one unit in the last place.
// @mode int
// @bound every value of fixed_point<int8_t,3> as coefficient and input; two steps of a one-pole filter; of a section with b0, b1, a1 of magnitude up to one and inputs up to 2.5
// @assume no value of the calculation leaves the range of the format
#include "vp.h"
#include "num/fixed-point.hpp"
#include "dsp/biquad.hpp"
#include "dsp/onepole.hpp"

using T = num::fixed_point<int8_t,3>;
enum { U = 1 << T::fractional_digits };
inline T num_( int v ) { return T( T::construct, int8_t( v ) ); }
inline void near( int a, int b, int tolerance, char const * what ) { vp_check( (a - b <= tolerance) & (b - a <= tolerance), what ); }

VP_HARNESS( h_onepole )
{
    const int b0 = vp_i8( "b0" ), a1 = vp_i8( "a1" ), x0 = vp_i8( "x0" ), x1 = vp_i8( "x1" );
    const int p = b0 * x0, q = b0 * x1;
    vp_assume( (p < 120 * U) & (p > -120 * U) & (q < 60 * U) & (q > -60 * U) );
    dsp::OnePoleT<T> f( { num_( b0 ) }, { num_( a1 ) } );
    const int y0 = f.step( num_( x0 ) ).underlying_value();
    near( U * y0, p, U, "the first output is rounded once" );
    const int r = a1 * y0;
    vp_assume( (r < 60 * U) & (r > -60 * U) );
    const int y1 = f.step( num_( x1 ) ).underlying_value();
    near( U * y1, q - r, 2 * U, "the second output is rounded twice" );
}
VP_HARNESS( h_section )
{
    const int b0 = vp_i8( "b0" ), b1 = vp_i8( "b1" ), a1 = vp_i8( "a1" ), x0 = vp_i8( "x0" ), x1 = vp_i8( "x1" );
    vp_assume( (b0 >= -16) & (b0 <= 16) & (b1 >= -16) & (b1 <= 16) & (a1 >= -16) & (a1 <= 16) & (x0 >= -40) & (x0 <= 40) & (x1 >= -40) & (x1 <= 40) );
    dsp::BiQuadT<T> f( { num_( b0 ), num_( b1 ), num_( 0 ) }, { num_( a1 ), num_( 0 ) } );
    near( U * f.step_df2( num_( x0 ) ).underlying_value(), b0 * x0, U, "the first output is rounded once" );
    const int v = f.state().v1.underlying_value();
    vp_check( v == x0, "the first state is the input" );
    const int y = f.step_df2( num_( x1 ) ).underlying_value();
    const int w = f.state().v1.underlying_value();
    near( U * w, U * x1 - a1 * x0, U, "the state is rounded once" );
    near( U * y, b0 * w + b1 * x0, 2 * U, "the second output is rounded twice" );
}
VP_HARNESS( h_section_transposed )
{
    const int b0 = vp_i8( "b0" ), b1 = vp_i8( "b1" ), a1 = vp_i8( "a1" ), x0 = vp_i8( "x0" ), x1 = vp_i8( "x1" );
    vp_assume( (b0 >= -16) & (b0 <= 16) & (b1 >= -16) & (b1 <= 16) & (a1 >= -8) & (a1 <= 8) & (x0 >= -20) & (x0 <= 20) & (x1 >= -20) & (x1 <= 20) );
    dsp::BiQuadT<T> f( { num_( b0 ), num_( b1 ), num_( 0 ) }, { num_( a1 ), num_( 0 ) } );
    const int y0 = f.step_df2_transposed( num_( x0 ) ).underlying_value();
    near( U * y0, b0 * x0, U, "the first output is rounded once" );
    const int v = f.state().v1.underlying_value();
    near( U * v, b1 * x0 - a1 * y0, 2 * U, "the state is rounded twice" );
    near( U * f.step_df2_transposed( num_( x1 ) ).underlying_value(), b0 * x1 + U * v, U, "the second output is rounded once more" );
}
