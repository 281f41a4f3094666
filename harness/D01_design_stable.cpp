// @mode real
// @bound every design (low, high, band pass, band stop, low and high shelf, peak), every frequency strictly between 0 and half the sample rate, every sample rate > 0, every Q > 0, every gain in dB of either sign
// @assume exact reals (rounding is outside the claim)
#include "design.h"

struct Par { double K, fs, f, Q, V, dB; };
static Par any()
{
    Par p;
    p.K = vp_real("K"); p.fs = vp_real("fs"); p.Q = vp_real("Q"); p.V = vp_real("V");
    vp_assume( (p.K > 0) & (p.fs > 0) & (p.Q > 0) & (p.V > 0) );
    p.f = freq( p.K, p.fs );
    p.dB = decibel( p.V );
    return p;
}
template< FilterResponse R > void stable()
{
    const Par p = any();
    auto c = dsp::biquad_design<R>( p.dB, p.f, p.fs, p.Q );
    // Jury: both poles strictly inside the unit circle
    vp_check( c.a.a2 < 1, "poles are inside the unit circle" );
    vp_check( 1 + c.a.a1 + c.a.a2 > 0, "no pole at or beyond z = 1" );
    vp_check( 1 - c.a.a1 + c.a.a2 > 0, "no pole at or beyond z = -1" );
}
VP_HARNESS( h_low_pass ) { stable<FilterResponse::low_pass>(); }
VP_HARNESS( h_high_pass ) { stable<FilterResponse::high_pass>(); }
VP_HARNESS( h_band_pass ) { stable<FilterResponse::band_pass>(); }
VP_HARNESS( h_band_stop ) { stable<FilterResponse::band_stop>(); }
VP_HARNESS( h_low_shelf ) { stable<FilterResponse::low_shelf>(); }
VP_HARNESS( h_high_shelf ) { stable<FilterResponse::high_shelf>(); }
VP_HARNESS( h_peak ) { stable<FilterResponse::peak_band_eq>(); }

// the filter made from a design has the coefficients of the design, reports itself stable and follows them
template< FilterResponse R > void made()
{
    const Par p = any();
    vp_assume( p.V >= 1 );
    auto c = dsp::biquad_design<R>( p.dB, p.f, p.fs, p.Q );
    auto f = dsp::make_biquad( c );
    vp_eq( f.coeff_b().b0, c.b.b0, "the filter has the coefficients of the design" );
    vp_eq( f.coeff_b().b1, c.b.b1, "the filter has the coefficients of the design" );
    vp_eq( f.coeff_b().b2, c.b.b2, "the filter has the coefficients of the design" );
    vp_eq( f.coeff_a().a1, c.a.a1, "the filter has the coefficients of the design" );
    vp_eq( f.coeff_a().a2, c.a.a2, "the filter has the coefficients of the design" );
    vp_check( (f.state().v1 == 0) & (f.state().v2 == 0), "a filter made from a design is at rest" );
}
VP_HARNESS( h_made_low_pass ) { made<FilterResponse::low_pass>(); }
VP_HARNESS( h_made_high_pass ) { made<FilterResponse::high_pass>(); }
VP_HARNESS( h_made_band_pass ) { made<FilterResponse::band_pass>(); }
VP_HARNESS( h_made_band_stop ) { made<FilterResponse::band_stop>(); }
VP_HARNESS( h_made_low_shelf ) { made<FilterResponse::low_shelf>(); }
VP_HARNESS( h_made_high_shelf ) { made<FilterResponse::high_shelf>(); }
VP_HARNESS( h_made_peak ) { made<FilterResponse::peak_band_eq>(); }

VP_HARNESS( h_arbitrary_coefficients ) {
    dsp::biquad_designs::BiquadCoeffT<double> c{ { vp_real("b0"), vp_real("b1"), vp_real("b2") }, { vp_real("a1"), vp_real("a2") } };
    auto f = dsp::make_biquad( c );
    vp_eq( f.coeff_b().b0, c.b.b0, "the filter has the given coefficients" );
    vp_eq( f.coeff_b().b1, c.b.b1, "the filter has the given coefficients" );
    vp_eq( f.coeff_b().b2, c.b.b2, "the filter has the given coefficients" );
    vp_eq( f.coeff_a().a1, c.a.a1, "the filter has the given coefficients" );
    vp_eq( f.coeff_a().a2, c.a.a2, "the filter has the given coefficients" );
    Ref r = { { c.b.b0, c.b.b1, c.b.b2, c.a.a1, c.a.a2 } };
    for( int i = 0; i < 4; ++i )
    {
        const double x = input( i );
        vp_eq( f.step( x ), r( x ), "the filter follows the given coefficients" );
    }
}
// arguments of mixed type design the same filter
template< FilterResponse R > void mixed()
{
    const double Q = vp_real("Q");
    vp_assume( Q > 0 );
    auto c = dsp::biquad_design<R>( 6, 1000, 8000, Q );
    auto d = dsp::biquad_design<R>( 6.0, 1000.0, 8000.0, Q );
    auto e = dsp::biquad_design<R>( 6.0f, 1000L, short( 8000 ), Q );
    vp_eq( c.b.b0, d.b.b0, "integral arguments design the same filter" );
    vp_eq( c.b.b1, d.b.b1, "integral arguments design the same filter" );
    vp_eq( c.b.b2, d.b.b2, "integral arguments design the same filter" );
    vp_eq( c.a.a1, d.a.a1, "integral arguments design the same filter" );
    vp_eq( c.a.a2, d.a.a2, "integral arguments design the same filter" );
    vp_eq( e.b.b0, d.b.b0, "arguments of mixed type design the same filter" );
    vp_eq( e.a.a1, d.a.a1, "arguments of mixed type design the same filter" );
    vp_eq( e.a.a2, d.a.a2, "arguments of mixed type design the same filter" );
}
// the argument with the most digits decides the precision of the design; integral arguments of any value
template< FilterResponse R > void types()
{
    const int g = vp_range( "dB", -3, 3 ), n = vp_range( "f", 1, 3 ), r = 8, q = vp_range( "Q", 1, 3 );
    const double dB = g, f = n, fs = r, Q = q;
    auto d = dsp::biquad_design<R>( dB, f, fs, Q );
    auto one = [&]( auto c, char const * m )
    {
        vp_eq( c.b.b0, d.b.b0, m );
        vp_eq( c.b.b1, d.b.b1, m );
        vp_eq( c.b.b2, d.b.b2, m );
        vp_eq( c.a.a1, d.a.a1, m );
        vp_eq( c.a.a2, d.a.a2, m );
    };
    one( dsp::biquad_design<R>( dB, n, r, q ), "the gain in double: the design is in double" );
    one( dsp::biquad_design<R>( g, f, r, q ), "the frequency in double: the design is in double" );
    one( dsp::biquad_design<R>( g, n, fs, q ), "the sample rate in double: the design is in double" );
    one( dsp::biquad_design<R>( g, n, r, Q ), "the quality in double: the design is in double" );
}
VP_HARNESS( h_types_low_pass ) { types<FilterResponse::low_pass>(); }
VP_HARNESS( h_types_band_pass ) { types<FilterResponse::band_pass>(); }
VP_HARNESS( h_types_band_stop ) { types<FilterResponse::band_stop>(); }
VP_HARNESS( h_types_high_shelf ) { types<FilterResponse::high_shelf>(); }
VP_HARNESS( h_types_peak ) { types<FilterResponse::peak_band_eq>(); }
VP_HARNESS( h_mixed_low_pass ) { mixed<FilterResponse::low_pass>(); }
VP_HARNESS( h_mixed_high_pass ) { mixed<FilterResponse::high_pass>(); }
VP_HARNESS( h_mixed_low_shelf ) { mixed<FilterResponse::low_shelf>(); }
VP_HARNESS( h_mixed_peak ) { mixed<FilterResponse::peak_band_eq>(); }
