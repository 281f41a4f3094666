// @mode real
// @bound shelf and peak designs; every design frequency in (0, fs/2), every fs > 0, every Q > 0, every gain in dB; the response at every frequency in [0, fs/2]; dB conversions for every positive ratio
// @assume exact reals (rounding is outside the claim); a negative number of decibels converts to the same factor as its absolute value, as the code documents by its use for cuts
#include "design.h"

struct Par { double K, fs, f, Q, V, dB, W; };
static Par any()
{
    Par p;
    p.K = vp_real("K"); p.fs = vp_real("fs"); p.Q = vp_real("Q"); p.V = vp_real("V"); p.W = vp_real("W");
    vp_assume( (p.K > 0) & (p.fs > 0) & (p.Q > 0) & (p.V > 0) & (p.W >= 0) );
    p.f = freq( p.K, p.fs );
    p.dB = decibel( p.V );
    return p;
}
static double p4( double x ) { return x*x*x*x; }

// V is the requested gain as a factor; below one for a cut
VP_HARNESS( h_low_shelf ) {
    const Par p = any();
    auto c = dsp::biquad_design<FilterResponse::low_shelf>( p.dB, p.f, p.fs, p.Q );
    vp_eq( dc_num( c ), p.V * dc_den( c ), "low shelf: the requested gain at frequency zero" );
    vp_eq( ny_num( c ), ny_den( c ), "low shelf: unity gain at half the sample rate" );
    const double K4 = p4( p.K ), W4 = p4( p.W );
    if ( p.V >= 1 )
        vp_eq( abs2( N( c, p.W ) ) * ( K4 + W4 ), abs2( D( c, p.W ) ) * ( p.V * p.V * K4 + W4 ), "low shelf: gain goes steadily from shelf to unity" );
    else
        vp_eq( abs2( N( c, p.W ) ) * ( K4 / ( p.V * p.V ) + W4 ), abs2( D( c, p.W ) ) * ( K4 + W4 ), "low shelf: gain goes steadily from shelf to unity (cut)" );
}
VP_HARNESS( h_high_shelf ) {
    const Par p = any();
    auto c = dsp::biquad_design<FilterResponse::high_shelf>( p.dB, p.f, p.fs, p.Q );
    vp_eq( dc_num( c ), dc_den( c ), "high shelf: unity gain at frequency zero" );
    vp_eq( ny_num( c ), p.V * ny_den( c ), "high shelf: the requested gain at half the sample rate" );
    const double K4 = p4( p.K ), W4 = p4( p.W );
    if ( p.V >= 1 )
        vp_eq( abs2( N( c, p.W ) ) * ( K4 + W4 ), abs2( D( c, p.W ) ) * ( p.V * p.V * W4 + K4 ), "high shelf: gain goes steadily from unity to shelf" );
    else
        vp_eq( abs2( N( c, p.W ) ) * ( W4 / ( p.V * p.V ) + K4 ), abs2( D( c, p.W ) ) * ( K4 + W4 ), "high shelf: gain goes steadily from unity to shelf (cut)" );
}
VP_HARNESS( h_peak ) {
    const Par p = any();
    auto c = dsp::biquad_design<FilterResponse::peak_band_eq>( p.dB, p.f, p.fs, p.Q );
    vp_eq( dc_num( c ), dc_den( c ), "peak: unity gain at frequency zero" );
    vp_eq( ny_num( c ), ny_den( c ), "peak: unity gain at half the sample rate" );
    Cx const d = D( c, p.K );
    eqc( N( c, p.K ), Cx{ p.V * d.r, p.V * d.i }, "peak: the requested gain at the design frequency" );
    const double x = p.K*p.K - p.W*p.W, y = p.K*p.W / p.Q;
    if ( p.V >= 1 )
        shape( c, p.W, { x, p.V * y }, { x, y }, "peak: second-order peaking response at every frequency" );
    else
        shape( c, p.W, { x, y }, { x, y / p.V }, "peak: second-order peaking response at every frequency (cut)" );
}
template< FilterResponse R > void undo()
{
    const Par p = any();
    vp_assume( p.V > 1 );
    auto c = dsp::biquad_design<R>( p.dB, p.f, p.fs, p.Q );
    auto d = dsp::biquad_design<R>( -p.dB, p.f, p.fs, p.Q );
    // numerator of the one is proportional to the denominator of the other
    vp_eq( c.b.b0 * d.a.a1, c.b.b1, "a cut undoes the boost of the same size" );
    vp_eq( c.b.b0 * d.a.a2, c.b.b2, "a cut undoes the boost of the same size" );
    vp_eq( d.b.b0 * c.a.a1, d.b.b1, "a cut undoes the boost of the same size" );
    vp_eq( d.b.b0 * c.a.a2, d.b.b2, "a cut undoes the boost of the same size" );
    vp_eq( c.b.b0 * d.b.b0, 1, "a cut undoes the boost of the same size" );
}
VP_HARNESS( h_undo_low_shelf ) { undo<FilterResponse::low_shelf>(); }
VP_HARNESS( h_undo_high_shelf ) { undo<FilterResponse::high_shelf>(); }
VP_HARNESS( h_undo_peak ) { undo<FilterResponse::peak_band_eq>(); }

template< FilterResponse R > void flat()
{
    const Par p = any();
    auto c = dsp::biquad_design<R>( 0.0, p.f, p.fs, p.Q );
    vp_eq( c.b.b0, 1, "zero decibels leave the signal alone" );
    vp_eq( c.b.b1, c.a.a1, "zero decibels leave the signal alone" );
    vp_eq( c.b.b2, c.a.a2, "zero decibels leave the signal alone" );
}
VP_HARNESS( h_flat_low_shelf ) { flat<FilterResponse::low_shelf>(); }
VP_HARNESS( h_flat_high_shelf ) { flat<FilterResponse::high_shelf>(); }
VP_HARNESS( h_flat_peak ) { flat<FilterResponse::peak_band_eq>(); }

VP_HARNESS( h_decibel ) {
    const double x = vp_real("x"), y = vp_real("y");
    vp_assume( (x > 0) & (y > 0) );
    vp_eq( dsp::dbV( x, y ), 20 * std::log10( x / y ), "voltage ratio in decibels" );
    vp_eq( dsp::dbP( x, y ), 10 * std::log10( x / y ), "power ratio in decibels" );
    vp_eq( dsp::dbV( x, y ), 2 * dsp::dbP( x, y ), "a voltage ratio counts twice a power ratio" );
    vp_eq( dsp::dbV_factor( dsp::dbV( x, 1.0 ) ), x >= 1 ? x : 1 / x, "factor of a voltage ratio in decibels" );
    vp_eq( dsp::dbP_factor( dsp::dbP( x, 1.0 ) ), x >= 1 ? x : 1 / x, "factor of a power ratio in decibels" );
    vp_eq( dsp::dbV_factor( -dsp::dbV( x, 1.0 ) ), x >= 1 ? x : 1 / x, "sign of the decibels does not matter for the factor" );
    vp_eq( dsp::dbV_factor( 0.0 ), 1, "zero decibels is a factor of one" );
    vp_eq( dsp::dbV_factor( 20.0 ), 10, "20 dB is ten times the voltage" );
    vp_eq( dsp::dbP_factor( 20.0 ), 100, "20 dB is a hundred times the power" );
}
VP_HARNESS( h_decibel_integral ) {
    // an integral number of decibels, as in a filter design
    const int n = vp_range( "n", -6, 6 );
    vp_eq( dsp::dbV_factor( 20 * n ), dsp::dbV_factor( 20.0 * n ), "whole numbers of decibels: voltage factor" );
    vp_eq( dsp::dbP_factor( 10 * n ), dsp::dbP_factor( 10.0 * n ), "whole numbers of decibels: power factor" );
    vp_eq( dsp::dbP( 1000, 10 ), 20, "ratio of integers" );
    vp_eq( dsp::dbV( 1000, 10 ), 40, "ratio of integers" );
    vp_check( dsp::dbP( 5, 2 ) > 3.9 && dsp::dbP( 5, 2 ) < 4.0, "ratio of integers is not truncated" );
    vp_check( dsp::dbP_factor( 3 ) > 1.99 && dsp::dbP_factor( 3 ) < 2, "factor of a number of decibels is not truncated" );
    vp_check( dsp::dbV_factor( 7 ) > 2.23 && dsp::dbV_factor( 7 ) < 2.24, "factor of a number of decibels is not truncated" );
}
