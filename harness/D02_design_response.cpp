// @mode real
// @bound low, high, band pass and band stop designs; every design frequency in (0, fs/2), every fs > 0, every Q > 0, every gain argument; the response at every frequency in [0, fs/2]
// @assume exact reals (rounding is outside the claim)
#include "design.h"

struct Par { double K, fs, f, Q, W; };
static Par any()
{
    Par p;
    p.K = vp_real("K"); p.fs = vp_real("fs"); p.Q = vp_real("Q"); p.W = vp_real("W");
    vp_assume( (p.K > 0) & (p.fs > 0) & (p.Q > 0) & (p.W >= 0) );
    p.f = freq( p.K, p.fs );
    return p;
}
// the second-order section with corner K and quality Q, at the frequency W
static Cx den( Par const & p ) { return { p.K*p.K - p.W*p.W, p.K*p.W / p.Q }; }
static Cx centre( Par const & p ) { return { 0, p.K*p.K / p.Q }; }

VP_HARNESS( h_low_pass ) {
    const Par p = any();
    auto c = dsp::biquad_design<FilterResponse::low_pass>( vp_real("dB"), p.f, p.fs, p.Q );
    vp_eq( dc_num( c ), dc_den( c ), "low pass: unity gain at frequency zero" );
    vp_eq( ny_num( c ), 0, "low pass: nothing at half the sample rate" );
    vp_eq( abs2( N( c, p.K ) ), p.Q * p.Q * abs2( D( c, p.K ) ), "low pass: gain Q at the design frequency" );
    shape( c, p.W, { p.K*p.K, 0 }, den( p ), "low pass: second-order low-pass response at every frequency" );
}
VP_HARNESS( h_high_pass ) {
    const Par p = any();
    auto c = dsp::biquad_design<FilterResponse::high_pass>( vp_real("dB"), p.f, p.fs, p.Q );
    vp_eq( dc_num( c ), 0, "high pass: nothing at frequency zero" );
    vp_eq( ny_num( c ), ny_den( c ), "high pass: unity gain at half the sample rate" );
    vp_eq( abs2( N( c, p.K ) ), p.Q * p.Q * abs2( D( c, p.K ) ), "high pass: gain Q at the design frequency" );
    shape( c, p.W, { -p.W*p.W, 0 }, den( p ), "high pass: second-order high-pass response at every frequency" );
}
VP_HARNESS( h_band_pass ) {
    const Par p = any();
    auto c = dsp::biquad_design<FilterResponse::band_pass>( vp_real("dB"), p.f, p.fs, p.Q );
    vp_eq( dc_num( c ), 0, "band pass: nothing at frequency zero" );
    vp_eq( ny_num( c ), 0, "band pass: nothing at half the sample rate" );
    eqc( N( c, p.K ), D( c, p.K ), "band pass: unity gain at the design frequency" );
    shape( c, p.W, { 0, p.K*p.W / p.Q }, den( p ), "band pass: second-order band-pass response at every frequency" );
    vp_le( abs2( N( c, p.W ) ), abs2( D( c, p.W ) ), "band pass: gain nowhere above one" );
}
VP_HARNESS( h_band_stop ) {
    const Par p = any();
    auto c = dsp::biquad_design<FilterResponse::band_stop>( vp_real("dB"), p.f, p.fs, p.Q );
    vp_eq( dc_num( c ), dc_den( c ), "band stop: unity gain at frequency zero" );
    vp_eq( ny_num( c ), ny_den( c ), "band stop: unity gain at half the sample rate" );
    eqc( N( c, p.K ), Cx{ 0, 0 }, "band stop: nothing at the design frequency" );
    shape( c, p.W, { p.K*p.K - p.W*p.W, 0 }, den( p ), "band stop: second-order band-stop response at every frequency" );
}
VP_HARNESS( h_complement ) {
    // band pass and band stop of the same design add up to the identity
    const Par p = any();
    auto c = dsp::biquad_design<FilterResponse::band_pass>( 0.0, p.f, p.fs, p.Q );
    auto d = dsp::biquad_design<FilterResponse::band_stop>( 0.0, p.f, p.fs, p.Q );
    vp_eq( c.a.a1, d.a.a1, "same poles" );
    vp_eq( c.a.a2, d.a.a2, "same poles" );
    vp_eq( c.b.b0 + d.b.b0, 1, "band pass plus band stop is the identity" );
    vp_eq( c.b.b1 + d.b.b1, c.a.a1, "band pass plus band stop is the identity" );
    vp_eq( c.b.b2 + d.b.b2, c.a.a2, "band pass plus band stop is the identity" );
}
VP_HARNESS( h_prewarp ) {
    const double K = vp_real("K"), fs = vp_real("fs");
    vp_assume( (K > 0) & (fs > 0) );
    vp_eq( dsp::prewarp( freq( K, fs ), fs ), K, "prewarped frequency is the tangent of half the angle" );
    vp_eq( dsp::prewarp( 0.0, fs ), 0, "frequency zero stays" );
}
VP_HARNESS( h_observed ) {
    // through the filter object and its own response function, at the ends of the band
    const Par p = any();
    auto l = dsp::make_biquad( dsp::biquad_design<FilterResponse::low_pass>( 0.0, p.f, p.fs, p.Q ) );
    auto h = dsp::make_biquad( dsp::biquad_design<FilterResponse::high_pass>( 0.0, p.f, p.fs, p.Q ) );
    auto x = dsp::response( l, 0.0 ), y = dsp::response( h, 0.0 );
    vp_eq( x.real(), 1, "low pass: unity gain at frequency zero" );
    vp_eq( x.imag(), 0, "low pass: unity gain at frequency zero" );
    vp_eq( y.real(), 0, "high pass: nothing at frequency zero" );
    vp_eq( y.imag(), 0, "high pass: nothing at frequency zero" );
}
