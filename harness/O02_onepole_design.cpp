// @mode real
// @bound every cutoff in (0, fs/2) and every sample rate above zero; float and double arguments; integral arguments 1 to 4 at sample rates 10 and 100
// @assume exact reals (rounding is outside the claim); the pole is placed at exp(-pi f/fs), as the code states
#include "vp.h"
#include <cmath>
#include <complex>
#include "dsp/onepole-design.hpp"
using dsp::FilterResponse;

// a is the distance of the pole from the origin; the cutoff follows from it
struct Par { double a, fs, f; };
static Par any( double least )
{
    Par p;
    p.a = vp_real("a"); p.fs = vp_real("fs");
    vp_assume( (p.fs > 0) & (p.a > least) & (p.a < 1) );
    p.f = -std::log( p.a ) * p.fs / num::pi<double>;
    return p;
}
VP_HARNESS( h_low_pass ) {
    const Par p = any( 0 );
    auto c = dsp::onepole_design<FilterResponse::low_pass>( p.f, p.fs );
    vp_eq( c.a.a1, -p.a, "low pass: pole at the place the cutoff determines" );
    vp_eq( c.b.b0, 1 + c.a.a1, "low pass: unity gain at frequency zero" );
    auto f = dsp::make_onepole( c );
    vp_check( f.is_stable(), "the designed filter is stable" );
    vp_eq( f.poles().s0.real(), p.a, "the filter has the designed pole" );
    vp_eq( f.state().v1, 0, "a filter made from a design is at rest" );
    vp_eq( f.coeff_b().b0, c.b.b0, "the filter has the coefficients of the design" );
    vp_eq( f.coeff_a().a1, c.a.a1, "the filter has the coefficients of the design" );
    vp_eq( dsp::response( f, 0.0 ).real(), 1, "low pass: unity response at frequency zero" );
    double y = 0;
    for( int i = 0; i < 4; ++i )
    {
        char n[3] = { 'x', char('0' + i), 0 };
        const double x = vp_real( n );
        y = (1 - p.a) * x + p.a * y;
        vp_eq( f.step( x ), y, "low pass: exponential average" );
    }
}
VP_HARNESS( h_high_pass ) {
    const Par p = any( 0 );
    const double f0 = p.fs / 2 - p.f;
    auto c = dsp::onepole_design<FilterResponse::high_pass>( f0, p.fs );
    vp_eq( c.a.a1, p.a, "high pass: pole at the place the cutoff determines" );
    vp_eq( c.b.b0, 1 - c.a.a1, "high pass: unity gain at half the sample rate" );
    auto f = dsp::make_onepole( c );
    vp_check( f.is_stable(), "the designed filter is stable" );
    vp_eq( f.poles().s0.real(), -p.a, "the filter has the designed pole" );
    vp_eq( f.state().v1, 0, "a filter made from a design is at rest" );
    vp_eq( f.coeff_b().b0, c.b.b0, "the filter has the coefficients of the design" );
    vp_eq( f.coeff_a().a1, c.a.a1, "the filter has the coefficients of the design" );
    vp_eq( dsp::response( f, 0.5 ).real(), 1, "high pass: unity response at half the sample rate" );
}
// for every frequency below half the sample rate, taken as it comes
VP_HARNESS( h_stable ) {
    const double f = vp_real("f"), fs = vp_real("fs");
    vp_assume( (f > 0) & (fs > 0) & (2 * f < fs) );
    auto c = dsp::onepole_design<FilterResponse::low_pass>( f, fs );
    vp_check( (c.a.a1 < 0) & (c.a.a1 > -1), "low pass: pole strictly inside the unit circle, on the positive side" );
    vp_check( c.b.b0 > 0, "low pass: positive gain" );
    auto d = dsp::onepole_design<FilterResponse::high_pass>( f, fs );
    vp_check( (d.a.a1 > 0) & (d.a.a1 < 1), "high pass: pole strictly inside the unit circle, on the negative side" );
    vp_check( d.b.b0 > 0, "high pass: positive gain" );
}
// the high pass is the low pass mirrored at a quarter of the sample rate
VP_HARNESS( h_mirror ) {
    const double f = vp_real("f"), fs = vp_real("fs");
    vp_assume( (f > 0) & (fs > 0) & (2 * f < fs) );
    auto c = dsp::onepole_design<FilterResponse::low_pass>( f, fs );
    auto d = dsp::onepole_design<FilterResponse::high_pass>( fs / 2 - f, fs );
    vp_eq( d.a.a1, -c.a.a1, "the high pass mirrors the low pass" );
    vp_eq( d.b.b0, c.b.b0, "the high pass mirrors the low pass" );
}
VP_HARNESS( h_order ) {
    const double f = vp_real("f"), g = vp_real("g"), fs = vp_real("fs");
    vp_assume( (f > 0) & (fs > 0) & (g > f) & (2 * g < fs) );
    auto c = dsp::onepole_design<FilterResponse::low_pass>( f, fs );
    auto d = dsp::onepole_design<FilterResponse::low_pass>( g, fs );
    vp_check( c.a.a1 < d.a.a1, "a higher cutoff forgets sooner" );
}
// the argument with the most digits decides the precision of the design: exact, not within the rounding of float
template< FilterResponse R > void types()
{
    const int n = vp_range( "f", 1, 4 );
    const int r = vp_choose( "rate", 2 ) ? 100 : 10;
    auto d = dsp::onepole_design<R>( double( n ), double( r ) );
    auto one = [&]( auto c )
    {
        vp_eq( c.a.a1, d.a.a1, "one argument in double: the design is in double" );
        vp_eq( c.b.b0, d.b.b0, "one argument in double: the design is in double" );
    };
    one( dsp::onepole_design<R>( double( n ), r ) );
    one( dsp::onepole_design<R>( n, double( r ) ) );
    one( dsp::onepole_design<R>( double( n ), float( r ) ) );
    one( dsp::onepole_design<R>( float( n ), double( r ) ) );
    one( dsp::onepole_design<R>( double( n ), short( r ) ) );
    const double f = vp_real( "x" ), fs = vp_real( "s" );
    vp_assume( (f > 0) & (fs > 0) & (2 * f < fs) );
    auto e = dsp::onepole_design<R>( f, r * 1.0 );
    auto g = dsp::onepole_design<R>( n * 1.0, fs );
    auto e2 = dsp::onepole_design<R>( f, r );
    auto g2 = dsp::onepole_design<R>( n, fs );
    vp_eq( e.a.a1, e2.a.a1, "an integral sample rate next to any cutoff" );
    vp_eq( g.a.a1, g2.a.a1, "an integral cutoff next to any sample rate" );
}
VP_HARNESS( h_double_low_pass )  { types<FilterResponse::low_pass>(); }
VP_HARNESS( h_double_high_pass ) { types<FilterResponse::high_pass>(); }
// integers are taken as float, for which pi is rounded
static void same( double p, double q, char const * m ) { vp_le( p, q + 1e-5, m ); vp_le( q, p + 1e-5, m ); }
// @fopt f32=exact
VP_HARNESS( h_types ) {
    const int f = vp_range( "f", 1, 4 );
    const int fs = vp_choose( "rate", 2 ) ? 100 : 10;
    auto c = dsp::onepole_design<FilterResponse::low_pass>( f, fs );
    auto d = dsp::onepole_design<FilterResponse::low_pass>( double( f ), double( fs ) );
    auto e = dsp::onepole_design<FilterResponse::low_pass>( double( f ), fs );
    same( c.a.a1, d.a.a1, "arguments of any type design the same filter" );
    same( c.b.b0, d.b.b0, "arguments of any type design the same filter" );
    same( e.a.a1, d.a.a1, "arguments of any type design the same filter" );
    same( e.b.b0, d.b.b0, "arguments of any type design the same filter" );
    auto g = dsp::onepole_design<FilterResponse::high_pass>( f, fs );
    auto h = dsp::onepole_design<FilterResponse::high_pass>( double( f ), double( fs ) );
    same( g.a.a1, h.a.a1, "arguments of any type design the same filter" );
    same( g.b.b0, h.b.b0, "arguments of any type design the same filter" );
}
