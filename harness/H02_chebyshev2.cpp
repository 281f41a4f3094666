// @mode real
// @opt maxn=8
// @bound filter orders 1 to 10 (the reported frequency of half power: 1 to 6), low and high pass; every sample rate, every stop-band edge, every ripple and attenuation that leads to the order; the response at every frequency
// @assume exact reals with the constant pi exact (rounding is outside the claim); pass-band edge below stop-band edge for low pass and above it for high pass; ripple and attenuation at least 0.01 dB
#include "cheb.h"

// All specifications of order N: attenuation from sinh(N log u), edges from cosh(log v), ripple from cosh(n log v).
struct Spec { double u, v, w, n, e, es, Wp, Ws, fs, Ap, As; };
static double power( double x, int n ) { double r = 1; while ( n-- ) r = r * x; return r; }
static void finish( Spec & s )
{
    s.e = 2 * s.es / ( s.w + 1 / s.w );
    s.Ap = dB10( 1 + s.e * s.e );
    s.As = dB10( 1 + s.es * s.es );
    vp_assume( (s.Ap >= 0.01) & (s.As >= 0.01) );
}
static Spec any( int N, bool half = false )
{
    Spec s;
    s.u = vp_real("u"); s.v = vp_real("v"); s.n = vp_real("n"); s.Ws = vp_real("Ws"); s.fs = vp_real("fs");
    vp_assume( (s.u > 1) & (s.v > 1) & (s.Ws > 0) & (s.fs > 0) );
    vp_assume( (s.n > N - 1) & (s.n <= N - 1.0 / 1024) );
    s.Wp = s.Ws * 2 / ( s.v + 1 / s.v );
    const double p = power( s.u, N );
    s.es = half ? ( p + 1 / p ) / 2 : ( p - 1 / p ) / 2;
    s.w = std::exp( s.n * std::log( s.v ) );
    finish( s );
    return s;
}
static auto design( Spec const & s, bool high )
{
    return dsp::chebyshev2_lp_hp( kind( high ), s.fs, edge( high, s.Wp, s.fs ), edge( high, s.Ws, s.fs ), s.Ap, s.As );
}
template< int N > void response_()
{
    const bool high = vp_choose( "high pass", 2 );
    const Spec s = any( N );
    auto c = design( s, high );
    vp_check( c.info.N == N, "the order is the smallest that meets the specification" );
    vp_check( c.b.size() == ( N + 1 ) / 2 && c.a.size() == ( N + 1 ) / 2 && c.size() == ( N + 1 ) / 2, "one section per pair of poles and one for the single pole" );
    const double W = vp_real("W");                      // stop-band edge in units of it
    vp_assume( W > 0 );
    auto m = magnitude( c, high ? W / s.Ws : s.Ws / W );
    const double T = cheb( N, W );
    vp_eq( m.n * ( T * T + s.es * s.es ), m.d * T * T, "gain at every frequency is that of the filter with equal ripple in the stop band" );
}
template< int N > void corner()
{
    const bool high = vp_choose( "high pass", 2 );
    const Spec s = any( N );
    auto c = design( s, high );
    auto p = high ? at_half( c ) : at_zero( c ), q = high ? at_zero( c ) : at_half( c );
    vp_eq( p.n, p.d, "unity gain at the far end of the pass band" );
    if ( N % 2 ) vp_eq( q.n, 0, "nothing passes at the far end of the stop band (odd order)" );
    else vp_eq( q.n * q.n * ( 1 + s.es * s.es ), q.d * q.d, "gain at the far end of the stop band is down by the attenuation (even order)" );
    auto m = magnitude( c, high ? 1 / s.Ws : s.Ws );
    vp_eq( m.n * ( 1 + s.es * s.es ), m.d, "gain at the stop-band edge is down by the attenuation" );
}
template< int N > void ripple()
{
    const bool high = vp_choose( "high pass", 2 );
    const Spec s = any( N );
    auto c = design( s, high );
    auto m = magnitude( c, high ? 1 / s.Wp : s.Wp );
    const double V = power( s.v, N ), T = ( V + 1 / V ) / 2;
    vp_eq( m.n * ( T * T + s.es * s.es ), m.d * T * T, "gain at the pass-band edge" );
    vp_assume( s.w <= V );                              // that is n <= N
    vp_assume( s.w > 1 );
    vp_le( s.w + 1 / s.w, V + 1 / V, "ripple at the pass-band edge is as requested or less" );
}
// frequency of half power: attenuation from cosh(N log u), that is more than 3 dB
template< int N > void half_power()
{
    const bool high = vp_choose( "high pass", 2 );
    const Spec s = any( N, true );
    auto c = design( s, high );
    vp_eq( c.info.f3, edge( high, s.Ws * 2 / ( s.u + 1 / s.u ), s.fs ), "reported frequency of half power" );
}
template< int N > void stable()
{
    const bool high = vp_choose( "high pass", 2 );
    const Spec s = any( N );
    auto c = design( s, high );
    for( unsigned i = 0; i < c.a.size(); ++i )
    {
        vp_check( (c.a[i].a2 < 1) & (c.a[i].a2 > -1), "poles of every section are inside the unit circle" );
        vp_check( 1 + c.a[i].a1 + c.a[i].a2 > 0, "no pole at or beyond z = 1" );
        vp_check( 1 - c.a[i].a1 + c.a[i].a2 > 0, "no pole at or beyond z = -1" );
    }
}
VP_HARNESS( h_response_1 ) { response_<1>(); }
VP_HARNESS( h_response_2 ) { response_<2>(); }
VP_HARNESS( h_response_3 ) { response_<3>(); }
VP_HARNESS( h_response_4 ) { response_<4>(); }
VP_HARNESS( h_corner_1 ) { corner<1>(); }
VP_HARNESS( h_corner_2 ) { corner<2>(); }
VP_HARNESS( h_corner_3 ) { corner<3>(); }
VP_HARNESS( h_corner_4 ) { corner<4>(); }
VP_HARNESS( h_stable_1 ) { stable<1>(); }
VP_HARNESS( h_stable_2 ) { stable<2>(); }
VP_HARNESS( h_stable_3 ) { stable<3>(); }
VP_HARNESS( h_stable_4 ) { stable<4>(); }
VP_HARNESS( h_ripple_1 ) { ripple<1>(); }
VP_HARNESS( h_ripple_2 ) { ripple<2>(); }
VP_HARNESS( h_ripple_3 ) { ripple<3>(); }
VP_HARNESS( h_ripple_4 ) { ripple<4>(); }
VP_HARNESS( h_half_power_1 ) { half_power<1>(); }
VP_HARNESS( h_half_power_2 ) { half_power<2>(); }
VP_HARNESS( h_half_power_3 ) { half_power<3>(); }
VP_HARNESS( h_half_power_4 ) { half_power<4>(); }
VP_HARNESS( h_response_5 ) { response_<5>(); }
VP_HARNESS( h_response_6 ) { response_<6>(); }
VP_HARNESS( h_corner_5 ) { corner<5>(); }
VP_HARNESS( h_corner_6 ) { corner<6>(); }
VP_HARNESS( h_stable_5 ) { stable<5>(); }
VP_HARNESS( h_stable_6 ) { stable<6>(); }
VP_HARNESS( h_ripple_5 ) { ripple<5>(); }
VP_HARNESS( h_ripple_6 ) { ripple<6>(); }
// @tier thorough
VP_HARNESS( h_half_power_6 ) { half_power<6>(); }
// @tier thorough
VP_HARNESS( h_half_power_5 ) { half_power<5>(); }
// @fopt maxn=12
VP_HARNESS( h_response_7 ) { response_<7>(); }
// @fopt maxn=12
VP_HARNESS( h_corner_7 ) { corner<7>(); }
// @fopt maxn=12
VP_HARNESS( h_stable_7 ) { stable<7>(); }
// @fopt maxn=12
VP_HARNESS( h_ripple_7 ) { ripple<7>(); }
// @fopt maxn=12
VP_HARNESS( h_response_8 ) { response_<8>(); }
// @fopt maxn=12
VP_HARNESS( h_corner_8 ) { corner<8>(); }
// @fopt maxn=12
VP_HARNESS( h_stable_8 ) { stable<8>(); }
// @fopt maxn=12
VP_HARNESS( h_ripple_8 ) { ripple<8>(); }
// @fopt maxn=12
VP_HARNESS( h_response_9 ) { response_<9>(); }
// @fopt maxn=12
VP_HARNESS( h_corner_9 ) { corner<9>(); }
// @fopt maxn=12
VP_HARNESS( h_stable_9 ) { stable<9>(); }
// @fopt maxn=12
VP_HARNESS( h_ripple_9 ) { ripple<9>(); }
// @fopt maxn=12
VP_HARNESS( h_response_10 ) { response_<10>(); }
// @fopt maxn=12
VP_HARNESS( h_corner_10 ) { corner<10>(); }
// @fopt maxn=12
VP_HARNESS( h_stable_10 ) { stable<10>(); }
// @fopt maxn=12
VP_HARNESS( h_ripple_10 ) { ripple<10>(); }

// a specification outside the sampled band or for an unsupported kind is stopped by an assertion
VP_HARNESS( h_misuse ) {
    const int k = vp_choose( "kind", 4 );
    const double fs = vp_real("fs"), fp = vp_real("fp"), ft = vp_real("ft");
    vp_assume( (fs > 0) & (fp > 0) & (ft > 0) );
    const bool supported = k < 2;
    vp_assume( !supported | (2 * fp >= fs) | (2 * ft >= fs) );
    vp_note( "expect stop" );
    dsp::chebyshev2_lp_hp( k == 0 ? FilterResponse::low_pass : k == 1 ? FilterResponse::high_pass : k == 2 ? FilterResponse::band_pass : FilterResponse::band_stop, fs, fp, ft, 1.0, 20.0 );
    vp_fail( "a specification outside the sampled band or for an unsupported kind of response is stopped by an assertion" );
}
