// @mode real
// @opt maxn=8
// @bound designs of 0 to 4, 12 and 300 sections with arbitrary real coefficients (capacity 4 and larger), input histories of 4 samples; designs by chebyshev1_lp_hp and chebyshev2_lp_hp of order 1 to 6 for every specification that gives the order (reported stability: order 1 to 3)
// @assume exact reals; the design has no more sections than the cascade has room for
#include "cheb.h"
#include "bq.h"
#include "dsp/biquad-cascade.hpp"
using dsp::DigitalCoeffT;

static DigitalCoeffT<double> any_design( Co * c, int n )
{
    DigitalCoeffT<double> d( 0.0, 0.0, 0.0, 0.0, 0.0, 0, 0.0, 0.0 );
    for( int i = 0; i < n; ++i )
    {
        c[i] = anyco( char( '0' + i % 10 ) );
        d.b.emplace_back( c[i].b0, c[i].b1, c[i].b2 );
        d.a.emplace_back( c[i].a1, c[i].a2 );
    }
    return d;
}
template< int N > void sections()
{
    const int n = vp_choose( "sections", 5 );
    Co c[4];
    auto d = any_design( c, n );
    vp_check( d.size() == unsigned( n ), "size of the design" );
    auto q = dsp::make_biquad_cascade<N>( d );
    vp_check( q.size() == n, "every section is taken over" );
    vp_check( q.reserved() == N, "capacity is as asked" );
    for( int i = 0; i < n; ++i )
    {
        vp_eq( q.coeff_b( i ).b0, c[i].b0, "b0 of the section" );
        vp_eq( q.coeff_b( i ).b1, c[i].b1, "b1 of the section" );
        vp_eq( q.coeff_b( i ).b2, c[i].b2, "b2 of the section" );
        vp_eq( q.coeff_a( i ).a1, c[i].a1, "a1 of the section" );
        vp_eq( q.coeff_a( i ).a2, c[i].a2, "a2 of the section" );
        vp_eq( q.state( i ).v1, 0, "filter starts at rest" );
        vp_eq( q.state( i ).v2, 0, "filter starts at rest" );
    }
}
template< int K > void many()
{
    static Co c[K];
    auto q = dsp::make_biquad_cascade<K>( any_design( c, K ) );
    vp_check( q.size() == K, "every section of a long design is taken over" );
    for( int i = 0; i < K; ++i )
    {
        vp_eq( q.coeff_b( i ).b0, c[i].b0, "b0 of the section" );
        vp_eq( q.coeff_b( i ).b1, c[i].b1, "b1 of the section" );
        vp_eq( q.coeff_b( i ).b2, c[i].b2, "b2 of the section" );
        vp_eq( q.coeff_a( i ).a1, c[i].a1, "a1 of the section" );
        vp_eq( q.coeff_a( i ).a2, c[i].a2, "a2 of the section" );
    }
}
VP_HARNESS( h_many_12 ) { many<12>(); }
VP_HARNESS( h_many_300 ) { many<300>(); }
template< int K > void output()
{
    const int form = vp_choose( "form", 3 );
    Co c[4];
    auto q = dsp::make_biquad_cascade<4>( any_design( c, K ) );
    Ref r[4];
    for( int i = 0; i < K; ++i ) r[i].c = c[i];
    for( int k = 0; k < 4; ++k )
    {
        const double x = input( k );
        const double y = form == 0 ? step( q, x ) : form == 1 ? step_df2( q, x ) : step_df2_transposed( q, x );
        double e = x;
        for( int i = 0; i < K; ++i ) e = r[i]( e );
        vp_eq( y, e, "output is that of the designed sections in series" );
    }
}
// A design by the library: the filter has the designed response and is stable.
static double power( double x, int n ) { double r = 1; while ( n-- ) r = r * x; return r; }
template< int N > void designed( bool one )
{
    const bool high = vp_choose( "high pass", 2 );
    const double u = vp_real("u"), v = vp_real("v"), n = vp_real("n"), Wp = vp_real("Wp"), fs = vp_real("fs");
    vp_assume( (u > 1) & (v > 1) & (Wp > 0) & (fs > 0) );
    vp_assume( (n > N - 1) & (n <= N - 1.0 / 1024) );
    const double Ws = Wp * ( v + 1 / v ) / 2, p = power( u, N ), w = std::exp( n * std::log( v ) ), g = ( w + 1 / w ) / 2;
    const double e  = one ? 2 * p / ( p * p - 1 ) : ( p - 1 / p ) / 2 / g;
    const double es = e * g;
    const double Ap = dB10( 1 + e * e ), As = dB10( 1 + es * es );
    vp_assume( (Ap >= 0.01) & (As >= 0.01) );
    auto c = one ? dsp::chebyshev1_lp_hp( kind( high ), fs, edge( high, Wp, fs ), edge( high, Ws, fs ), Ap, As )
                 : dsp::chebyshev2_lp_hp( kind( high ), fs, edge( high, Wp, fs ), edge( high, Ws, fs ), Ap, As );
    auto q = dsp::make_biquad_cascade<N>( c );
    vp_check( q.size() == ( N + 1 ) / 2, "every section is taken over" );
    if ( N < 4 ) vp_check( is_stable( q ), "the filter reports to be stable" );
    // constant input, from the state of rest at that level: passes as the design says
    const double T = cheb( N, 0 );
    double y = 1, d = 1;
    for( int i = 0; i < q.size(); ++i )
    {
        const double s = high ? -1 : 1;
        y = y * ( q.coeff_b( i ).b0 + s * q.coeff_b( i ).b1 + q.coeff_b( i ).b2 );
        d = d * ( 1 + s * q.coeff_a( i ).a1 + q.coeff_a( i ).a2 );
    }
    if ( one ) vp_eq( y * y * ( 1 + e * e * T * T ), d * d, "gain at the far end of the pass band" );
    else       vp_eq( y, d, "gain at the far end of the pass band" );
}
VP_HARNESS( h_sections ) { sections<4>(); }
VP_HARNESS( h_sections_room ) { sections<6>(); }
VP_HARNESS( h_output_1 ) { output<1>(); }
VP_HARNESS( h_output_2 ) { output<2>(); }
VP_HARNESS( h_output_3 ) { output<3>(); }
VP_HARNESS( h_output_4 ) { output<4>(); }
VP_HARNESS( h_designed1_1 ) { designed<1>( true ); }
VP_HARNESS( h_designed1_2 ) { designed<2>( true ); }
VP_HARNESS( h_designed1_3 ) { designed<3>( true ); }
VP_HARNESS( h_designed1_4 ) { designed<4>( true ); }
VP_HARNESS( h_designed2_1 ) { designed<1>( false ); }
VP_HARNESS( h_designed2_2 ) { designed<2>( false ); }
VP_HARNESS( h_designed2_3 ) { designed<3>( false ); }
VP_HARNESS( h_designed2_4 ) { designed<4>( false ); }
VP_HARNESS( h_designed1_5 ) { designed<5>( true ); }
VP_HARNESS( h_designed1_6 ) { designed<6>( true ); }
VP_HARNESS( h_designed2_5 ) { designed<5>( false ); }
VP_HARNESS( h_designed2_6 ) { designed<6>( false ); }

// a design with more sections than there is room for is stopped by an assertion
VP_HARNESS( h_no_room ) {
    const int n = 3 + vp_choose( "sections", 2 );
    Co c[4];
    auto d = any_design( c, n );
    vp_note( "expect stop" );
    dsp::make_biquad_cascade<2>( d );
    vp_fail( "a design with more sections than there is room for is stopped by an assertion" );
}
