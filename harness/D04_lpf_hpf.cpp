// @mode real
// @bound every design frequency in (0, fs/2), every fs > 0, every Q > 0, every input sequence of 5 samples, two filters interleaved
// @assume exact reals (rounding is outside the claim)
#include "design.h"
#include "dsp/filter.hpp"

template< typename F > void filter( bool low )
{
    const double K = vp_real("K"), fs = vp_real("fs"), Q = vp_real("Q");
    vp_assume( (K > 0) & (fs > 0) & (Q > 0) );
    const double n = 1 + K / Q + K * K;
    const double a1 = 2 * ( K * K - 1 ) / n, a2 = ( 1 - K / Q + K * K ) / n;
    Co const c = low ? Co{ K*K / n, 2*K*K / n, K*K / n, a1, a2 } : Co{ 1 / n, -2 / n, 1 / n, a1, a2 };
    F f( freq( K, fs ), fs, Q ), g( freq( K, fs ), fs, Q );
    Ref r = { c }, s = { c };
    for( int i = 0; i < 4; ++i )
    {
        const double x = input( i ), u = vp_real("u");
        vp_eq( f( x ), r( x ), "output is that of the designed section" );
        if ( i == 1 )
        {
            F h( g );
            h( vp_real("other") );
        }
        vp_eq( g( u ), s( u ), "filters do not influence each other" );
    }
}
VP_HARNESS( h_lpf ) { filter< dsp::Lpf<double> >( true ); }
VP_HARNESS( h_hpf ) { filter< dsp::Hpf<double> >( false ); }

// a constant input that has settled: the low pass passes it, the high pass removes it
VP_HARNESS( h_settled ) {
    const double K = vp_real("K"), fs = vp_real("fs"), Q = vp_real("Q"), v = vp_real("v");
    vp_assume( (K > 0) & (fs > 0) & (Q > 0) );
    // Drive the low pass from rest to the settled state of v with two inputs, found from the section's coefficients.
    const double n = 1 + K / Q + K * K, a1 = 2 * ( K * K - 1 ) / n, a2 = ( 1 - K / Q + K * K ) / n;
    const double w = v / ( 1 + a1 + a2 );
    dsp::Lpf<double> f( freq( K, fs ), fs, Q );
    dsp::Hpf<double> g( freq( K, fs ), fs, Q );
    f( w ); g( w );
    f( w + a1 * w ); g( w + a1 * w );
    for( int i = 0; i < 3; ++i )
    {
        vp_eq( f( v ), v, "a settled constant passes the low pass unchanged" );
        vp_eq( g( v ), 0, "a settled constant is removed by the high pass" );
    }
}
