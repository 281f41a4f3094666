#ifndef CHEB_H
#define CHEB_H
#include "design.h"
#include "dsp/chebyshev-design.hpp"

// Squared magnitude of the cascade at W = tan(pi f/fs): numerator and denominator as products over the sections.
struct Mag { double n, d; };
template< typename C > Mag magnitude( C const & c, double W )
{
    Mag m = { 1, 1 };
    for( unsigned i = 0; i < c.b.size(); ++i )
    {
        m.n = m.n * abs2( num_at( c.b[i].b0, c.b[i].b1, c.b[i].b2, W ) );
        m.d = m.d * abs2( num_at( 1, c.a[i].a1, c.a[i].a2, W ) );
    }
    return m;
}
template< typename C > Mag at_zero( C const & c )
{
    Mag m = { 1, 1 };
    for( unsigned i = 0; i < c.b.size(); ++i )
    {
        m.n = m.n * ( c.b[i].b0 + c.b[i].b1 + c.b[i].b2 );
        m.d = m.d * ( 1 + c.a[i].a1 + c.a[i].a2 );
    }
    return m;
}
template< typename C > Mag at_half( C const & c )
{
    Mag m = { 1, 1 };
    for( unsigned i = 0; i < c.b.size(); ++i )
    {
        m.n = m.n * ( c.b[i].b0 - c.b[i].b1 + c.b[i].b2 );
        m.d = m.d * ( 1 - c.a[i].a1 + c.a[i].a2 );
    }
    return m;
}
// Chebyshev polynomial
inline double cheb( int n, double x )
{
    double a = 1, b = x;
    if ( n == 0 ) return 1;
    for( int i = 1; i < n; ++i ) { const double c = 2 * x * b - a; a = b; b = c; }
    return b;
}
// the band edge as the caller gives it: for a high pass the prototype runs in 1/W
inline double edge( bool high, double W, double fs ) { return freq( high ? 1 / W : W, fs ); }
inline FilterResponse kind( bool high ) { return high ? FilterResponse::high_pass : FilterResponse::low_pass; }
inline double dB10( double x ) { return 10 * std::log10( x ); }
#endif
