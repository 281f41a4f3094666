#ifndef BQ_H
#define BQ_H
#include "vp.h"
#include <cmath>
#include <complex>
#include <utility>
#include "dsp/biquad.hpp"
using dsp::BiQuadT;
using BQ = BiQuadT<double>;
struct Co { double b0, b1, b2, a1, a2; };
inline Co anyco( char t )
{
    char s[4] = { 'b', '0', t, 0 };
    Co c;
    c.b0 = vp_real( s ); s[1] = '1'; c.b1 = vp_real( s ); s[1] = '2'; c.b2 = vp_real( s );
    s[0] = 'a'; s[1] = '1'; c.a1 = vp_real( s ); s[1] = '2'; c.a2 = vp_real( s );
    return c;
}
template< typename F = BQ > F make( Co const & c )
{
    typename F::B b; b.b0 = c.b0; b.b1 = c.b1; b.b2 = c.b2;
    typename F::A a; a.a1 = c.a1; a.a2 = c.a2;
    return F( b, a );
}
inline double input( int i ) { char s[3] = { 'x', char('0' + i), 0 }; return vp_real( s ); }
inline double go( BQ & f, double x, int form ) { return form == 0 ? f.step( x ) : form == 1 ? f.step_df2( x ) : f.step_df2_transposed( x ); }

// the difference equation, direct form I, on plain numbers
struct Ref
{
    Co c; double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
    double operator()( double x )
    {
        const double y = c.b0 * x + c.b1 * x1 + c.b2 * x2 - c.a1 * y1 - c.a2 * y2;
        x2 = x1; x1 = x; y2 = y1; y1 = y;
        return y;
    }
};
#endif
