#ifndef DESIGN_H
#define DESIGN_H
#include "bq.h"
#include "dsp/biquad-design.hpp"
using dsp::FilterResponse;

// Frequencies are given through the tangent of half the angle, W = tan(pi f/fs), which maps (0, fs/2) onto (0, inf).
inline double freq( double W, double fs ) { return std::atan( W ) * fs / num::pi<double>; }
inline double decibel( double V ) { return 20 * std::log10( V ); }
struct Cx { double r, i; };
inline Cx mul( Cx p, Cx q ) { return { p.r*q.r - p.i*q.i, p.r*q.i + p.i*q.r }; }
inline double abs2( Cx p ) { return p.r*p.r + p.i*p.i; }
// numerator and denominator at W, both multiplied by (1 + iW)^2
inline Cx num_at( double b0, double b1, double b2, double W ) { return { (b0 + b2) * (1 - W*W) + b1 * (1 + W*W), 2 * W * (b0 - b2) }; }
template< typename C > Cx N( C const & c, double W ) { return num_at( c.b.b0, c.b.b1, c.b.b2, W ); }
template< typename C > Cx D( C const & c, double W ) { return num_at( 1, c.a.a1, c.a.a2, W ); }
inline void eqc( Cx p, Cx q, char const * m ) { vp_eq( p.r, q.r, m ); vp_eq( p.i, q.i, m ); }
// H = p/q at W, q not zero
template< typename C > void shape( C const & c, double W, Cx p, Cx q, char const * m ) { eqc( mul( N( c, W ), q ), mul( p, D( c, W ) ), m ); }
template< typename C > double dc_num( C const & c ) { return c.b.b0 + c.b.b1 + c.b.b2; }
template< typename C > double dc_den( C const & c ) { return 1 + c.a.a1 + c.a.a2; }
template< typename C > double ny_num( C const & c ) { return c.b.b0 - c.b.b1 + c.b.b2; }
template< typename C > double ny_den( C const & c ) { return 1 - c.a.a1 + c.a.a2; }
#endif
