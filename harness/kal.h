#ifndef KAL_H
#define KAL_H
#include "mat.h"
#include "dsp/kalman.hpp"
using num::kalman;

// The oracle uses plain arrays only, so that it shares nothing with the matrix code.
struct M2 { double a, b, c, d; };           // 2x2, row major
struct V2 { double x, y; };
inline M2 any2( char const * n ) { char s[4] = { n[0], n[1], '1', 0 }; M2 m; m.a = vp_real( s ); s[2] = '2'; m.b = vp_real( s ); s[2] = '3'; m.c = vp_real( s ); s[2] = '4'; m.d = vp_real( s ); return m; }
inline M2 sym2( char const * n ) { char s[4] = { n[0], n[1], '1', 0 }; M2 m; m.a = vp_real( s ); s[2] = '2'; m.b = m.c = vp_real( s ); s[2] = '4'; m.d = vp_real( s ); return m; }
inline V2 anyv( char const * n ) { char s[4] = { n[0], n[1], '1', 0 }; V2 m; m.x = vp_real( s ); s[2] = '2'; m.y = vp_real( s ); return m; }
inline M2 mul( M2 const & p, M2 const & q ) { return { p.a*q.a + p.b*q.c, p.a*q.b + p.b*q.d, p.c*q.a + p.d*q.c, p.c*q.b + p.d*q.d }; }
inline M2 add( M2 const & p, M2 const & q ) { return { p.a+q.a, p.b+q.b, p.c+q.c, p.d+q.d }; }
inline M2 sub( M2 const & p, M2 const & q ) { return { p.a-q.a, p.b-q.b, p.c-q.c, p.d-q.d }; }
inline M2 tr( M2 const & p ) { return { p.a, p.c, p.b, p.d }; }
inline V2 mul( M2 const & p, V2 const & v ) { return { p.a*v.x + p.b*v.y, p.c*v.x + p.d*v.y }; }
inline V2 add( V2 const & p, V2 const & q ) { return { p.x+q.x, p.y+q.y }; }
inline V2 sub( V2 const & p, V2 const & q ) { return { p.x-q.x, p.y-q.y }; }

inline matrix<double,2,2> mat( M2 const & m ) { matrix<double,2,2> r( 0.0 ); r(0,0) = m.a; r(0,1) = m.b; r(1,0) = m.c; r(1,1) = m.d; return r; }
inline colvec<double,2>   vec( V2 const & v ) { colvec<double,2> r( 0.0 ); r(0,0) = v.x; r(1,0) = v.y; return r; }
inline rowvec<double,2>   row( V2 const & v ) { rowvec<double,2> r( 0.0 ); r(0,0) = v.x; r(0,1) = v.y; return r; }
inline matrix<double,1,1> one( double v ) { matrix<double,1,1> r( 0.0 ); r(0,0) = v; return r; }
template< typename X > M2 get( X const & m ) { return { m(0,0), m(0,1), m(1,0), m(1,1) }; }
template< typename X > V2 getv( X const & m ) { return { m(0,0), m(1,0) }; }
inline void eq( M2 const & p, M2 const & q, char const * m ) { vp_eq( p.a, q.a, m ); vp_eq( p.b, q.b, m ); vp_eq( p.c, q.c, m ); vp_eq( p.d, q.d, m ); }
inline void eq( V2 const & p, V2 const & q, char const * m ) { vp_eq( p.x, q.x, m ); vp_eq( p.y, q.y, m ); }
#endif
