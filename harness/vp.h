// Harness primitives.  In the symbolic run they are interpreted by /verif/engine; in a replay they are
// implemented by vp_native.cpp, which takes the input values from a file.
#ifndef VP_H
#define VP_H
#include <stdint.h>

extern "C" {
uint64_t vp_sym_int( char const * name, int bits );     // arbitrary value of that many bits (zero-extended)
int64_t  vp_sym_small( char const * name, int lo, int hi ); // arbitrary value of lo..hi, within 16 bits
double   vp_sym_real( char const * name );              // arbitrary real (real mode) / double (ieee mode)
float    vp_sym_f32( char const * name );
int      vp_choose( char const * name, int n );         // all of 0..n-1 are explored
void     vp_assume( bool c );
void     vp_check( bool c, char const * msg );          // must hold
void     vp_eq( double a, double b, char const * msg ); // equal (replay: within rounding)
void     vp_le( double a, double b, char const * msg ); // a <= b (replay: within rounding)
void     vp_note( char const * text );
void     vp_fail( char const * msg );
void     vp_end();
int      vp_pin( int v );                               // enumerate the feasible values of v
}

#define VP_HARNESS( name )  extern "C" void name()

inline int8_t   vp_i8 ( char const * n ) { return (int8_t  )vp_sym_int( n,  8 ); }
inline uint8_t  vp_u8 ( char const * n ) { return (uint8_t )vp_sym_int( n,  8 ); }
inline int16_t  vp_i16( char const * n ) { return (int16_t )vp_sym_int( n, 16 ); }
inline uint16_t vp_u16( char const * n ) { return (uint16_t)vp_sym_int( n, 16 ); }
inline int32_t  vp_i32( char const * n ) { return (int32_t )vp_sym_int( n, 32 ); }
inline uint32_t vp_u32( char const * n ) { return (uint32_t)vp_sym_int( n, 32 ); }
inline int64_t  vp_i64( char const * n ) { return (int64_t )vp_sym_int( n, 64 ); }
inline double   vp_real( char const * n ) { return vp_sym_real( n ); }

template< typename T > struct vp_any;
template<> struct vp_any<int8_t  > { static int8_t   make( char const * n ) { return vp_i8 ( n ); } };
template<> struct vp_any<uint8_t > { static uint8_t  make( char const * n ) { return vp_u8 ( n ); } };
template<> struct vp_any<int16_t > { static int16_t  make( char const * n ) { return vp_i16( n ); } };
template<> struct vp_any<uint16_t> { static uint16_t make( char const * n ) { return vp_u16( n ); } };
template<> struct vp_any<int32_t > { static int32_t  make( char const * n ) { return vp_i32( n ); } };
template<> struct vp_any<uint32_t> { static uint32_t make( char const * n ) { return vp_u32( n ); } };
template<> struct vp_any<int64_t > { static int64_t  make( char const * n ) { return vp_i64( n ); } };
template<> struct vp_any<double  > { static double   make( char const * n ) { return vp_sym_real( n ); } };

// an integer in [lo,hi], every value of which is explored separately
// one of several cases on every path, so that the paths of the cases add up and do not multiply:
// vp_cases one; if ( one.next() ) ... if ( one.next() ) ...
struct vp_cases { bool done = false; bool next() { if ( done ) return false; done = vp_choose( "case", 2 ); return done; } };
#define ONE if ( vp_one.next() )
inline int vp_range( char const * n, int lo, int hi ) { return lo + vp_choose( n, hi - lo + 1 ); }

#endif
