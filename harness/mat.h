#ifndef MAT_H
#define MAT_H
#include "vp.h"
#include "num/matrix.hpp"
#include <utility>
using num::matrix; using num::colvec; using num::rowvec;

// an arbitrary matrix, its elements named <n>rc
template< typename T, int N, int M > matrix<T,N,M> anym( char const * n )
{
    matrix<T,N,M> A( T(0) );
    for( int r = 0; r < N; ++r )
        for( int c = 0; c < M; ++c )
        {
            char s[8] = { n[0], char('0' + r), char('0' + c), 0 };
            A( r, c ) = vp_any<T>::make( s );
        }
    return A;
}
inline void same( double a, double b, char const * m ) { vp_eq( a, b, m ); }
inline void same( int32_t a, int32_t b, char const * m ) { vp_check( a == b, m ); }
inline void same( int16_t a, int16_t b, char const * m ) { vp_check( a == b, m ); }
#endif
