// @mode real
// @bound capacities 1 to 4; every misuse of a cascade of capacity 3 with 0 to 3 sections; every valid sequence of 4 operations out of append, insert, remove, replace, clear on a cascade constructed with 0 to 2 sections (capacity 4: 3 operations quick, 4 thorough); section contents arbitrary reals with an arbitrary history
// @assume operations respect their documented preconditions (index below size, size below capacity), except where shown that breaking them is stopped; insertion at the end is done by append
#include "bq.h"
#include "dsp/biquad-cascade.hpp"
using dsp::BiQuadCascadeT;

static BQ section( double id, double h )
{
    BQ f = make( { id, 2 * id, 3 * id, 4, 5 * id } );
    f.step( h );
    f.step( 4 * h + 2 * h );        // the state is now 2h, h
    return f;
}
static void one( BQ const & f, double id, double h )
{
    vp_eq( f.coeff_b().b0, id, "section is the one put there" );
    vp_eq( f.coeff_b().b2, 3 * id, "section is the one put there" );
    vp_eq( f.coeff_a().a2, 5 * id, "section is the one put there" );
    vp_eq( f.state().v1, 2 * h, "section keeps its history" );
    vp_eq( f.state().v2, h, "section keeps its history" );
}
template< int N > void compare( BiQuadCascadeT<double,N> const & c, double const * id, double const * h, int n )
{
    vp_check( c.size() == n, "size" );
    vp_check( c.reserved() == N, "capacity" );
    vp_check( c.end() - c.begin() == n, "iteration covers the sections in use" );
    int i = 0;
    for ( auto const & f : c )
    {
        one( f, id[i], h[i] );
        vp_eq( c.coeff_b( i ).b1, 2 * id[i], "coefficients are those of the indexed section" );
        vp_eq( c.coeff_a( i ).a2, 5 * id[i], "coefficients are those of the indexed section" );
        vp_eq( c.state( i ).v2, h[i], "state is that of the indexed section" );
        ++i;
    }
    vp_check( i == n, "iteration visits every section once" );
}
template< int N > void operations( BiQuadCascadeT<double,N> c, double * id, double * h, int n, int ops )
{
    compare<N>( c, id, h, n );
    for( int k = 0; k < ops; ++k )
    {
        char a[3] = { 'i', char('0' + k), 0 }, b[3] = { 'h', char('0' + k), 0 };
        const double x = vp_real( a ), y = vp_real( b );
        const int op = vp_choose( "op", 5 );
        vp_assume( op != 0 || n < N );
        vp_assume( op != 1 || (n < N && n > 0) );
        vp_assume( (op != 2 && op != 3) || n > 0 );
        const int at = ( op >= 1 && op <= 3 ) ? vp_choose( "at", n ) : 0;
        switch( op )
        {
        case 0:
            c.append( section( x, y ) );
            id[n] = x; h[n] = y; ++n;
            break;
        case 1:
            c.insert( at, section( x, y ) );
            for( int j = n; j > at; --j ) { id[j] = id[j-1]; h[j] = h[j-1]; }
            id[at] = x; h[at] = y; ++n;
            break;
        case 2:
            c.remove( at );
            for( int j = at; j + 1 < n; ++j ) { id[j] = id[j+1]; h[j] = h[j+1]; }
            --n;
            break;
        case 3:
            one( c.replace( at, section( x, y ) ), id[at], h[at] );
            id[at] = x; h[at] = y;
            break;
        default:
            c.clear();
            n = 0;
        }
        compare<N>( c, id, h, n );
    }
}
template< int N > void start( int ops )
{
    double id[N + 1], h[N + 1];
    const int n = vp_range( "initial", 0, N < 2 ? N : 2 );
    for( int i = 0; i < n; ++i )
    {
        char a[3] = { 'p', char('0' + i), 0 }, b[3] = { 'q', char('0' + i), 0 };
        id[i] = vp_real( a ); h[i] = vp_real( b );
    }
    if ( n == 0 ) operations<N>( BiQuadCascadeT<double,N>(), id, h, 0, ops );
    if ( n == 1 ) operations<N>( BiQuadCascadeT<double,N>( section( id[0], h[0] ) ), id, h, 1, ops );
    if constexpr ( N > 1 )
        if ( n == 2 ) operations<N>( BiQuadCascadeT<double,N>( section( id[0], h[0] ), section( id[1], h[1] ) ), id, h, 2, ops );
}
VP_HARNESS( h_1 ) { start<1>( 3 ); }
VP_HARNESS( h_2 ) { start<2>( 3 ); }
VP_HARNESS( h_3 ) { start<3>( 3 ); }
VP_HARNESS( h_4 ) { start<4>( 3 ); }
// @tier thorough
VP_HARNESS( h_2_deep ) { start<2>( 4 ); }
// @tier thorough
VP_HARNESS( h_3_deep ) { start<3>( 4 ); }
// @tier thorough
VP_HARNESS( h_4_deep ) { start<4>( 4 ); }

VP_HARNESS( h_full ) {
    // fill to the last place, take out each place in turn, modify through iteration
    double id[4], h[4];
    for( int i = 0; i < 4; ++i )
    {
        char a[3] = { 'p', char('0' + i), 0 }, b[3] = { 'q', char('0' + i), 0 };
        id[i] = vp_real( a ); h[i] = vp_real( b );
    }
    BiQuadCascadeT<double,4> c( section( id[0], h[0] ), section( id[1], h[1] ), section( id[2], h[2] ), section( id[3], h[3] ) );
    compare<4>( c, id, h, 4 );
    BiQuadCascadeT<double,4> d( c ), e;
    e = c;
    const int at = vp_choose( "at", 4 );
    c.remove( at );
    compare<4>( d, id, h, 4 );
    const double x = vp_real("x"), y = vp_real("y");
    if ( at < 3 ) c.insert( at, section( x, y ) ); else c.append( section( x, y ) );
    const double i0 = id[at], h0 = h[at];
    id[at] = x; h[at] = y;
    compare<4>( c, id, h, 4 );
    id[at] = i0; h[at] = h0;
    compare<4>( e, id, h, 4 );
    for ( auto & f : d ) f.reset();
    for( int i = 0; i < 4; ++i ) vp_check( d.state( i ).v1 == 0, "iteration gives access to the sections" );
}

// misuse is stopped by an assertion (in a build that has assertions) before anything outside the sections in use is touched
static void misuse( int size )
{
    BiQuadCascadeT<double,3> c;
    for( int i = 0; i < size; ++i ) c.append( section( i + 1, i ) );
    const int op = vp_choose( "op", 7 );
    const int at = (int)vp_sym_small( "at", -4, 7 );
    vp_assume( op == 5 ? (at < 0) | (at > size) : op < 5 ? (at < 0) | (at >= size) : size == 3 );
    vp_note( "expect stop" );
    switch( op )
    {
    case 0: c.coeff_a( at ); break;
    case 1: c.coeff_b( at ); break;
    case 2: c.state( at ); break;
    case 3: c.remove( at ); break;
    case 4: c.replace( at, section( 7, 8 ) ); break;
    case 5: c.insert( at, section( 7, 8 ) ); break;
    default: c.append( section( 7, 8 ) ); break;
    }
    vp_fail( "an operation outside the sections in use or beyond the capacity is stopped by an assertion" );
}
VP_HARNESS( h_misuse_0 ) { misuse( 0 ); }
VP_HARNESS( h_misuse_1 ) { misuse( 1 ); }
VP_HARNESS( h_misuse_2 ) { misuse( 2 ); }
VP_HARNESS( h_misuse_3 ) { misuse( 3 ); }
// a full cascade takes no more, wherever the insertion
VP_HARNESS( h_misuse_full ) {
    BiQuadCascadeT<double,3> c( section( 1, 1 ), section( 2, 2 ), section( 3, 3 ) );
    const int at = vp_choose( "at", 3 );
    vp_note( "expect stop" );
    c.insert( at, section( 7, 8 ) );
    vp_fail( "an insertion into a full cascade is stopped by an assertion" );
}
