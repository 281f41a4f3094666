// Text output of matrices, vectors, numbers, filters and designs.
// @mode real
// @bound every content; matrices of every shape 1..3 x 1..3; vectors of 0 to 3 elements; sections in every state, cascades of 0 to 2 sections
// @assume the formatted output of texts, numbers and complex numbers by the standard library is taken as given: what is decided is which texts and values are written, in which order
#include "text.h"
#include "bq.h"
#include <cmath>
#include <complex>
#include <string>
#include <vector>
#include "core/core-io.hpp"
#include "num/matrix-io.hpp"
#include "num/fixed-point-io.hpp"
#include "dsp/biquad-cascade-io.hpp"
#include "dsp/chebyshev-design-io.hpp"
#include "dsp/kalman-io.hpp"
#include "dsp/onepole-io.hpp"
#include "dsp/onepole-design.hpp"
#include "dsp/biquad-design.hpp"

template< int N, int M > void matrix()
{
    num::matrix<double,N,M> m;
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) m( i, j ) = vp_real( "e" );
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    std::ostream & r = a << m;
    for ( int i = 0; i < N; ++i ) { for ( int j = 0; j < M; ++j ) b << " " << m( i, j ); b << "\n"; }
    vp_check( &r == &a, "output can be chained" );
    vp_same_output( a, b, "a matrix is written row by row" );
}
VP_HARNESS( h_matrix_11 ) { matrix<1,1>(); }
VP_HARNESS( h_matrix_12 ) { matrix<1,2>(); }
VP_HARNESS( h_matrix_13 ) { matrix<1,3>(); }
VP_HARNESS( h_matrix_21 ) { matrix<2,1>(); }
VP_HARNESS( h_matrix_22 ) { matrix<2,2>(); }
VP_HARNESS( h_matrix_23 ) { matrix<2,3>(); }
VP_HARNESS( h_matrix_31 ) { matrix<3,1>(); }
VP_HARNESS( h_matrix_32 ) { matrix<3,2>(); }
VP_HARNESS( h_matrix_33 ) { matrix<3,3>(); }
VP_HARNESS( h_matrix_int )
{
    num::matrix<int,2,3> m;
    for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 3; ++j ) m( i, j ) = vp_i32( "e" );
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << m << m;
    for ( int k = 0; k < 2; ++k ) for ( int i = 0; i < 2; ++i ) { for ( int j = 0; j < 3; ++j ) b << " " << m( i, j ); b << "\n"; }
    vp_same_output( a, b, "a matrix of integers is written row by row" );
}
VP_HARNESS( h_vector )
{
    const int n = vp_choose( "size", 4 );
    std::vector<double> v;
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    b << "[";
    for ( int i = 0; i < n; ++i ) { v.push_back( vp_real( "e" ) ); b << " " << v[i]; }
    b << "]";
    a << v;
    vp_same_output( a, b, "a vector is written from first to last" );
}
VP_HARNESS( h_fixed )
{
    // matrices of fixed-point numbers show their values too
    using F = num::fixed_point<int16_t,8>;
    num::matrix<F,1,2> m;
    const double x = vp_real( "x" ) , y = vp_choose( "y", 3 ) / 4.0;
    m( 0, 0 ) = F( 1.5 ); m( 0, 1 ) = F( y );
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << F( -0.25 ) << F( y ) << m << x;
    b << -0.25 << y << " " << 1.5 << " " << y << "\n" << x;
    vp_same_output( a, b, "fixed-point numbers are written as the numbers they stand for" );
}

static void expect( std::ostream & b, BQ const & f, bool stable )
{
    const auto A = f.coeff_a(); const auto B = f.coeff_b(); const auto W = f.state(); const auto p = f.poles(), z = f.zeros();
    b << "\nBiQuad is " << ( stable ? "stable:" : "NOT stable:" )
      << "\na: [A " << A.a1 << ", " << A.a2 << " ]"
      << "\nb: [B " << B.b0 << ", " << B.b1 << ", " << B.b2 << " ]"
      << "\nw: [W " << W.v1 << ", " << W.v2 << " ]"
      << "\np: [S " << p.s0 << ", " << p.s1 << " ]"
      << "\nz: [S " << z.s0 << ", " << z.s1 << " ]\n";
}
VP_HARNESS( h_section )
{
    const Co c = anyco( 'c' );
    vp_assume( c.b0 != 0 );
    BQ f = make( c );
    f.step( vp_real( "x0" ) ); f.step( vp_real( "x1" ) );
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << f;
    expect( b, f, f.is_stable() );
    vp_same_output( a, b, "a section is written with its coefficients, state, poles and zeros" );
}
VP_HARNESS( h_section_parts )
{
    const Co c = anyco( 'c' );
    BQ f = make( c );
    f.step( vp_real( "x0" ) ); f.step( vp_real( "x1" ) );
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << f.coeff_a() << f.coeff_b() << f.state();
    b << "[A " << c.a1 << ", " << c.a2 << " ][B " << c.b0 << ", " << c.b1 << ", " << c.b2 << " ][W " << f.state().v1 << ", " << f.state().v2 << " ]";
    vp_same_output( a, b, "coefficients and state are written completely" );
}
VP_HARNESS( h_section_both )
{
    const Co c = anyco( 'c' );
    dsp::biquad::BAT<double> ba;
    ba.b0 = c.b0; ba.b1 = c.b1; ba.b2 = c.b2; ba.a1 = c.a1; ba.a2 = c.a2;
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << ba;
    b << "[B " << c.b0 << ", " << c.b1 << ", " << c.b2 << " ][A " << c.a1 << ", " << c.a2 << " ]";
    vp_same_output( a, b, "a set of coefficients is written completely" );
}
static BQ known( int k, double b0, double h )          // stable if k is 0
{
    BQ f = make( { b0, 0, 0, k ? 3.0 : 0.5, 0 } );
    f.step( h );
    return f;
}
VP_HARNESS( h_cascade )
{
    const int n = vp_choose( "sections", 3 );
    const double g[] = { vp_real( "g0" ), vp_real( "g1" ) }, h[] = { vp_real( "h0" ), vp_real( "h1" ) };
    vp_assume( ( g[0] != 0 ) & ( g[1] != 0 ) );
    dsp::BiQuadCascadeT<double,3> c;
    BQ s[2];
    bool stable = true;
    for ( int i = 0; i < n; ++i )
    {
        const int k = vp_choose( "unstable", 2 );
        s[i] = known( k, g[i], h[i] );
        c.append( s[i] );
        stable = stable && k == 0;
    }
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << c;
    b << "\nFilter cascade occupies " << sizeof c << " bytes in memory.\nfilters: " << n << " entries out of " << 3 << ", " << ( stable ? "stable:" : "NOT stable:" ) << "\n";
    for ( int i = 0; i < n; ++i ) expect( b, s[i], s[i].is_stable() );
    vp_same_output( a, b, "a cascade is written section by section" );
}
VP_HARNESS( h_design_info )
{
    using Info = decltype( dsp::chebyshev1_lp_hp( dsp::FilterResponse::low_pass, 1.0, 1.0, 1.0, 1.0, 1.0 ).info );
    Info i;
    i.Wpass = vp_real( "Wpass" ); i.Wstop = vp_real( "Wstop" ); i.epass = vp_real( "epass" ); i.estop = vp_real( "estop" );
    i.Nex = vp_real( "Nex" ); i.N = vp_i32( "N" ); i.f3 = vp_real( "f3" ); i.a = vp_real( "a" );
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << i;
    b << "[I Wpass:" << i.Wpass << " Wstop:" << i.Wstop << " epass:" << i.epass << " estop:" << i.estop << " Nex:" << i.Nex << " N:" << i.N << " f3:" << i.f3 << " a:" << i.a << " ]";
    vp_same_output( a, b, "what a design found is written completely" );
}
VP_HARNESS( h_onepole )
{
    using OP = dsp::OnePoleT<double>;
    typename OP::B cb; cb.b0 = vp_real( "b0" );
    typename OP::A ca; ca.a1 = vp_real( "a1" );
    OP f( cb, ca );
    f.step( vp_real( "x" ) );
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << f;
    b << "\nOnePole is " << ( f.is_stable() ? "stable:" : "NOT stable:" ) << "\na: [A " << ca.a1 << " ]\nb: [B " << cb.b0 << " ]\nw: [W " << f.state().v1 << " ]\np: [S " << f.poles().s0 << " ]\nz: [S " << f.zeros().s0 << " ]\n";
    vp_same_output( a, b, "a one-pole filter is written with its coefficient, state, pole and zero" );
}
VP_HARNESS( h_onepole_parts )
{
    using OP = dsp::OnePoleT<double>;
    typename OP::B cb; cb.b0 = vp_real( "b0" );
    typename OP::A ca; ca.a1 = vp_real( "a1" );
    OP f( cb, ca );
    f.step( vp_real( "x" ) );
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << f.coeff_a() << f.coeff_b() << f.state();
    b << "[A " << ca.a1 << " ][B " << cb.b0 << " ][W " << f.state().v1 << " ]";
    vp_same_output( a, b, "coefficients and state are written completely" );
}
VP_HARNESS( h_design )
{
    using D = decltype( dsp::biquad_design< dsp::FilterResponse::low_pass >( 0.0, 1.0, 4.0, 1.0 ) );
    const Co c = anyco( 'c' );
    D d{ { c.b0, c.b1, c.b2 }, { c.a1, c.a2 } };
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << d.b << d.a;
    b << "[B " << c.b0 << ", " << c.b1 << ", " << c.b2 << " ][A " << c.a1 << ", " << c.a2 << " ]";
    vp_same_output( a, b, "a design is written with all its coefficients" );
}
VP_HARNESS( h_design_cascade )
{
    using D = decltype( dsp::chebyshev1_lp_hp( dsp::FilterResponse::low_pass, 1.0, 1.0, 1.0, 1.0, 1.0 ) );
    const Co c = anyco( 'c' ), e = anyco( 'e' );
    D d;
    d.b.push_back( { c.b0, c.b1, c.b2 } ); d.a.push_back( { c.a1, c.a2 } );
    d.b.push_back( { e.b0, e.b1, e.b2 } ); d.a.push_back( { e.a1, e.a2 } );
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << d.b << d.a;
    b << "[ [B " << c.b0 << ", " << c.b1 << ", " << c.b2 << " ] [B " << e.b0 << ", " << e.b1 << ", " << e.b2 << " ]][ [A " << c.a1 << ", " << c.a2 << " ] [A " << e.a1 << ", " << e.a2 << " ]]";
    vp_same_output( a, b, "a cascade design is written with the coefficients of every section" );
}
VP_HARNESS( h_onepole_design )
{
    using D = decltype( dsp::onepole_design< dsp::FilterResponse::low_pass >( 1.0, 4.0 ) );
    const double b0 = vp_real( "b0" ), a1 = vp_real( "a1" );
    D d{ { b0 }, { a1 } };
    std::ostream & a = vp_stream( 0 ), & b = vp_stream( 1 );
    a << d.b << d.a;
    b << "[B " << b0 << " ][A " << a1 << " ]";
    vp_same_output( a, b, "a one-pole design is written with all its coefficients" );
}
