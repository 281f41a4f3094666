// @mode real
// @bound cascades of 0 to 3 sections with arbitrary real coefficients, 3 to 4 inputs, all three step functions; every frequency
// @assume exact reals (rounding is outside the claim); frequencies where a denominator vanishes are outside the response claims
#include "bq.h"
#include "dsp/biquad-cascade.hpp"
using dsp::BiQuadCascadeT;
namespace bc = dsp::biquad_cascade;
using Cas = BiQuadCascadeT<double,4>;

template< typename C > double go( C & f, double x, int form ) { return form == 0 ? bc::step( f, x ) : form == 1 ? bc::step_df2( f, x ) : bc::step_df2_transposed( f, x ); }

template< int FORM > void series( int n, int steps )
{
    Cas c;
    Ref r[3];
    for( int i = 0; i < n; ++i )
    {
        const Co k = anyco( char('p' + i) );
        c.append( make( k ) );
        r[i] = Ref{ k };
    }
    for( int i = 0; i < steps; ++i )
    {
        const double x = input( i );
        double y = x;
        for( int j = 0; j < n; ++j ) y = r[j]( y );
        vp_eq( go( c, x, FORM ), y, "output of the cascade is the series connection of its sections" );
    }
}
VP_HARNESS( h_series_0 ) { series<0>( 0, 2 ); }
VP_HARNESS( h_series_1 ) { series<0>( 1, 5 ); }
VP_HARNESS( h_series_2 ) { series<0>( 2, 4 ); }
VP_HARNESS( h_series_3 ) { series<0>( 3, 3 ); }
VP_HARNESS( h_series_df2_2 ) { series<1>( 2, 4 ); }
VP_HARNESS( h_series_df2_3 ) { series<1>( 3, 3 ); }
VP_HARNESS( h_series_transposed_2 ) { series<2>( 2, 4 ); }
VP_HARNESS( h_series_transposed_3 ) { series<2>( 3, 3 ); }
// @tier thorough
VP_HARNESS( h_series_2_long ) { series<0>( 2, 6 ); }
// @tier thorough
VP_HARNESS( h_series_3_long ) { series<2>( 3, 4 ); }

VP_HARNESS( h_reset ) {
    const int form = vp_choose( "form", 3 ), n = vp_range( "before", 0, 2 );
    const Co p = anyco( 'p' ), q = anyco( 'q' );
    Cas c( make( p ), make( q ) ), d( make( p ), make( q ) );
    for( int i = 0; i < n; ++i ) go( c, vp_real("old"), form );
    bc::reset( c );
    vp_check( c.size() == 2, "reset keeps the sections" );
    for( int i = 0; i < 2; ++i )
        vp_check( (c.state( i ).v1 == 0) & (c.state( i ).v2 == 0), "reset brings every section to rest" );
    for( int i = 0; i < 3; ++i )
    {
        const double x = input( i );
        vp_eq( go( c, x, form ), go( d, x, form ), "after reset the cascade acts as a new one" );
    }
}
VP_HARNESS( h_copy ) {
    const int form = vp_choose( "form", 3 );
    const Co p = anyco( 'p' ), q = anyco( 'q' );
    Cas c( make( p ), make( q ) );
    go( c, input( 0 ), form );
    Cas d( c ), e;
    e = c;
    go( d, vp_real("other"), form );
    for( int i = 1; i < 3; ++i )
    {
        const double x = input( i );
        vp_eq( go( e, x, form ), go( c, x, form ), "copies run independently" );
    }
}
VP_HARNESS( h_stable ) {
    const int n = vp_range( "sections", 0, 3 );
    Cas c;
    bool all = true;
    for( int i = 0; i < n; ++i )
    {
        char a[3] = { 'p', char('0' + i), 0 }, b[3] = { 'q', char('0' + i), 0 };
        const double p = vp_real( a ), q = vp_real( b );
        c.append( make( { 1, 0, 0, -( p + q ), p * q } ) );
        all = bool( all & (p <= 1) & (p >= -1) & (q <= 1) & (q >= -1) );
    }
    vp_check( bc::is_stable( c ) == all, "a cascade is stable exactly if all its sections are" );
}
VP_HARNESS( h_response ) {
    const int n = vp_range( "sections", 0, 3 );
    const double f = vp_real("f");
    Cas c;
    double hr = 1, hi = 0;
    for( int i = 0; i < n; ++i )
    {
        BQ b = make( { vp_real("b0"), vp_real("b1"), 0, 0, 0 } );
        c.append( b );
        auto h = dsp::response( b, f );
        const double r = hr * h.real() - hi * h.imag();
        hi = hr * h.imag() + hi * h.real();
        hr = r;
    }
    auto h = bc::response( c, f );
    vp_eq( h.real(), hr, "response of a cascade is the product of the responses: real part" );
    vp_eq( h.imag(), hi, "response of a cascade is the product of the responses: imaginary part" );
}
VP_HARNESS( h_response_recursive ) {
    const double f = vp_real("f"), a = vp_real("a1"), b = vp_real("b0"), g = vp_real("g0");
    BQ p = make( { b, 0, 0, a, 0 } ), q = make( { g, 1, 0, 0, 0 } );
    const double w = 2 * num::pi<double> * f, co = std::cos( w ), si = std::sin( w );
    vp_assume( ( 1 + a * co ) * ( 1 + a * co ) + a * a * si * si != 0 );
    Cas c( p, q );
    auto h = bc::response( c, f ), x = dsp::response( p, f ), y = dsp::response( q, f );
    vp_eq( h.real(), x.real() * y.real() - x.imag() * y.imag(), "response of a cascade is the product of the responses: real part" );
    vp_eq( h.imag(), x.real() * y.imag() + x.imag() * y.real(), "response of a cascade is the product of the responses: imaginary part" );
}
// complex values and coefficients (the tests' stand-in for a user-defined arithmetic type)
using Z = std::complex<double>;
inline Z anyz( char c, int i )
{
    char s[4] = { c, char('0' + i), 'r', 0 };
    const double re = vp_real( s ); s[2] = 'i';
    return Z( re, vp_real( s ) );
}
VP_HARNESS( h_complex ) {
    using F = BiQuadT<Z>;
    F f[2];
    for( int i = 0; i < 2; ++i )
    {
        F::B b; b.b0 = anyz( 'b', 3 * i ); b.b1 = anyz( 'b', 3 * i + 1 ); b.b2 = 0;
        F::A a; a.a1 = anyz( 'a', i ); a.a2 = 0;
        f[i] = F( b, a );
    }
    BiQuadCascadeT<Z,2> c( f[0], f[1] );
    for( int i = 0; i < 3; ++i )
    {
        const Z x = anyz( 'x', i );
        const Z y = f[1].step( f[0].step( x ) );
        const Z g = bc::step( c, x );
        vp_eq( g.real(), y.real(), "output of the cascade is the series connection of its sections (complex, real part)" );
        vp_eq( g.imag(), y.imag(), "output of the cascade is the series connection of its sections (complex, imaginary part)" );
    }
}
