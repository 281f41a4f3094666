// Replay runtime: usage  prog HARNESS INPUTFILE
// exit 0: all checks passed   3: a check failed   4: the inputs do not meet an assumption
#include <cmath>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <string>
#include <sstream>
#include <dlfcn.h>

static std::map<std::string,std::string> in;
static std::map<std::string,int> seen;
static int checks = 0;
static bool first = false;              // an earlier use of the library, before the run that is judged
static std::jmp_buf back;

static std::string value( char const * name )
{
    std::string n( name );
    int k = seen[n]++;
    if ( k ) n += "#" + std::to_string( k );
    if ( first ) n = "earlier:" + n;
    auto it = in.find( n );
    if ( it == in.end() ) { return "0"; }
    return it->second;
}
static bool coarse = false;      // the harness works in float: vp_note( "coarse" )
static bool close( double a, double b )
{
    if ( std::isnan(a) || std::isnan(b) ) return false;
    if ( a == b ) return true;
    return std::fabs( a - b ) <= ( coarse ? 1e-4 : in.count( "tight" ) ? 1e-10 : 1e-7 ) * ( 1 + std::fabs(a) + std::fabs(b) );
}
static void fail( char const * msg )
{
    if ( first ) std::longjmp( back, 1 );
    std::printf( "VPFAIL %s\n", msg ); std::fflush( stdout ); std::_Exit( 3 );
}
extern "C" {
uint64_t vp_sym_int( char const * name, int bits )
{
    uint64_t v = std::strtoull( value( name ).c_str(), nullptr, 10 );
    return bits == 64 ? v : v & ((1ull << bits) - 1);
}
int64_t vp_sym_small( char const * name, int, int ) { return (int16_t)vp_sym_int( name, 16 ); }
double vp_sym_real( char const * name )
{
    std::string s = value( name );
    if ( s.rfind( "bits:", 0 ) == 0 )
    {
        uint64_t b = std::strtoull( s.c_str() + 5, nullptr, 10 ); double d; std::memcpy( &d, &b, 8 ); return d;
    }
    return std::strtod( s.c_str(), nullptr );
}
float vp_sym_f32( char const * name )
{
    std::string s = value( name );
    if ( s.rfind( "bits:", 0 ) == 0 )
    {
        uint32_t b = (uint32_t)std::strtoull( s.c_str() + 5, nullptr, 10 ); float d; std::memcpy( &d, &b, 4 ); return d;
    }
    return (float)std::strtod( s.c_str(), nullptr );
}
int vp_choose( char const * name, int ) { return std::atoi( value( name ).c_str() ); }
void vp_assume( bool c ) { if ( !c && first ) std::longjmp( back, 1 ); if ( !c ) { std::printf( "VPASSUME\n" ); std::fflush( stdout ); std::_Exit( 4 ); } }
void vp_check( bool c, char const * msg ) { ++checks; if ( !c && !first ) fail( msg ); }
void vp_eq( double a, double b, char const * msg )
{
    ++checks;
    if ( !close( a, b ) && !first ) { std::printf( "got %.17g, required %.17g\n", a, b ); fail( msg ); }
}
void vp_le( double a, double b, char const * msg )
{
    ++checks;
    if ( !( a <= b || close( a, b ) ) && !first ) { std::printf( "got %.17g > %.17g\n", a, b ); fail( msg ); }
}
static bool stop = false;        // the harness misuses the interface on purpose: an assertion is the required outcome
void vp_note( char const * s ) { if ( std::strcmp( s, "expect stop" ) == 0 ) stop = true; if ( std::strcmp( s, "coarse" ) == 0 ) coarse = true; }
void vp_end();
void __assert_fail( char const * e, char const * f, unsigned l, char const * ) noexcept
{
    if ( stop ) { stop = false; ++checks; vp_end(); }
    std::fprintf( stderr, "%s:%u: assertion '%s' failed\n", f, l, e );
    std::abort();
}
void vp_fail( char const * msg ) { if ( first ) return; fail( msg ); }
void vp_end() { if ( first ) std::longjmp( back, 1 ); std::printf( "VPOK %d\n", checks ); std::fflush( stdout ); std::_Exit( 0 ); }
int  vp_pin( int v ) { return v; }
static std::ostringstream streams[2];
std::ostream & vp_stream( int k ) { streams[k].precision( 17 ); return streams[k]; }
void vp_same_output( std::ostream & a, std::ostream & b, char const * msg )
{
    ++checks;
    auto s = static_cast<std::ostringstream &>( a ).str(), t = static_cast<std::ostringstream &>( b ).str();
    if ( s != t && !first ) { std::printf( "got      %s\nrequired %s\n", s.c_str(), t.c_str() ); fail( msg ); }
}
}

int main( int argc, char ** argv )
{
    if ( argc < 3 ) return 2;
    if ( FILE * f = std::fopen( argv[2], "r" ) )
    {
        char line[4096];
        while ( std::fgets( line, sizeof line, f ) )
        {
            std::string s( line );
            while ( !s.empty() && (s.back() == '\n' || s.back() == ' ') ) s.pop_back();
            auto k = s.rfind( ' ' );
            if ( k != std::string::npos ) in[ s.substr( 0, k ) ] = s.substr( k + 1 );
        }
        std::fclose( f );
    }
    auto fn = (void (*)()) dlsym( nullptr, argv[1] );
    if ( !fn ) { std::printf( "no harness %s\n", argv[1] ); return 2; }
    if ( in.count( "earlier" ) )
    {
        first = true;
        if ( setjmp( back ) == 0 ) fn();
        first = false;
        seen.clear();
        streams[0].str( "" ); streams[1].str( "" );
    }
    fn();
    std::printf( "VPOK %d\n", checks );
    return 0;
}
