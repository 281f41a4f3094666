// @mode int
// @bound every first, last and positive step with up to 6 values in the range; int, unsigned, 8, 16 and 64 bit types and mixtures; 6 values of ranges without end; at 300 steps (of 1 and 99) again for 16 and 32 bit types
// @assume first is not above last for ranges without a step, steps are positive, and the last value plus one step is representable
#include "vp.h"
#include "core/core.hpp"
#include <cstddef>
enum { MAX = 6 };

template< typename T > struct lim { static constexpr int64_t lo = T(-1) < T(0) ? -( int64_t( 1 ) << ( 8 * sizeof(T) - 1 ) ) : 0,
                                    hi = T(-1) < T(0) ? ( int64_t( 1 ) << ( 8 * sizeof(T) - 1 ) ) - 1 : ( int64_t( 1 ) << ( 8 * sizeof(T) ) ) - 1; };
template< typename T > T any( char const * n ) { return T( vp_any<T>::make( n ) ); }

template< typename T > void plain()
{
    const T a = any<T>( "first" ), b = any<T>( "last" );
    vp_assume( (a <= b) & (int64_t( b ) - int64_t( a ) <= MAX) );
    int64_t e = a;
    int n = 0;
    for ( auto i : core::range( a, b ) )
    {
        vp_check( n < MAX, "no more values than there are" );
        vp_check( int64_t( i ) == e, "values from first up, one by one" );
        vp_check( std::is_same<decltype( i ), T>::value, "the values have the type of the ends" );
        ++e; ++n;
    }
    vp_check( e == int64_t( b ), "stops at last" );
}
// last is k steps after first, less a remainder below one step: every range of k values
template< typename T > void stepped()
{
    const T a = any<T>( "first" ), s = any<T>( "step" ), r = any<T>( "remainder" );
    const int k = vp_choose( "values", MAX + 1 );
    vp_assume( s > T( 0 ) );
    const int64_t A = a, S = s, R = r, L = lim<T>::hi, B = A + k * S - R;
    vp_assume( (S <= (int64_t(1) << 31)) & (A + S <= L) );
    if ( k ) vp_assume( (R >= 0) & (R < S) & (B - 1 + S <= L) );
    else     vp_assume( (R >= 0) & (B >= lim<T>::lo) );
    int n = 0;
    int64_t e = A;
    for ( auto i : core::range( a, T( B ), s ) )
    {
        vp_check( n < k, "only values below last" );
        vp_check( int64_t( i ) == e, "values are first, first plus step and so on" );
        e += S; ++n;
    }
    vp_check( n == k, "goes on as long as the value is below last" );
}
template< typename T > void endless()
{
    const T a = any<T>( "first" ), s = any<T>( "step" );
    const int64_t A = a, S = s;
    vp_assume( (S > 0) & (S <= (int64_t(1) << 31)) & (A + MAX * S <= lim<T>::hi) & (A + MAX <= lim<T>::hi) );
    const int k = vp_choose( "with step", 2 );
    int n = 0;
    auto r = core::range( a );
    if ( k )
        for ( auto i : r.step( s ) )
        {
            vp_check( int64_t( i ) == A + n * S, "values are first, first plus step and so on" );
            if ( ++n == MAX ) break;
        }
    else
        for ( auto i : r )
        {
            vp_check( int64_t( i ) == A + n, "values from first up, one by one" );
            if ( ++n == MAX ) break;
        }
    vp_check( n == MAX, "does not end" );
}
template< typename T > void iterators()
{
    const T a = any<T>( "first" ), s = any<T>( "step" );
    const int64_t A = a, S = s;
    vp_assume( (S > 0) & (S <= (int64_t(1) << 31)) & (A + 5 * S <= lim<T>::hi) & (A + 5 <= lim<T>::hi) );
    {
        auto r = core::range( a, T( a + 4 ) );
        auto i = r.begin();
        auto const old = i++;
        vp_check( *old == a, "i++ gives the value before" );
        vp_check( *i == T( a + 1 ), "i++ advances by one" );
        auto j = ++i;
        vp_check( (*j == T( a + 2 )) & (*i == T( a + 2 )), "++i advances and gives the value after" );
        vp_check( *i.operator->() == T( a + 2 ), "i-> refers to the current value" );
        vp_check( bool( i == j ) & !bool( i != j ) & bool( i != r.begin() ) & !bool( i == r.begin() ), "iterators are equal exactly at the same value" );
        vp_check( *r.begin() == a, "advancing an iterator leaves the range" );
        ++i; ++i;
        vp_check( i == r.end(), "four steps to the end" );
    }
    {
        auto r = core::range( a, T( A + 3 * S ), s );
        auto i = r.begin();
        auto const old = i++;
        vp_check( *old == a, "i++ gives the value before" );
        vp_check( int64_t( *i ) == A + S, "i++ advances by the step" );
        auto j = ++i;
        vp_check( (int64_t( *j ) == A + 2 * S) & (int64_t( *i ) == A + 2 * S), "++i advances and gives the value after" );
        vp_check( *i.operator->() == *i, "i-> refers to the current value" );
        vp_check( bool( i != r.end() ) & !bool( i == r.end() ), "not at the end while below last" );
        ++i;
        vp_check( bool( i == r.end() ) & !bool( i != r.end() ), "at the end when last is reached" );
        vp_check( *r.begin() == a, "advancing an iterator leaves the range" );
    }
}
template< typename P, typename Q, typename T > void mixed()
{
    const P a = any<P>( "first" ); const Q b = any<Q>( "last" );
    const int64_t A = a, B = b;
    vp_assume( (A >= 0) & (A <= B) & (B - A <= MAX) & (B <= lim<T>::hi) );
    int64_t e = A;
    for ( auto i : core::range( a, b ) )
    {
        vp_check( std::is_same<decltype( i ), T>::value, "the values have the common type of first, last and step" );
        vp_check( int64_t( i ) == e, "values from first up, one by one" );
        vp_check( e < B, "only values below last" );
        ++e;
    }
    vp_check( e == B, "goes on as long as the value is below last" );
}
template< typename P, typename Q, typename R, typename T > void mixed_step()
{
    const P a = any<P>( "first" ); const Q b = any<Q>( "last" ); const R s = any<R>( "step" );
    const int64_t A = a, B = b, S = s;
    vp_assume( (A >= 0) & (B >= 0) & (S > 0) & (B <= A + MAX * S) & (B - 1 + S <= lim<T>::hi) & (A + S <= lim<T>::hi) );
    int64_t e = A;
    for ( auto i : core::range( a, b, s ) )
    {
        vp_check( std::is_same<decltype( i ), T>::value, "the values have the common type of first, last and step" );
        vp_check( int64_t( i ) == e, "values are first, first plus step and so on" );
        vp_check( e < B, "only values below last" );
        e += S;
    }
    vp_check( e >= B, "goes on as long as the value is below last" );
}
// values that a pointer or another counter can stand for
VP_HARNESS( h_pointer ) {
    static int const v[6] = { 3, 1, 4, 1, 5, 9 };
    const int n = vp_choose( "n", 7 );
    int k = 0;
    for ( auto p : core::range( &v[0], &v[n] ) ) { vp_check( p == v + k, "addresses in order" ); ++k; }
    vp_check( k == n, "every address once" );
}
VP_HARNESS( h_plain_int8_t ) { plain<int8_t>(); }
VP_HARNESS( h_stepped_int8_t ) { stepped<int8_t>(); }
VP_HARNESS( h_endless_int8_t ) { endless<int8_t>(); }
VP_HARNESS( h_iterators_int8_t ) { iterators<int8_t>(); }
VP_HARNESS( h_plain_uint8_t ) { plain<uint8_t>(); }
VP_HARNESS( h_stepped_uint8_t ) { stepped<uint8_t>(); }
VP_HARNESS( h_endless_uint8_t ) { endless<uint8_t>(); }
VP_HARNESS( h_iterators_uint8_t ) { iterators<uint8_t>(); }
VP_HARNESS( h_plain_int16_t ) { plain<int16_t>(); }
VP_HARNESS( h_stepped_int16_t ) { stepped<int16_t>(); }
VP_HARNESS( h_endless_int16_t ) { endless<int16_t>(); }
VP_HARNESS( h_iterators_int16_t ) { iterators<int16_t>(); }
VP_HARNESS( h_plain_uint16_t ) { plain<uint16_t>(); }
VP_HARNESS( h_stepped_uint16_t ) { stepped<uint16_t>(); }
VP_HARNESS( h_endless_uint16_t ) { endless<uint16_t>(); }
VP_HARNESS( h_iterators_uint16_t ) { iterators<uint16_t>(); }
VP_HARNESS( h_plain_int32_t ) { plain<int32_t>(); }
VP_HARNESS( h_stepped_int32_t ) { stepped<int32_t>(); }
VP_HARNESS( h_endless_int32_t ) { endless<int32_t>(); }
VP_HARNESS( h_iterators_int32_t ) { iterators<int32_t>(); }
VP_HARNESS( h_plain_uint32_t ) { plain<uint32_t>(); }
VP_HARNESS( h_stepped_uint32_t ) { stepped<uint32_t>(); }
VP_HARNESS( h_endless_uint32_t ) { endless<uint32_t>(); }
VP_HARNESS( h_iterators_uint32_t ) { iterators<uint32_t>(); }
VP_HARNESS( h_mixed_1 ) { mixed<int32_t, uint32_t, uint32_t>(); }
VP_HARNESS( h_mixed_2 ) { mixed<uint8_t, int32_t, int32_t>(); }
VP_HARNESS( h_mixed_3 ) { mixed<int16_t, uint32_t, uint32_t>(); }
VP_HARNESS( h_mixed_step_1 ) { mixed_step<int32_t, uint32_t, uint8_t, uint32_t>(); }
VP_HARNESS( h_mixed_step_2 ) { mixed_step<uint8_t, int32_t, uint8_t, int32_t>(); }
VP_HARNESS( h_mixed_step_3 ) { mixed_step<uint8_t, uint8_t, int32_t, int32_t>(); }
VP_HARNESS( h_mixed_step_4 ) { mixed_step<uint8_t, int16_t, uint32_t, uint32_t>(); }
VP_HARNESS( h_mixed_step_5 ) { mixed_step<int16_t, int16_t, int32_t, int32_t>(); }
// long ranges: the same rule far from the beginning
template< typename T > void far( int k )
{
    const T a = any<T>( "first" ), s = T( 1 + 98 * vp_choose( "step", 2 ) );
    const int64_t A = a, S = s;
    vp_assume( A + (k + 1) * S <= lim<T>::hi );
    bool good = true;
    int n = 0;
    for ( auto i : core::range( a ).step( s ) )
    {
        good = good & (int64_t( i ) == A + n * S);
        if ( ++n == k ) break;
    }
    vp_check( good, "values are first, first plus step and so on, far from the beginning" );
}
template< typename T > void far_end( int k )
{
    const T a = any<T>( "first" ), s = T( 1 + 98 * vp_choose( "step", 2 ) );
    const int64_t A = a, S = s;
    vp_assume( A + (k + 1) * S <= lim<T>::hi );
    auto const r = core::range( a, T( A + k * S ), s );
    auto i = r.begin();
    bool go = true;
    for ( int n = 0; n < k; ++n, ++i ) go = go & bool( i != r.end() );
    vp_check( go, "goes on as long as the value is below last, far from the beginning" );
    vp_check( bool( i == r.end() ), "ends at last, far from the beginning" );
}
VP_HARNESS( h_far_int32_t ) { far<int32_t>( 300 ); }
VP_HARNESS( h_far_uint16_t ) { far<uint16_t>( 300 ); }
VP_HARNESS( h_far_end_int32_t ) { far_end<int32_t>( 300 ); }
VP_HARNESS( h_far_end_uint16_t ) { far_end<uint16_t>( 300 ); }
