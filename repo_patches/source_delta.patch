From 9445c8463e50c00537c277d69e08ec7be141d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 01/27] fix: matrix product of conforming rectangular matrices
 and vectors

The products took operands whose inner dimensions do not match, read out of
bounds for them, gave row vector results the wrong length, and rejected
operands that do conform.
---
 include/num/matrix.hpp | 42 ++++++------------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 5d7912b..26b3ceb 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -17,6 +17,7 @@
 #define matrix_STRINGIFY_( x )  #x
 
 #include "std/algorithm.hpp"    // constexpr std20::copy(), std20::fill()
+#include "std/type_traits.hpp"  // std20::enable_if_t<>
 #include "std/utility.hpp"      // std20::swap(), std::initializer_list
 
 namespace num {
@@ -377,16 +378,17 @@ constexpr matrix<T,N,M> operator-( matrix<T,N,M> const & a, matrix<T,N,M> const
     return result;
 }
 
-// A * B:
+// A * B, with NxK and KxM matrices, row vectors and column vectors; 1x1 matrices are handled above:
 
-template< typename T, int N, int M >
-constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const & B )
+template< typename T, int N, int K, int M >
+constexpr auto operator*( matrix<T,N,K> const & A, matrix<T,K,M> const & B )
+-> std20::enable_if_t< !( N == 1 && K == 1 ) && !( K == 1 && M == 1 ), matrix<T,N,M> >
 {
     matrix<T,N,M> result(0);
 
     for ( int row = 0; row < A.rows(); ++row )
     {
-        for ( int col = 0; col < A.columns(); ++col )
+        for ( int col = 0; col < B.columns(); ++col )
         {
             for ( int k = 0; k < A.columns(); ++k )
             {
@@ -398,38 +400,6 @@ constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const
     return result;
 }
 
-// x * A - rowvec:
-
-template< typename T, int N, int M >
-constexpr rowvec<T,N> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
-{
-    rowvec<T,N> result( 0 );
-    for ( int row = 0; row < A.rows(); ++row )
-    {
-        for ( int col = 0; col < A.columns(); ++col )
-        {
-            result(col) += A(row, col) * x(row);
-        }
-    }
-    return result;
-}
-
-// A * x - colvec:
-
-template< typename T, int N, int M >
-constexpr colvec<T,N> operator*( matrix<T,N,M> const & A, colvec<T,N> const & x )
-{
-    colvec<T,N> result( 0 );
-    for ( int row = 0; row < A.rows(); ++row )
-    {
-        for ( int col = 0; col < A.columns(); ++col )
-        {
-            result(row) += A(row, col) * x(col);
-        }
-    }
-    return result;
-}
-
 // ----------------------------------------------
 // Transposition algorithms
 
-- 
2.43.0


From be17db55dae75c1bab7835e526909521610344be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 02/27] fix: inverse of a singular 2x2 matrix divides by zero

For integer and fixed-point elements the division traps; use the guarded
scalar inverse, as the 1x1 case does.
---
 include/num/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 26b3ceb..4ba02b3 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -464,7 +464,7 @@ constexpr matrix<T,2,2> inverted( matrix<T,2,2> const & A )
 {
     matrix<T,2,2> result(0);
 
-    const auto det = 1 / ( A(0) * A(3) - A(1) * A(2) );
+    const auto det = inverted( A(0) * A(3) - A(1) * A(2) );
 
     result(0) = + det * A(3);
     result(1) = - det * A(2);
-- 
2.43.0


From bf987391687e540c4ea96e5d5dfd454ff1e2114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 03/27] fix: Kalman gain is uninitialised until the first
 update

---
 include/dsp/kalman.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/kalman.hpp b/include/dsp/kalman.hpp
index dc44dce..25fc470 100644
--- a/include/dsp/kalman.hpp
+++ b/include/dsp/kalman.hpp
@@ -63,6 +63,7 @@ public:
         , H( H_)
         , Q( Q_)
         , R( R_)
+        , K( real_t( 0 ) )
         , P( P_)
         , xhat( xhat_)
         , t(  0  )
-- 
2.43.0


From 00dec1406821459c2d48385e2870ec0d200720db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 04/27] fix: fixed_point::as<U>() truncates the underlying
 value to U before scaling it

A U narrower than the implementation type then yields a wrong value.
---
 include/num/fixed-point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 533bb8a..5b0de12 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -129,7 +129,7 @@ public:
     template< typename U >
     constexpr auto as() const
     {
-        return static_cast<U>( underlying_value() ) / detail::power2(F);
+        return static_cast<decltype( U() * detail::power2(F) )>( underlying_value() ) / detail::power2(F);
     }
 
     constexpr auto as_double() const
-- 
2.43.0


From 7c5cc57e5a7d0bf22d67421f5e67ac865e3eb4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 05/27] fix: biquad-design.hpp does not compile unless
 filter.hpp is included first

filter-design.hpp, biquad-design.hpp and filter.hpp included each other in a
circle; including biquad-design.hpp or onepole-design.hpp first left either
prewarp() or biquad_design() undeclared.
---
 include/dsp/biquad-design.hpp | 14 --------------
 include/dsp/filter-design.hpp | 18 +++++++++++++++++-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/dsp/biquad-design.hpp b/include/dsp/biquad-design.hpp
index 80e46b7..b70b85f 100644
--- a/include/dsp/biquad-design.hpp
+++ b/include/dsp/biquad-design.hpp
@@ -22,20 +22,6 @@
 
 namespace dsp {
 
-// filter type selection (lp, hp, ...)
-
-enum class FilterResponse
-{
-    all_pass,
-    low_pass,
-    high_pass,
-    band_pass,
-    band_stop,
-    low_shelf,
-    high_shelf,
-    peak_band_eq
-};
-
 // biquad realization form (direct form 1, 2, transposed):
 
 enum class BiquadForm
diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 162b017..586421d 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -10,11 +10,27 @@
 
 #include "core/shims.hpp"
 #include "core/traits.hpp"
-#include "dsp/filter.hpp"
 #include "num/constants.hpp"
 
+#include <cmath>
+#include <type_traits>
+
 namespace dsp {
 
+// filter type selection (lp, hp, ...)
+
+enum class FilterResponse
+{
+    all_pass,
+    low_pass,
+    high_pass,
+    band_pass,
+    band_stop,
+    low_shelf,
+    high_shelf,
+    peak_band_eq
+};
+
 // algorithm: pre-warp frequency:
 
 template< typename P, typename Q >
-- 
2.43.0


From 41e955c8b9e56ae9ee90a2860f955718ab021d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 06/27] fix: one-pole design truncates the pole magnitude to
 int

The unqualified abs() is ::abs(int), so the gain was always 1.
---
 include/dsp/onepole-design.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index b823e78..b6a39b5 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -76,7 +76,7 @@ struct onepole_design_method<FilterResponse::low_pass, T >
     static auto design( T f, T fs )
     {
         const auto a1 = -exp( -T{1} * num::pi<T> * f / fs );
-        const auto b0 = T{1} - abs(a1);
+        const auto b0 = T{1} - std::abs(a1);
         
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
@@ -90,7 +90,7 @@ struct onepole_design_method<FilterResponse::high_pass, T >
     static auto design( T f, T fs )
     {
         const auto a1 = +exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
-        const auto b0 = T{1} - abs(a1);
+        const auto b0 = T{1} - std::abs(a1);
 
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
-- 
2.43.0


From 8019cb109fd50d61cc4db67e9afd0f757d68e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 07/27] fix: dbV_factor() is not the inverse of dbV()

A level of L dB is a voltage ratio of 10^(L/20), not 10^(L/10)/2; shelving and
peaking filters were designed for the wrong gain.
---
 include/dsp/filter-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 586421d..40a0116 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -72,7 +72,7 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return dbP_factor( dbv ) / T{2};
+    return dbP_factor( dbv / T{2} );
 }
 
 } // namespace dsp
-- 
2.43.0


From 10e63f5200fdc86677030bb3e77419547cc640d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 08/27] fix: one-pole filter reports a pole at 7 and is always
 stable

---
 include/dsp/onepole.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index f7bd41c..43f270b 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -75,7 +75,7 @@ auto solve( V a, V b )
     // normalize:
     b /= a;
 
-    return Solution{ 7 };
+    return Solution{ -b };
 }
 
 // normalized a:
@@ -205,11 +205,11 @@ public:
         return SolutionT<T>{};
     }
 
-    // stable if the magnitude of both poles is less or equal to leq unity:
+    // stable if the magnitude of the pole is less or equal to unity:
 
     auto is_stable() const
     {
-        return true;
+        return abs( poles().s0 ) <= value_type{1};
     }
 
     // Modifiers:
-- 
2.43.0


From 6c88348fd6115d140c45747c742de0012d9383ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 09/27] fix: Chebyshev type 1 designs use the type 2 pole and
 gain formulas

With a = asinh(estop)/N the poles are those of a filter with another ripple,
and the first-order section of odd-order designs does not have unit passband
gain.  See lhcheb1.m.
---
 include/dsp/chebyshev-design.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index f24e5f3..1339eb7 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -116,7 +116,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
     const auto r     = N % 2;
     const auto K     = ( N - r ) / 2;
 
-    const auto a     = std::asinh( estop ) / N;
+    const auto a     = std::asinh( 1 / epass ) / N;
     const auto W3    = real( Wpass * std::cosh( std::acosh( complex_t{1} / complex_t{epass} ) / complex_t(N) ) );
     const auto f3    = (fs / num::pi<T> ) * std::atan( std::pow( W3, s ) );
     const auto W0    = std::sinh( a ) * Wpass;
@@ -128,7 +128,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
 
     if ( r == 1 )
     {
-        const auto G = 1 / (1 + W0);
+        const auto G = W0 / (1 + W0);
 
         A.emplace_back( /*1,*/ s * ( 2 * G - 1 ), T{0} );
         B.emplace_back(   G,   s * G            , T{0} );
-- 
2.43.0


From 5df31931bb643340d891239a8657be10fe6ce9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 10/27] fix: Chebyshev type 1 designs of even order exceed
 unity gain in the passband

The reference gain 1/sqrt(1+epass^2) of lhcheb1.m was left out.
---
 include/dsp/chebyshev-design.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index 1339eb7..47f243e 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -121,6 +121,9 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
     const auto f3    = (fs / num::pi<T> ) * std::atan( std::pow( W3, s ) );
     const auto W0    = std::sinh( a ) * Wpass;
 
+    // gain of an even-order filter at DC or Nyquist, put in the first section:
+    const auto H0    = r == 1 ? T{1} : 1 / std::sqrt( 1 + epass * epass );
+
     DigitalCoeffT<T> coeff{ Wpass, Wstop, epass, estop, Nex, N, f3, a };
 
     auto & A = coeff.a;
@@ -139,7 +142,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
         const auto th = num::pi<T> * (N - 1 + 2 * i) / (2 * N);
         const auto Wi = Wpass * sin(th);
         const auto D  =  1 - 2 * W0 * cos( th ) + W0 * W0 + Wi * Wi;
-        const auto G  = (W0 * W0 + Wi * Wi ) / D;
+        const auto G  = (W0 * W0 + Wi * Wi ) / D * ( i == 1 ? H0 : T{1} );
         const auto a1 =  2 * (W0 * W0 + Wi * Wi - 1) / D;
         const auto a2 = (1 + 2 * W0 * cos(th) + W0 * W0 + Wi * Wi) / D;
 
-- 
2.43.0


From 83aa84483e82515c10c5d4b2b994db9795c7009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 11/27] fix: combined lazy field writes let a too wide value
 spill into other fields

A single write_lazy() and write() mask the value to the field; a combination
of write_lazy()s masked it to all of the combined fields.
---
 include/mcu/register.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/register.hpp b/include/mcu/register.hpp
index 48f5671..50bcff8 100644
--- a/include/mcu/register.hpp
+++ b/include/mcu/register.hpp
@@ -444,7 +444,7 @@ public:
 
     static auto write_lazy( value_type value )
     {
-        return write_proxy< T, io, address, rngmask<T>(hi,lo), 0 >{ shl(value, lo) };
+        return write_proxy< T, io, address, rngmask<T>(hi,lo), 0 >{ static_cast<T>( shl(value, lo) & rngmask<T>(hi,lo) ) };
     }
 
     // Set a single bit:
-- 
2.43.0


From e2d37f145456d7487d8bbfcffedd33f6a408f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 12/27] fix: timer waveform mode is read back wrong

The high part of the mode starts at bit 2 of the mode, whatever its position
in the control register.
---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 9faf03d..c3808f6 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -899,7 +899,7 @@ namespace tc0
 
         inline auto current( waveform w )
         {
-            return waveform( shl(reg::tccr0b::wgm02::read(), WGM02) + reg::tccr0a::wgm0::read() );
+            return waveform( shl(reg::tccr0b::wgm02::read(), 2) + reg::tccr0a::wgm0::read() );
         }
 
         inline auto set( waveform w )
@@ -1324,7 +1324,7 @@ namespace tc1
 
         inline auto current( waveform )
         {
-            return waveform( shl(reg::tccr1b::wgm1::read(), WGM12) + reg::tccr1a::wgm1::read() );
+            return waveform( shl(reg::tccr1b::wgm1::read(), 2) + reg::tccr1a::wgm1::read() );
         }
 
         inline auto set( waveform w )
-- 
2.43.0


From ecd8709ed939d42d785f25b01b3627690f78ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 13/27] fix: timer 1 force output compare changes the output
 mode

FOC1A and FOC1B are in TCCR1C, not in TCCR1A.
---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index c3808f6..522d20b 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1131,8 +1131,8 @@ namespace tc1
         namespace tccr1c
         {
             using whole = register8_t< rw_t, tccr1c_addr >;
-            using foc1a = bitfield8_t< rw_t, tccr1a_addr, FOC1A >;
-            using foc1b = bitfield8_t< rw_t, tccr1a_addr, FOC1B >;
+            using foc1a = bitfield8_t< rw_t, tccr1c_addr, FOC1A >;
+            using foc1b = bitfield8_t< rw_t, tccr1c_addr, FOC1B >;
 
             using value_type = whole::value_type;
         }
-- 
2.43.0


From 7088d4421666140471993f269a8cbf1bc8009d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:51 +0000
Subject: [PATCH 14/27] fix: reading a timer compare value returns nothing

---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 522d20b..e615433 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -955,7 +955,7 @@ namespace tc0
 
             inline auto current( a )
             {
-                a{ reg::ocr0a::whole::read() };
+                return a{ reg::ocr0a::whole::read() };
             }
 
             inline auto set( a v )
@@ -965,7 +965,7 @@ namespace tc0
 
             inline auto current( b )
             {
-                b{ reg::ocr0b::whole::read() };
+                return b{ reg::ocr0b::whole::read() };
             }
 
             inline auto set( b v )
@@ -1380,7 +1380,7 @@ namespace tc1
 
             inline auto current( a )
             {
-                a{ reg::ocr1a::whole::read() };
+                return a{ reg::ocr1a::whole::read() };
             }
 
             inline auto set( a v )
@@ -1390,7 +1390,7 @@ namespace tc1
 
             inline auto current( b )
             {
-                b{ reg::ocr1b::whole::read() };
+                return b{ reg::ocr1b::whole::read() };
             }
 
             inline auto set( b v )
-- 
2.43.0


From 40b8127b545d9cb79dbd7b930c91667519365655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 15/27] fix: pin change interrupt flags are not cleared

As the other interrupt flags they are cleared by writing one.
---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index e615433..f9b0227 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -576,7 +576,7 @@ namespace ei
     // 17.2.5 PCIFR: Pin Change Interrupt Flag Register
 
     template< pcint i >
-    using pcifr = bitfield8_t< rw_t, pcifr_addr, to_integral(i) >;
+    using pcifr = bitfield8_t< rc_w1_t, pcifr_addr, to_integral(i) >;
 
     inline auto pin_change_int2_flag()
     {
-- 
2.43.0


From 73cede0e4a9a6c56a8006217ec8b56dd09f4726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 16/27] fix: TWI initialization toggles the SDA and SCL outputs
 instead of enabling pull-ups

Writing one to a PIN register bit toggles the output; the pull-up is enabled
via the PORT register.
---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index f9b0227..b9b030e 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1981,8 +1981,8 @@ namespace twi
                 set( twi::enable::interface::on );
 
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
             }
 
             inline auto flag()   { return current( twi::interrupt::flag{} ); }
@@ -2015,8 +2015,8 @@ namespace twi
                 , twi::control::prescale::factor ps = twi::control::prescale::factor::x1 )
             {
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
                 TWSR = 0x00;
-- 
2.43.0


From c20c78b5c67d23c9ecc3398463990308fcf545b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 17/27] fix: TWI write sends the address instead of the data
 byte

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index b9b030e..64cc66c 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2079,7 +2079,7 @@ namespace twi
                 if ( expect_status( 0x18 ) )
                     return true;  // error
 
-                data( address );
+                data( byte );
 
                 if ( expect_status( 0x28 ) )
                     return true;  // error
-- 
2.43.0


From de4e63cb359762ccb5e990f1d3003763fa1d22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 18/27] fix: unsigned integer types are reported as signed on
 AVR

---
 include/std/limits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/std/limits.hpp b/include/std/limits.hpp
index 72065b2..0b7f5b0 100644
--- a/include/std/limits.hpp
+++ b/include/std/limits.hpp
@@ -57,7 +57,7 @@ class numeric_limits<__UINT8_TYPE__>
 {
     using T = __UINT8_TYPE__;
 public:
-    static constexpr bool is_signed  = true;
+    static constexpr bool is_signed  = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -83,7 +83,7 @@ class numeric_limits<__UINT16_TYPE__>
 {
     using T = __UINT16_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -109,7 +109,7 @@ class numeric_limits<__UINT32_TYPE__>
 {
     using T = __UINT32_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -135,7 +135,7 @@ class numeric_limits<__UINT64_TYPE__>
 {
     using T = __UINT64_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
-- 
2.43.0


From 59a816fd968d6aab62632fb84b622b8639dfedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 19/27] fix: std/tuple.hpp lacks an #endif

---
 include/std/tuple.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/std/tuple.hpp b/include/std/tuple.hpp
index 23e958c..a72018d 100644
--- a/include/std/tuple.hpp
+++ b/include/std/tuple.hpp
@@ -33,4 +33,6 @@ struct ignore
 
 } // namespace std20
 
+#endif // __AVR
+
 #endif // STD_TUPLE_INCLUDED
-- 
2.43.0


From 87869f9b6f4fcc8764145870db898c3413a2660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 20/27] fix: complex assignment on AVR returns nothing

---
 include/std/complex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index f4ad926..176f63c 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -46,12 +46,14 @@ public:
     {
         re_ = x;
         im_ = T();
+        return *this;
     }
 
     constexpr complex & operator=( complex const & cx )
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     template<class X>
@@ -59,6 +61,7 @@ public:
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     constexpr T real() const
-- 
2.43.0


From a9e2be55e4032facdf3375be73b7952558dd172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 21/27] fix: factor of a whole number of decibels is truncated

---
 include/dsp/filter-design.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 40a0116..4caa0dd 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -56,7 +56,9 @@ auto dbP( T vout, core::identity_t<T> vin )
 template< typename T >
 auto dbP_factor( T dbv )
 {
-    return std::pow( T{10}, std::abs( dbv ) / T{10} );
+    using U = std::common_type_t<float, T>;
+
+    return std::pow( U{10}, std::abs( U(dbv) ) / U{10} );
 }
 
 // factor as dbV
@@ -72,7 +74,9 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return dbP_factor( dbv / T{2} );
+    using U = std::common_type_t<float, T>;
+
+    return dbP_factor( U(dbv) / U{2} );
 }
 
 } // namespace dsp
-- 
2.43.0


From aa1b773a9bfc6fa0a89b25c1834c1fb0fac69b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 22/27] fix: TWAMR address mask field is bits 7..1

The data sheet (26.9.6) places TWAM[6:0] at bits 7..1 of TWAMR, bit 0 being
reserved; the macros TWAM6..TWAM0 of avr-libc's iom328p.h are 6..0.
---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 64cc66c..5f972a2 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1784,7 +1784,7 @@ namespace twi
         namespace twamr
         {
             using whole = register8_t< rw_t, addr_twamr >;
-            using twam  = bitfield8_t< rw_t, addr_twamr, TWAM6, TWAM0 >;
+            using twam  = bitfield8_t< rw_t, addr_twamr, 7, 1 >;  // avr-libc: TWAM6..0 are off by one
         }
     } // namespace reg
 
-- 
2.43.0


From 9315a7c34ef80bf7e1c3878dae3600d5a4b7956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 23/27] fix: tc1 TIFR1 register can be read and written as a
 whole

The access policy rc_w1_t is for single bits, it has no read() and write();
TIFR0 is declared the same way.
---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 5f972a2..6517256 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1198,7 +1198,7 @@ namespace tc1
 
         namespace tifr1
         {
-            using whole = register8_t< rc_w1_t, tifr1_addr >;
+            using whole = register8_t< rw_t, tifr1_addr >;
             using icf1  = bitfield8_t< rc_w1_t, tifr1_addr, ICF1  >;
             using ocf1b = bitfield8_t< rc_w1_t, tifr1_addr, OCF1B >;
             using ocf1a = bitfield8_t< rc_w1_t, tifr1_addr, OCF1A >;
-- 
2.43.0


From 62d40e3899fd44666e5b9ae9dbfb88c3a0c3674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:50 +0000
Subject: [PATCH 24/27] fix: twi init ignores the prescale factor given

init( rate, factor ) always selected factor x1.
---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 6517256..3a7fd0f 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2019,7 +2019,7 @@ namespace twi
                 gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
-                TWSR = 0x00;
+                TWSR = to_integral( ps );
                 TWBR = to_integral( br );
                 //enable TWI
                 TWCR = (1<<TWEN);
-- 
2.43.0


From 72317012cc04c0ed53ca7a95aaa19c955dae224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:16 +0000
Subject: [PATCH 25/27] fix: one-pole output claims that every filter is stable

---
 include/dsp/onepole-io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/onepole-io.hpp b/include/dsp/onepole-io.hpp
index 96ee1fd..c0dafd9 100644
--- a/include/dsp/onepole-io.hpp
+++ b/include/dsp/onepole-io.hpp
@@ -48,7 +48,7 @@ template< typename T, typename S >
 std::ostream & operator<<( std::ostream & os, OnePoleT<T,S> const & bq )
 {
     return os <<
-        "\nOnePole is always stable" <<
+        "\nOnePole is " << ( bq.is_stable() ? "stable:":"NOT stable:" ) <<
         "\na: " << bq.coeff_a() <<
         "\nb: " << bq.coeff_b() <<
         "\nw: " << bq.state() <<
-- 
2.43.0


From c4f82eb1662f1a389e8f947d7f18b32ead5f34ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:59 +0000
Subject: [PATCH 26/27] fix: dividing filter coefficients by a number does not
 compile

---
 include/dsp/biquad.hpp  | 2 +-
 include/dsp/onepole.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dsp/biquad.hpp b/include/dsp/biquad.hpp
index d14dc77..36434c9 100644
--- a/include/dsp/biquad.hpp
+++ b/include/dsp/biquad.hpp
@@ -94,7 +94,7 @@ auto solve( V a, V b, V c )
 template< typename V >
 auto operator/( AT<V> a, identity_t<V> x )
 {
-    return AT<V>{ a.a1 / x, a.a2 / x, a.a0 / x };
+    return AT<V>{ a.a1 / x, a.a2 / x };
 }
 
 // normalized b:
diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index 43f270b..e9f5395 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -83,7 +83,7 @@ auto solve( V a, V b )
 template< typename V >
 auto operator/( AT<V> a, identity_t<V> x )
 {
-    return AT<V>{ a.a1 / x, a.a2 / x, a.a0 / x };
+    return AT<V>{ a.a1 / x };
 }
 
 // normalized b:
@@ -91,7 +91,7 @@ auto operator/( AT<V> a, identity_t<V> x )
 template< typename V >
 auto operator/( BT<V> b, identity_t<V> x )
 {
-    return BT<V>{ b.b0 / x, b.b1 / x, b.b2 / x };
+    return BT<V>{ b.b0 / x };
 }
 
 // enable assignment of result of to_coeff() to member data:
-- 
2.43.0


From 84ffa97f4b38d78e549c9ad418b7c713f0fe8265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:12 +0000
Subject: [PATCH 27/27] fix: one-pole filter cannot be made from its pole and
 gain

---
 include/dsp/onepole.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index e9f5395..049db21 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -171,11 +171,15 @@ public:
 #endif
     {}
 
-    // Initialize biquad from ZPK:
+    // Initialize one-pole from ZPK, its zero is at the origin:
 
     OnePoleT( Solution z, Solution p, value_type k )
     {
-        tie( b.b0, b.b1, b.b2, a.a1, a.a2 ) = to_coeff( z, p, k );
+        assert( z.s0 == complex_t{} );
+        (void) z;
+
+        b.b0 = k;
+        a.a1 = -p.s0.real();
     }
 
     // Observers:
-- 
2.43.0

