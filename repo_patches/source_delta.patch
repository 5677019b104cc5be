From 8d933cddd90ed023a4a944a07df48ce1aaf25ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:15 +0000
Subject: [PATCH 01/86] fix: tdl: indexed access on a single-element delay line
 read past the buffer

---
 src/tdl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdl.cpp b/src/tdl.cpp
index fda5ca5..dbe4221 100644
--- a/src/tdl.cpp
+++ b/src/tdl.cpp
@@ -54,7 +54,7 @@ real_t tdl::getRecent( void ) const noexcept
 real_t tdl::getAtIndex( const size_t i ) const noexcept
 {
     /*cstat -MISRAC++2008-5-0-3*/
-    return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+    return ( ( head + i ) > rd ) ? rd[ itemCount - i ]
                                                       : *( rd - i );
     /*cstat +MISRAC++2008-5-0-3*/
 }
@@ -71,7 +71,7 @@ const real_t& tdl::operator[]( int index ) noexcept
     /*cstat -MISRAC++2008-6-6-5*/
     if ( ( index >= 0 ) && ( i < itemCount ) ) {
         /*cstat -MISRAC++2008-5-0-3*/
-        return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+        return ( ( head + i ) > rd ) ? rd[ itemCount - i ]
                                                           : *( rd - i );
         /*cstat +MISRAC++2008-5-0-3*/
     }
-- 
2.43.0


From d3775fd4ef992e2ba6ab3ded0f8321c5a3c3834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:15 +0000
Subject: [PATCH 02/86] fix: bitfield: zero-width fields shifted by 32 bits and
 accessed a full word

---
 src/bitfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitfield.cpp b/src/bitfield.cpp
index ae846b5..dbaa998 100644
--- a/src/bitfield.cpp
+++ b/src/bitfield.cpp
@@ -115,7 +115,7 @@ uint32_t bitfield::readUINTn( const size_t index,
 {
     uint32_t retValue = 0U;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         if ( 1U == xBits ) {
             retValue = static_cast<uint32_t>( readBit( index ) );
         }
@@ -137,7 +137,7 @@ bool bitfield::writeUINTn( const size_t index,
 {
     bool retValue = false;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         uint32_t w, wMask;
 
         if ( 1U == xBits ) {
-- 
2.43.0


From efa2b4221f5c9b80b9116d607447de3c41f77847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:15 +0000
Subject: [PATCH 03/86] fix: bitfield: 1-bit writes must store the least
 significant bit of the value

---
 src/bitfield.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitfield.cpp b/src/bitfield.cpp
index dbaa998..ba5822c 100644
--- a/src/bitfield.cpp
+++ b/src/bitfield.cpp
@@ -141,7 +141,7 @@ bool bitfield::writeUINTn( const size_t index,
         uint32_t w, wMask;
 
         if ( 1U == xBits ) {
-            (void)writeBit( index, 0 != value );
+            (void)writeBit( index, 0U != ( value & 1U ) );
         }
         else if ( 32U == xBits ) {
             write_uint32( index, value );
-- 
2.43.0


From fbc50e9f14d40aa09a6930e2c48fbc79f0ab6f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 04/86] fix: ltisys: the default lower saturation limit clipped
 every negative output

---
 src/include/ltisys.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/ltisys.hpp b/src/include/ltisys.hpp
index ee63527..d4451e7 100644
--- a/src/include/ltisys.hpp
+++ b/src/include/ltisys.hpp
@@ -189,7 +189,7 @@ namespace qlibs {
             size_t na{ 0U };
             size_t nb{ 0U };
             real_t b0{ 0.0_re };
-            real_t min{ REAL_MIN };
+            real_t min{ -REAL_MAX };
             real_t max{ REAL_MAX };
             void normalizeTransferFunction( real_t *num,
                                             real_t *den,
-- 
2.43.0


From ccdcff1bceb1935ab375daafe31f2d51e2c4eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 05/86] fix: discreteSystem: numerator and denominator lengths
 were swapped on normalisation

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index bdfc3c1..3da15e3 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -141,7 +141,7 @@ bool discreteSystem::setup( real_t *num,
         xd = x;
         a = &den[ 1 ];
         type = LTISYS_TYPE_DISCRETE;
-        normalizeTransferFunction( num, den, n_a, n_b );
+        normalizeTransferFunction( num, den, n_b, n_a );
         (void)setInitStates();
         retValue = true;
     }
-- 
2.43.0


From bdc7ec10401dd6adb6bc1a4ef84a5dd626811385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 06/86] fix: discreteSystem: numerator read out of bounds when
 the denominator is longer

---
 src/ltisys.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 3da15e3..4000171 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -157,7 +157,12 @@ real_t discreteSystem::update( const real_t u )
     for ( size_t i = 0 ; i < na ; ++i ) {
         v -= a[ i ]*xd[ i ];
     }
-    return updateFIR( xd, n, v, b );
+    /*shift the states that have no numerator coefficient*/
+    for ( size_t i = ( n - 1U ) ; i >= nb ; --i ) {
+        xd[ i ] = xd[ i - 1U ];
+    }
+
+    return updateFIR( xd, nb, v, b );
 }
 /*============================================================================*/
 bool continuousSystem::setup( real_t *num,
-- 
2.43.0


From a5c8ad0cbc7ffff6afc080ba2694e13763f66ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 07/86] fix: discreteSystem: setup must refuse an empty
 denominator

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 4000171..e0ebf85 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -133,7 +133,7 @@ bool discreteSystem::setup( real_t *num,
 {
     bool retValue = false;
 
-    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) ) {
+    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) && ( n_a > 0U ) ) {
         b = num;
         na = n_a - 1U;
         nb = n_b;
-- 
2.43.0


From a25daf666cac54889d5041a33d5552a5d3b174e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 08/86] fix: continuousSystem: initial states other than the
 first were ignored

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index e0ebf85..eabc196 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -197,7 +197,7 @@ bool continuousSystem::setInitStates( const real_t *xi )
     if ( isInitialized() ) {
         if ( nullptr != xi ) {
             for ( size_t i = 0U; i < n ; ++i ) {
-                xc[ i ].init( xi[ 0 ], xi[ 0 ], xi[ 0 ] );
+                xc[ i ].init( xi[ i ], xi[ i ], xi[ i ] );
             }
         }
         else {
-- 
2.43.0


From d2195bf1b809b378f7e2dc5f97b688d7cb91188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 09/86] fix: continuousSystem: direct feed-through term was
 missing from the output

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index eabc196..5f095c4 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -236,7 +236,7 @@ real_t continuousSystem::update( const real_t u )
         /*compute the remaining part of the output*/
     }
     /*get the output of the system*/
-    y += ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ];
+    y += ( ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ] ) + ( b0*u );
 
     return y;
 }
-- 
2.43.0


From d3b6e3b012d25e38cb1811d1a93e60a070b26a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 10/86] fix: algorithm: sort with a comparison function must
 compare against the pivot

---
 src/include/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 372bd5f..7cc450c 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -118,7 +118,7 @@ namespace qlibs {
 
                     for ( int i = start; i < end; ++i ) {
                         if ( nullptr != comp ) {
-                            if ( comp( array[ i ], array[ pivotIndex ] ) ) {
+                            if ( comp( array[ i ], pivotValue ) ) {
                                 algorithm::swap( array[ i ], array[ pivotIndex ] );
                                 ++pivotIndex;
                             }
-- 
2.43.0


From 7a48216e555c81eeb42bd9a126ab872451a8244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 11/86] fix: algorithm: replace and replace_if must replace
 every match

---
 src/include/algorithm.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 7cc450c..f37c842 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -327,7 +327,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( old_value == array[ i ] ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
@@ -354,7 +353,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
-- 
2.43.0


From 5033095eb5c6a94d5f940753479f888ca7402a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 12/86] fix: algorithm: find_if must return the first match

---
 src/include/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index f37c842..cadeb68 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -411,6 +411,7 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     found = &array[ i ];
+                    break;
                 }
             }
             return found;
-- 
2.43.0


From 4246ee8fd68d32f771649abc05e4846aceb7044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 13/86] fix: algorithm: left rotation by a multiple of the
 length ran off the array

---
 src/include/algorithm.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index cadeb68..ce34650 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -185,12 +185,14 @@ namespace qlibs {
                 }
                 else {
                     /*cstat -MISRAC++2008-5-0-9*/
-                    r = static_cast<size_t>( -k );
+                    r = static_cast<size_t>( -static_cast<long long>( k ) );
                     /*cstat +MISRAC++2008-5-0-9*/
                     r %= n;
-                    algorithm::reverse( array, 0U, r - 1U );
-                    algorithm::reverse( array, r, n - 1U );
-                    algorithm::reverse( array, 0U, n - 1U );
+                    if ( r > 0U ) {
+                        algorithm::reverse( array, 0U, r - 1U );
+                        algorithm::reverse( array, r, n - 1U );
+                        algorithm::reverse( array, 0U, n - 1U );
+                    }
                 }
             }
         }
-- 
2.43.0


From 0951e2df0022524c8f617265afe35e4404a03686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:04 +0000
Subject: [PATCH 14/86] fix: smootherMWM1: setup tested the unset window size
 and always failed

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 4a39430..fc2e21f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -87,7 +87,7 @@ bool smootherMWM1::setup( real_t *window,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) ) {
+    if ( ( nullptr != window ) && ( w_size > 0U ) ) {
         w = window;
         wsize = w_size;
         retValue = reset();
-- 
2.43.0


From 1cb0a3f4202a556878de54d17cd4fd1bf14f687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:04 +0000
Subject: [PATCH 15/86] fix: smootherMOR2: outliers were detected but still
 returned to the caller

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index fc2e21f..7cf053f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -210,7 +210,7 @@ real_t smootherMOR2::smooth( const real_t x )
     m = sum/wsize;
     insertSample( xx );
 
-    return x;
+    return xx;
 }
 /*============================================================================*/
 bool smootherGMWF::setup( const real_t sg,
-- 
2.43.0


From 3c62600c5d9f0e483b7ed3700b27e68a7166dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:05 +0000
Subject: [PATCH 16/86] fix: smootherALNF: setup without momentum was always
 refused

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 7cf053f..cef247b 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m > 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From bfd942062d7c9b94baea45f95d371dbc0ba41e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:05 +0000
Subject: [PATCH 17/86] fix: smootherALNF: previous weights were read past the
 end of the weights array

---
 src/smoother.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index cef247b..c303f05 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -403,11 +403,9 @@ real_t smootherALNF::smooth( const real_t x )
     }
     xe = discreteSystem::updateFIR( xx, n, x, w );
     if ( nullptr != w_1 ) {
-        real_t * const ww_1 = &w[ n ];
-
         for ( size_t i = 0U ; i < n ; ++i ) {
             const real_t w0 = w[ i ];
-            const real_t w1 = ww_1[ i ];
+            const real_t w1 = w_1[ i ];
 
             w[ i ] += ( alpha*( x - xe )*xx[ i ] ) + ( mu*( w0 - w1 ) );
             w_1[ i ] = w0;
-- 
2.43.0


From c7df17eca14a3eb7f15d18ae3e146627f7345d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:05 +0000
Subject: [PATCH 18/86] fix: smoother: GMWF and ALNF setup must refuse null
 kernel/weights

---
 src/smoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index c303f05..21380e8 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -222,7 +222,7 @@ bool smootherGMWF::setup( const real_t sg,
     bool retValue = false;
     const size_t ws = wk_size;
     /*cstat -CERT-FLP36-C*/
-    if ( ( nullptr != window ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != kernel ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
         real_t r, sum = 0.0_re;
         size_t i;
         real_t l, center;
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != weights ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From 98e9f45b68cf01fc5824ea7da3e8dca8f47ef31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:05 +0000
Subject: [PATCH 19/86] fix: smootherKLMN: reset kept the error covariance of
 the previous run

---
 src/include/smoother.hpp | 1 +
 src/smoother.cpp         | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/include/smoother.hpp b/src/include/smoother.hpp
index d683277..10d13aa 100644
--- a/src/include/smoother.hpp
+++ b/src/include/smoother.hpp
@@ -400,6 +400,7 @@ namespace qlibs {
             real_t q{ 100.0_re };  /* process(predict) noise covariance */
             real_t r{ 0.9_re };  /* measure noise covariance */
             real_t p{ 100.0_re };  /* estimated error covariance */
+            real_t p0{ 100.0_re };  /* initial estimated error covariance */
             real_t gain;
             /*! @endcond  */
         public:
diff --git a/src/smoother.cpp b/src/smoother.cpp
index 21380e8..90e9793 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -300,6 +300,7 @@ bool smootherKLMN::setup( const real_t processNoiseCov,
 
     if ( ( processNoiseCov > 0.0_re ) && ( measureNoiseCov > 0.0_re ) && ( estErrorCov > 0.0_re ) ) {
         p = estErrorCov;
+        p0 = estErrorCov;
         q = processNoiseCov;
         r = measureNoiseCov;
         A = 1.0_re;
@@ -316,6 +317,7 @@ real_t smootherKLMN::smooth( const real_t x )
 
     if ( init ) {
         xS = x;
+        p = p0;
         init = false;
     }
     /* Predict */
-- 
2.43.0


From 301a48bf3071867b379bac7782de58331ca7619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:05 +0000
Subject: [PATCH 20/86] fix: rms: a second-stage parameter of 1 froze the
 estimate and must be refused

---
 src/rms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rms.cpp b/src/rms.cpp
index 81c9869..ddd762f 100644
--- a/src/rms.cpp
+++ b/src/rms.cpp
@@ -35,7 +35,7 @@ bool rms::setParams( const real_t l,
 {
     bool retValue = false;
 
-    if ( ( l > 0.0_re ) && ( l <= 1.0_re ) && ( a > 0.0_re ) && ( a <= 1.0_re ) ) {
+    if ( ( l > 0.0_re ) && ( l <= 1.0_re ) && ( a > 0.0_re ) && ( a < 1.0_re ) ) {
         lambda = l;
         alpha = a;
         retValue = true;
-- 
2.43.0


From 066b4a5a3d0ed83ba723a9aa741f889d84622f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:00 +0000
Subject: [PATCH 21/86] fix: ffmath: sqrt and rSqrt of infinity were not
 infinity and zero

---
 src/ffmath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7bfd6ba..d3148d0 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -208,6 +208,9 @@ float ffmath::sqrt( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = 0.0F;
     }
+    else if ( ffmath::classification::FFP_INFINITE == ffmath::classify( x ) ) {
+        retVal = x;
+    }
     else {
         uint32_t y = bit_cast<uint32_t>( x );
         float z = 0.0F;
@@ -231,6 +234,9 @@ float ffmath::rSqrt( float x )
     else if ( ffmath::classification::FFP_ZERO  == ffmath::classify( x ) ) {
         retVal = limits::infinity();
     }
+    else if ( ffmath::classification::FFP_INFINITE == ffmath::classify( x ) ) {
+        retVal = 0.0F;
+    }
     else {
         uint32_t y = bit_cast<uint32_t>( x );
         const float z = 0.5F*x;
-- 
2.43.0


From 3a1487eada3c89b38f918897fad8abe2b6fec42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:00 +0000
Subject: [PATCH 22/86] fix: ffmath: cube roots of negative numbers used the
 sign bit as magnitude

---
 src/ffmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index d3148d0..df83951 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -254,13 +254,14 @@ static float compute_cbrt( float x , bool r )
     float retVal, y = 0.0F, c, d;
     const float k[ 3 ] = { 1.752319676F, 1.2509524245F, 0.5093818292F };
     constexpr float c13 = 1.0F/3.0F;
-    uint32_t i = bit_cast<uint32_t>( x );
+    uint32_t i;
     bool neg = false;
 
     if ( x < 0.0F ) {
         x = -x;
         neg = true;
     }
+    i = bit_cast<uint32_t>( x );
     i = 0x548C2B4BU - ( i/3U );
     y = bit_cast<float>( i );
     c = x*y*y*y;
-- 
2.43.0


From 0dc1bb8baeb59b7cfc503b1add22da373b0c0348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:00 +0000
Subject: [PATCH 23/86] fix: ffmath: rem must reject a zero divisor, not a zero
 dividend

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index df83951..b346264 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -411,7 +411,7 @@ float ffmath::frac( float x )
 float ffmath::rem( float x,
                    float y )
 {
-    return ( classification::FFP_ZERO == classify( x ) ) ? limits::nan()
+    return ( classification::FFP_ZERO == classify( y ) ) ? limits::nan()
                                                          : ( x - ( y*ffmath::trunc( x/y ) ) );
 }
 /*============================================================================*/
-- 
2.43.0


From 4424ca1498d3a7b01721225c382e168568da4596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:00 +0000
Subject: [PATCH 24/86] fix: ffmath: atan (and atan2) of infinity returned NaN

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index b346264..c8bca44 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -504,9 +504,9 @@ float ffmath::acos( float x )
 /*============================================================================*/
 float ffmath::atan( float x )
 {
-    float abs_x;
+    float abs_x = absolute( x );
 
-    x /= absolute( x ) + 1.0F;
+    x = ( abs_x > limits::Max() ) ? ffmath::copysign( 1.0F, x ) : ( x/( abs_x + 1.0F ) );
     abs_x = absolute( x );
 
     return x*( ( abs_x*( ( -1.45667498914F*abs_x ) + 2.18501248371F ) ) + 0.842458832225F );
-- 
2.43.0


From 8f48fe74d0c2d786cd812e84a048606952f9fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:17 +0000
Subject: [PATCH 25/86] fix: ffmath: exp2 overflowed half an octave early and
 converted NaN to an exponent

---
 src/ffmath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index c8bca44..fbe9b1b 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -531,14 +531,18 @@ float ffmath::exp2( float x )
     if ( x <= -126.0F ) {
         retVal = 0.0F;
     }
-    else if ( x > 128.0F ) {
+    else if ( x >= 128.0F ) {
         retVal = limits::infinity();
     }
+    else if ( ffmath::isNan( x ) ) {
+        retVal = limits::nan();
+    }
     else {
         float ip, fp;
         int32_t ep_i;
 
         ip = ffmath::floor( x + 0.5F );
+        ip = ( ip > 127.0F ) ? 127.0F : ip;
         fp = x - ip;
         /*cstat -CERT-FLP34-C -MISRAC++2008-5-0-21*/
         ep_i = ( static_cast<int32_t>( ip ) + 127 ) << 23;
-- 
2.43.0


From 647c188d187dbf9a6f6ef06c8ad16b80c07510f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:17 +0000
Subject: [PATCH 26/86] fix: ffmath: logarithms of infinity and NaN returned
 finite numbers

---
 src/ffmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index fbe9b1b..728323e 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -570,6 +570,9 @@ float ffmath::log2( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = -limits::infinity();
     }
+    else if ( ffmath::classify( x ) >= ffmath::classification::FFP_INFINITE ) {
+        retVal = x;
+    }
     else {
         float z, px;
         int32_t ip, fp;
-- 
2.43.0


From cc75fae2592baa785363f593ddb5aa0ed2f943b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:43 +0000
Subject: [PATCH 27/86] fix: ffmath: tanh of large negative numbers returned
 NaN

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 728323e..91799d7 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -664,8 +664,8 @@ float ffmath::cosh( float x )
 /*============================================================================*/
 float ffmath::tanh( float x )
 {
-    x = ffmath::exp( -2.0F*x );
-    return ( 1.0F - x )/( 1.0F + x );
+    const float e = ffmath::exp( -2.0F*absolute( x ) );
+    return ffmath::copysign( ( 1.0F - e )/( 1.0F + e ), x );
 }
 /*============================================================================*/
 float ffmath::asinh( float x )
-- 
2.43.0


From 5f7b5650341f809a660c283b0ca487ea478eaf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:43 +0000
Subject: [PATCH 28/86] fix: ffmath: asinh lost all digits for negative
 numbers, asinh/acosh overflowed

---
 src/ffmath.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 91799d7..6a376af 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -670,13 +670,27 @@ float ffmath::tanh( float x )
 /*============================================================================*/
 float ffmath::asinh( float x )
 {
-    return ffmath::log( x + ffmath::sqrt( ( x*x ) + 1.0F ) );
+    const float a = absolute( x );
+    const float y = ( a > 1.0e8F ) ? ( ffmath::log( a ) + ffmath::FFP_LN2 )
+                                   : ffmath::log( a + ffmath::sqrt( ( a*a ) + 1.0F ) );
+    return ffmath::copysign( y, x );
 }
 /*============================================================================*/
 float ffmath::acosh( float x )
 {
-    return ( x < 1.0F ) ? limits::nan()
-                        : ffmath::log( x + ffmath::sqrt( ( x*x ) - 1.0F ) );
+    float y;
+
+    if ( x < 1.0F ) {
+        y = limits::nan();
+    }
+    else if ( x > 1.0e8F ) {
+        y = ffmath::log( x ) + ffmath::FFP_LN2;
+    }
+    else {
+        y = ffmath::log( x + ffmath::sqrt( ( x*x ) - 1.0F ) );
+    }
+
+    return y;
 }
 /*============================================================================*/
 float ffmath::atanh( float x )
-- 
2.43.0


From 8a3017ecc8907fdea5d22176d596ae25e5c4ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:43 +0000
Subject: [PATCH 29/86] fix: ffmath: sinh and cosh overflowed early for
 negative numbers

---
 src/ffmath.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 6a376af..aa48c50 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -648,15 +648,15 @@ float ffmath::pow( float b,
 /*============================================================================*/
 float ffmath::sinh( float x )
 {
-    const float epx = ffmath::exp( x );
+    const float epx = ffmath::exp( absolute( x ) );
     const float enx = 1.0F/epx;
 
-    return 0.5F*( epx - enx );
+    return ffmath::copysign( 0.5F*( epx - enx ), x );
 }
 /*============================================================================*/
 float ffmath::cosh( float x )
 {
-    const float epx = ffmath::exp( x );
+    const float epx = ffmath::exp( absolute( x ) );
     const float enx = 1.0F/epx;
 
     return 0.5F*( epx + enx );
-- 
2.43.0


From 7ead84a0c48894c7ebdb62441f2639a7528730e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:43 +0000
Subject: [PATCH 30/86] fix: ffmath: inPolygon computed the edge crossing with
 the wrong precedence

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index aa48c50..ac9f022 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -828,7 +828,7 @@ bool ffmath::inPolygon( const float x,
             if ( ( px[ i ] > x ) != ( px[ j ] > x ) ) {
                 const float dx = px[ j ] - px[ i ];
                 const float dy = py[ j ] - py[ i ];
-                if ( y < ( ( dy*( x - px[ i ] ) )/( dx + py[ i ] ) ) ) {
+                if ( y < ( ( ( dy*( x - px[ i ] ) )/dx ) + py[ i ] ) ) {
                     retVal = !retVal;
                 }
             }
-- 
2.43.0


From c69c196ebecfa373f64187699216e99f004134be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:43 +0000
Subject: [PATCH 31/86] fix: ffmath: erf used the wrong exponential and
 precedence (erf(0) was -0.75)

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index ac9f022..e65d200 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -857,8 +857,8 @@ float ffmath::erf( float x )
         retVal = 1.0F;
     }
     else {
-        x = ffmath::exp( 3.472034176F*x );
-        retVal = ( x/( ( absolute( x ) + 1.0F )*2.0F ) ) - 1.0F;
+        x = ffmath::exp2( 3.472034176F*x );
+        retVal = ( ( x/( absolute( x ) + 1.0F ) )*2.0F ) - 1.0F;
     }
 
     return retVal;
-- 
2.43.0


From 2fe030d5a963d1e4317f397a2b9d577e469c7a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:43 +0000
Subject: [PATCH 32/86] fix: ffmath: rexp of zero, subnormal and non-finite
 numbers was not their decomposition

---
 src/ffmath.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index e65d200..e53da73 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -872,18 +872,29 @@ float ffmath::erfc( float x )
 float ffmath::rexp( float x,
                     int32_t *pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
-    uint32_t iu;
-    int32_t i = 0;
+    const auto fClass = ffmath::classify( x );
+    float retVal = x;
 
-    iu  = ( lu >> 23U ) & 0x000000FFU;  /* Find the exponent (power of 2) */
-    i = bit_cast<int32_t>( iu );
-    i -= 0x7E;
-    pw2[ 0 ] = static_cast<int>( i );
-    lu &= 0x807FFFFFU; /* strip all exponent bits */
-    lu |= 0x3F000000U; /* mantissa between 0.5 and 1 */
+    pw2[ 0 ] = 0;
+    if ( ( classification::FFP_NORMAL == fClass ) || ( classification::FFP_SUBNORMAL == fClass ) ) {
+        uint32_t lu, iu;
+        int32_t i = 0;
 
-    return bit_cast<float>( lu );
+        if ( classification::FFP_SUBNORMAL == fClass ) {
+            x *= 8388608.0F;
+            i = -23;
+        }
+        lu = bit_cast<uint32_t>( x );
+        iu  = ( lu >> 23U ) & 0x000000FFU;  /* Find the exponent (power of 2) */
+        i += bit_cast<int32_t>( iu );
+        i -= 0x7E;
+        pw2[ 0 ] = static_cast<int>( i );
+        lu &= 0x807FFFFFU; /* strip all exponent bits */
+        lu |= 0x3F000000U; /* mantissa between 0.5 and 1 */
+        retVal = bit_cast<float>( lu );
+    }
+
+    return retVal;
 }
 /*============================================================================*/
 float ffmath::ldexp( float x,
-- 
2.43.0


From 47f37091109dded6bdf8d49e81dadb34275fae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:43 +0000
Subject: [PATCH 33/86] fix: ffmath: ldexp wrapped the exponent on overflow,
 underflow and zero

---
 src/ffmath.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index e53da73..7192817 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -900,17 +900,32 @@ float ffmath::rexp( float x,
 float ffmath::ldexp( float x,
                      int32_t pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
-    uint32_t eu;
+    float retVal = x;
     int32_t e = 0;
+    const float m = ffmath::rexp( x, &e );
+    const auto fClass = ffmath::classify( m );
+
+    if ( classification::FFP_NORMAL == fClass ) {
+        pw2 = ( pw2 > 1000 ) ? 1000 : ( ( pw2 < -1000 ) ? -1000 : pw2 );
+        e += pw2;
+        if ( e > 128 ) {
+            retVal = ffmath::copysign( limits::infinity(), x );
+        }
+        else if ( e < -148 ) {
+            retVal = ffmath::copysign( 0.0F, x );
+        }
+        else {
+            const int32_t s = ( e < -125 ) ? ( e + 125 ) : 0; /* denormalized result */
+            uint32_t lu = bit_cast<uint32_t>( m ) & 0x807FFFFFU;
 
-    eu = ( lu >> 23U ) & 0x000000FFU;
-    e = bit_cast<int32_t>( eu );
-    e += pw2;
-    eu = bit_cast<uint32_t>( e );
-    lu = ( ( eu & 0xFFU ) << 23U ) | ( lu & 0x807FFFFFU );
+            lu |= static_cast<uint32_t>( ( e - s ) + 126 ) << 23U;
+            retVal = bit_cast<float>( lu );
+            lu = static_cast<uint32_t>( s + 127 ) << 23U;
+            retVal *= bit_cast<float>( lu );
+        }
+    }
 
-    return bit_cast<float>( lu );
+    return retVal;
 }
 /*============================================================================*/
 float ffmath::hypot( float x,
-- 
2.43.0


From 2b2f39d7e8b2f1aaa676b99540c26017b1955ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:43 +0000
Subject: [PATCH 34/86] fix: ffmath: hypot scaled by the larger signed, not the
 larger absolute, argument

---
 src/ffmath.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7192817..77f540d 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -939,6 +939,8 @@ float ffmath::hypot( float x,
         float a, b, an, bn;
         int32_t e = 0;
 
+        x = absolute( x );
+        y = absolute( y );
         if ( x >= y ) {
             a = x;
             b = y;
-- 
2.43.0


From d831bb028c4d00f821bc80b25bf862705b477fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:54 +0000
Subject: [PATCH 35/86] fix: ffmath: Laguerre polynomials used the asymptotic
 expansion for small degrees

---
 src/ffmath.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 77f540d..149fcfc 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1455,7 +1455,7 @@ float ffmath::assoc_laguerre( size_t n,
     }
     else if ( ffmath::isEqual( 0.0F, x ) ) {
         float prod = alpha + 1.0F;
-        for ( size_t i = 2U ; i < n ; ++i ) {
+        for ( size_t i = 2U ; i <= n ; ++i ) {
             /*cstat -CERT-FLP36-C*/
             const float k = static_cast<float>( i );
             /*cstat +CERT-FLP36-C*/
@@ -1463,10 +1463,10 @@ float ffmath::assoc_laguerre( size_t n,
         }
         y = prod;
     }
-    else if ( ( alpha > -1.0F ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
+    else if ( ( n > 100000000U ) && ( alpha > -1.0F ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
         y = poly_laguerre_large_n( n, alpha, x );
     }
-    else if ( ( ( x > 0.0F ) && ( alpha < -( N + 1.0F ) ) ) ) {
+    else if ( ( alpha >= 0.0F ) || ( ( x > 0.0F ) && ( alpha < -( N + 1.0F ) ) ) ) {
         y = poly_laguerre_recursion( n, alpha, x );
     }
     else {
-- 
2.43.0


From dd7d267df7ff7ba30cfeddb639b43c304ffda5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:54 +0000
Subject: [PATCH 36/86] fix: ffmath: associated Legendre recursion divided only
 its second term

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 149fcfc..349c88d 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1563,7 +1563,7 @@ float ffmath::assoc_legendre( size_t n,
                 for ( size_t i = ( m + 2U ) ; i <= n ; ++i ) {
                     const float j = static_cast<float>( i );
                     /*cstat +CERT-FLP36-C*/
-                    p_lm = ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m/( j - M ) );
+                    p_lm = ( ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m ) )/( j - M );
                     p_lm2m = p_lm1m;
                     p_lm1m = p_lm;
                 }
-- 
2.43.0


From 10daec0b771a76f806653266193ddb27e0af07bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:54 +0000
Subject: [PATCH 37/86] fix: ffmath: expint had the wrong sign in its E1 series
 and Ei asymptotic terms

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 349c88d..25683a3 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2046,7 +2046,7 @@ static float expint_Ei_asymp( float x )
     for ( size_t i = 1U; i < maxIter; ++i ) {
         const float prev = term;
         /*cstat -CERT-FLP36-C*/
-        term *= -static_cast<float>( i )/x;
+        term *= static_cast<float>( i )/x;
         /*cstat +CERT-FLP36-C*/
         if ( ( term < limits::epsilon() ) || ( term >= prev ) ) {
             break;
@@ -2115,7 +2115,7 @@ static float expint_Ei( float x )
     if ( x < 0.0F ) {
         x = -x;
         if ( x < 1.0F ) {
-            y = expint_E1_series( x );
+            y = -expint_E1_series( x );
         }
         else if ( x < 100.F ) {
             y = -expint_En_cont_frac( 1, x );
-- 
2.43.0


From e19d342eaa42b0d8d2818e5e6fc6e83315bb7756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:55 +0000
Subject: [PATCH 38/86] fix: ffmath: modified Bessel functions started Steed's
 fraction from a stale value

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 25683a3..59ed43d 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2722,17 +2722,17 @@ static void bessel_ik( float nu,
             k_nu1 = sum1*xi2;
         }
         else {
-            float del_h = d;
             float q1 = 0.0F;
             float q2 = 1.0F;
             const float a1 = 0.25F - mu2;
             float q = a1;
             float a = -a1;
-            float s = 1.0F + ( q*del_h );
 
             b = 2.0F*( 1.0F + x );
             d = 1.0F/b;
             h = d;
+            float del_h = d;
+            float s = 1.0F + ( q*del_h );
             c = a1;
             for ( int i = 2 ; i <= max_iter; ++i) {
                 /*cstat -CERT-FLP36-C*/
-- 
2.43.0


From 80dd2832e5f0753c33996e72b15168d64ce0caf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:24 +0000
Subject: [PATCH 39/86] fix: ffmath: factorial of 34.x (integer part 34) was
 infinity

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 59ed43d..7a0f335 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1326,7 +1326,7 @@ float ffmath::factorial( float x )
                                  };
     float y;
 
-    if ( x > 34.0F ) {
+    if ( x >= 35.0F ) {
         y = limits::infinity();
     }
     else if ( x >= 0.0F ) {
-- 
2.43.0


From cf959d6ef174f7e3b2645138db7cc99d57439e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 40/86] fix: fp16::toInt overflows when rounding values next to
 the range ends

---
 src/fp16.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 7a42099..eca17f0 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -42,10 +42,10 @@ int fp16::toInt( const fp16 &x ) noexcept
 
     if ( flag_rounding ) {
         if ( x.value >= 0 ) {
-            retValue = ( x.value + ( one >> 1 ) ) / one;
+            retValue = static_cast<int>( ( static_cast<int64_t>( x.value ) + ( one >> 1 ) ) / one );
         }
         else {
-            retValue = ( x.value - ( one >> 1 ) ) / one;
+            retValue = static_cast<int>( ( static_cast<int64_t>( x.value ) - ( one >> 1 ) ) / one );
         }
     }
     else {
-- 
2.43.0


From 31e5cf45474afe50342c6b7c3c8966f863b26f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 41/86] fix: fp16 conversion from an out-of-range int wraps
 instead of overflowing

---
 src/fp16.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index eca17f0..a125310 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -71,7 +71,10 @@ double fp16::toDouble( const fp16 &x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::fromInt( const int x ) noexcept
 {
-    return static_cast<fp16Raw_t>( static_cast<uint32_t>( x ) << 16U );
+    const int limit = 32767;
+
+    return ( ( x > limit ) || ( x < -limit ) ) ? overflow
+                                               : static_cast<fp16Raw_t>( static_cast<uint32_t>( x ) << 16U );
 }
 /*============================================================================*/
 fp16Raw_t fp16::fromFloat( const float x ) noexcept
-- 
2.43.0


From 72516cd4e4bfc39ee35ec05cc5a3167e03515af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 42/86] fix: fp16 conversion from float rounds exact values and
 casts out of range

---
 src/fp16.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index a125310..fc9bec2 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -79,13 +79,28 @@ fp16Raw_t fp16::fromInt( const int x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::fromFloat( const float x ) noexcept
 {
+    const float limit = 2147483648.0F;
+    fp16Raw_t retValue = overflow;
     float f_value;
     /*cstat -CERT-FLP36-C -CERT-FLP34-C*/
     f_value = x * static_cast<float>( one );
-    if ( flag_rounding ) {
-        f_value += ( f_value >= 0.0F ) ? 0.5F : -0.5F;
+    if ( ( f_value < limit ) && ( f_value > -limit ) ) {
+        retValue = static_cast<fp16Raw_t>( f_value );
+        if ( flag_rounding ) {
+            const float f_frac = f_value - static_cast<float>( retValue );
+
+            if ( f_frac >= 0.5F ) {
+                ++retValue;
+            }
+            else if ( f_frac <= -0.5F ) {
+                --retValue;
+            }
+            else {
+                /*nothing to round*/
+            }
+        }
     }
-    return static_cast<fp16Raw_t>( f_value );
+    return retValue;
     /*cstat +CERT-FLP36-C +CERT-FLP34-C*/
 }
 /*============================================================================*/
-- 
2.43.0


From 8aa6f63d00ee591f14ea3bb9e8cd30613d861cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 43/86] fix: fp16 conversion from an out-of-range double is
 undefined

---
 src/fp16.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index fc9bec2..ff6c8cd 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -106,13 +106,18 @@ fp16Raw_t fp16::fromFloat( const float x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::fromDouble( const double x ) noexcept
 {
+    const double limit = 2147483648.0;
+    fp16Raw_t retValue = overflow;
     double d_value;
     /*cstat -CERT-FLP36-C -CERT-FLP34-C*/
     d_value = x * static_cast<double>( one );
     if ( flag_rounding ) {
         d_value += ( d_value >= 0.0 ) ? 0.5 : -0.5;
     }
-    return static_cast<fp16Raw_t>( d_value );
+    if ( ( d_value < limit ) && ( d_value > -limit ) ) {
+        retValue = static_cast<fp16Raw_t>( d_value );
+    }
+    return retValue;
     /*cstat +CERT-FLP36-C +CERT-FLP34-C*/
 }
 /*============================================================================*/
-- 
2.43.0


From 4b11e39633451177ac0bf7a411f003050d6ec90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 44/86] fix: fp16 multiplication loses the carry of its cross
 terms

---
 src/fp16.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index ff6c8cd..f8d65d8 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -170,7 +170,8 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
                      const fp16Raw_t y ) noexcept
 {
     fp16Raw_t retValue = overflow;
-    fp16Raw_t a, c, ac, ad_cb, mulH;
+    fp16Raw_t a, c, ac, mulH;
+    int64_t ad_cb;
     uint32_t b, d, bd, tmp, mulL;
 
     a = ( x >> 16 );
@@ -178,9 +179,9 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
     b = static_cast<uint32_t>( x & 0xFFFF );
     d = static_cast<uint32_t>( y & 0xFFFF );
     ac = a*c;
-    ad_cb = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( a )*d ) + ( static_cast<uint32_t>( c )*b ) );
+    ad_cb = ( static_cast<int64_t>( a )*d ) + ( static_cast<int64_t>( c )*b );
     bd = b*d;
-    mulH = ac + ( ad_cb >> 16 );
+    mulH = ac + static_cast<fp16Raw_t>( ad_cb >> 16 );
     tmp = static_cast<uint32_t>( ad_cb ) << 16;
     mulL = bd + tmp;
     if ( mulL < bd ) {
-- 
2.43.0


From eeac9cc3ae8bf4e85eed5a764a2e25457c762ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 45/86] fix: fp16::absolute reports overflow for the
 representable minimum

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index f8d65d8..758739e 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -274,7 +274,7 @@ fp16Raw_t fp16::absolute( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue;
 
-    if ( x == Min ) {
+    if ( overflow == x ) {
         retValue = overflow;
     }
     else {
-- 
2.43.0


From 0ef594659e1559ad3331434791ec23a73d75bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 46/86] fix: fp16::rounding adds one instead of rounding to
 nearest

---
 src/include/fp16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fp16.hpp b/src/include/fp16.hpp
index 04de4ee..82e7330 100644
--- a/src/include/fp16.hpp
+++ b/src/include/fp16.hpp
@@ -322,7 +322,7 @@ namespace qlibs {
             */
             static inline fp16 rounding( const fp16 &x ) noexcept
             {
-                return fp16( { x.raw() + one } );
+                return floor( fp16( { add( x.raw(), one_half ) } ) );
             }
 
             /**
-- 
2.43.0


From 3c09ec32cbe9727985fe85234062d67f9b3b7219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 47/86] fix: fp16::sqrt of zero and of negative numbers

---
 src/fp16.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 758739e..d6252b3 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -335,9 +335,15 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
+        if ( ( flag_rounding ) && ( x > retValue ) ) {
+            ++retValue;
+        }
     }
-    if ( ( flag_rounding ) && ( x > retValue ) ) {
-        ++retValue;
+    else if ( 0 == x ) {
+        retValue = 0;
+    }
+    else {
+        /*no real root*/
     }
 
     return static_cast<fp16Raw_t>( retValue );
-- 
2.43.0


From 9a1aa5f10a9be4576e00ac4e55e7ae0dafecb665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 48/86] fix: fp16::exp wraps around next to the maximum

---
 src/fp16.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index d6252b3..5aa893e 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -379,14 +379,17 @@ fp16Raw_t fp16::exp( fp16Raw_t x ) noexcept
 
         for ( i = 2 ; i < 30 ; ++i ) {
             term = mul( term, div( x, fromInt( i ) ) );
-            retValue += term;
+            retValue = add( retValue, term );
 
+            if ( overflow == retValue ) {
+                break;
+            }
             if ( ( term < 500 ) && ( ( i > 15 ) || ( term < 20 ) ) ) {
                 break;
             }
         }
 
-        if ( isNegative ) {
+        if ( isNegative && ( overflow != retValue ) ) {
             retValue = div( one, retValue );
         }
     }
-- 
2.43.0


From fc14aa25ed06ef5a2c341684ed3b2757be05cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 49/86] fix: fp16::log2 of 2^-15 overflows its reciprocal

---
 src/fp16.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 5aa893e..9750d4e 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -488,15 +488,13 @@ fp16Raw_t fp16::log2( fp16Raw_t x ) noexcept
 
     if ( x > 0 ) {
         if ( x < one ) {
-            if ( 1 == x ) {
-                const fp16Raw_t f16 = 1048576;
-                retValue = -f16;
-            }
-            else {
-                fp16Raw_t inv;
-                inv = div( one, x );
-                retValue = -log2i( inv );
+            int n = 0;
+
+            while ( x < one ) {
+                x <<= 1;
+                ++n;
             }
+            retValue = log2i( x ) - fromInt( n );
         }
         else {
             retValue = log2i( x );
-- 
2.43.0


From 2489cf5ba5862d07a8f842df1ca3e3f7ae27a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 50/86] fix: fp16::sin series overflows beyond 2.57 rad

---
 src/fp16.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 9750d4e..a577aa5 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -558,9 +558,19 @@ fp16Raw_t fp16::wrapTo180( fp16Raw_t x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::sin( fp16Raw_t x ) noexcept
 {
+    const fp16Raw_t f_pi = 205887;
     fp16Raw_t retValue, x2;
 
     x = wrapToPi( x );
+    if ( x > f_pi_2 ) {
+        x = f_pi - x;
+    }
+    else if ( x < -f_pi_2 ) {
+        x = -f_pi - x;
+    }
+    else {
+        /*already in the first or fourth quadrant*/
+    }
     x2 = mul( x ,x );
     retValue = x;
     x = mul( x, x2 );
-- 
2.43.0


From 87a42160c221cadd53249a7e3aa81f90aa8bf292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 51/86] fix: fp16::cos overflows next to the maximum

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index a577aa5..715ac41 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -589,7 +589,7 @@ fp16Raw_t fp16::sin( fp16Raw_t x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::cos( fp16Raw_t x ) noexcept
 {
-    return sin( x + f_pi_2 );
+    return sin( wrapToPi( x ) + f_pi_2 );
 }
 /*============================================================================*/
 fp16Raw_t fp16::tan( fp16Raw_t x ) noexcept
-- 
2.43.0


From 97c781615213a6adee1520b78086c8a9b18659c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 52/86] fix: fp16::atan2 overflows for large coordinates and
 divides by zero at the origin

---
 src/fp16.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 715ac41..f9e2b4c 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -605,13 +605,19 @@ fp16Raw_t fp16::tan( fp16Raw_t x ) noexcept
 fp16Raw_t fp16::atan2( fp16Raw_t y,
                        fp16Raw_t x ) noexcept
 {
-    fp16Raw_t absY, mask, angle, r, r_3;
+    fp16Raw_t absY, angle, r, r_3;
     const fp16Raw_t QFP16_0_981689 = 0x0000FB50;
     const fp16Raw_t QFP16_0_196289 = 0x00003240;
     static const fp16Raw_t f_3pi_div_4 = 154415; /*3*pi/4*/
 
-    mask = ( y >> ( sizeof(fp16Raw_t)*7U ) );
-    absY = ( y + mask ) ^ mask;
+    absY = absolute( y );
+    if ( ( absY > ( Max >> 1 ) ) || ( x > ( Max >> 1 ) ) || ( x < -( Max >> 1 ) ) ) {
+        absY >>= 1;
+        x >>= 1;
+    }
+    if ( ( 0 == x ) && ( 0 == absY ) ) {
+        return 0;
+    }
     if ( x >= 0 ) {
         r = div( ( x - absY ), ( x + absY ) );
         const fp16Raw_t f_pi_4 = 51471;
-- 
2.43.0


From f240fedaeb63a4eba9d68eeb8d8843d586b62a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 53/86] fix: fp16::asin/acos at +-1 and outside their domain

---
 src/fp16.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index f9e2b4c..dfdd6f1 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -644,12 +644,11 @@ fp16Raw_t fp16::atan( fp16Raw_t x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::asin( fp16Raw_t x ) noexcept
 {
-    fp16Raw_t retValue = 0;
+    fp16Raw_t retValue = overflow;
 
     if ( ( x <= one ) && ( x >= -one ) ) {
         retValue = one - mul( x, x );
-        retValue = div( x, sqrt( retValue ) );
-        retValue = atan( retValue );
+        retValue = atan2( x, sqrt( retValue ) );
     }
 
     return retValue;
@@ -657,7 +656,7 @@ fp16Raw_t fp16::asin( fp16Raw_t x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::acos( fp16Raw_t x ) noexcept
 {
-    return ( f_pi_2 - asin( x ) );
+    return sub( f_pi_2, asin( x ) );
 }
 /*============================================================================*/
 fp16Raw_t fp16::cosh( fp16Raw_t x ) noexcept
-- 
2.43.0


From 4e6025cf47773d69c666b1ac65532a6c21094736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 54/86] fix: fp16::cosh/sinh overflow their intermediate sum

---
 src/fp16.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index dfdd6f1..f24eb0e 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -674,8 +674,7 @@ fp16Raw_t fp16::cosh( fp16Raw_t x ) noexcept
         epx = exp( x );
         enx = exp( -x );
         if ( ( overflow != epx ) && ( overflow != enx ) ) {
-            retValue = epx + enx;
-            retValue = ( retValue >> 1 );
+            retValue = ( epx >> 1 ) + ( enx >> 1 );
         }
     }
 
@@ -700,8 +699,7 @@ fp16Raw_t fp16::sinh( fp16Raw_t x ) noexcept
         epx = exp( x );
         enx = exp( -x );
         if ( ( overflow != epx ) && ( overflow != enx ) ) {
-            retValue = epx - enx;
-            retValue = ( retValue >> 1 );
+            retValue = ( epx >> 1 ) - ( enx >> 1 );
         }
     }
 
-- 
2.43.0


From 9e1405232b8783e37df162d0447963e2534d5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 55/86] fix: fp16::sinh(0) returns one

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index f24eb0e..a236620 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -687,7 +687,7 @@ fp16Raw_t fp16::sinh( fp16Raw_t x ) noexcept
     fp16Raw_t epx, enx;
 
     if ( 0 == x ) {
-        retValue = one;
+        retValue = 0;
     }
     else if ( x >= exp_max ) {
         retValue = Max;
-- 
2.43.0


From b91795a58b7b514b2c54f4ca3be63684b1d8c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 56/86] fix: fp16::pow sign and domain for non-positive bases

---
 src/fp16.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index a236620..297dc38 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -763,19 +763,27 @@ fp16Raw_t fp16::pow( fp16Raw_t x,
 {
     fp16Raw_t retValue = overflow;
 
-    if ( ( 0U == ( static_cast<uint32_t>( y ) & fraction_mask ) ) && ( y > 0 ) ) {
+    const bool isInteger = ( 0U == ( static_cast<uint32_t>( y ) & fraction_mask ) );
+
+    if ( isInteger && ( y >= 0 ) ) {
         retValue = powi( x, y );
     }
-    else {
+    else if ( ( 0 == x ) && ( y > 0 ) ) {
+        retValue = 0;
+    }
+    else if ( ( x > 0 ) || ( ( x < 0 ) && isInteger ) ) {
         fp16Raw_t tmp;
         tmp = mul( y, log( absolute( x ) ) );
         if ( overflow != tmp ) {
             retValue = exp( tmp );
-            if ( x < 0 ) {
+            if ( ( x < 0 ) && ( 0U != ( static_cast<uint32_t>( y ) & static_cast<uint32_t>( one ) ) ) && ( overflow != retValue ) ) {
                 retValue = -retValue;
             }
         }
     }
+    else {
+        /*zero to a negative power or fractional power of a negative base*/
+    }
 
     return retValue;
 }
-- 
2.43.0


From bedb5ade2e22f5577d86a667e9a1950953b9be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:22 +0000
Subject: [PATCH 57/86] fix: fp16::sqrt overflows its signed working registers
 from 16384 on

---
 src/fp16.cpp | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 297dc38..cd0e2c3 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -297,47 +297,47 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
     fp16Raw_t retValue = overflow;
 
     if ( x > 0 ) {
-        uint32_t bit;
+        uint32_t bit, num, root;
         uint8_t n;
 
-        retValue = 0;
-        /*cstat -MISRAC++2008-5-0-3*/
-        bit = ( 0 != ( x & static_cast<fp16Raw_t>( 4293918720 ) ) ) ? 1073741824U : 262144U;
-        /*cstat +MISRAC++2008-5-0-3*/
-        while ( bit > static_cast<uint32_t>( x ) ) {
+        num = static_cast<uint32_t>( x );
+        root = 0U;
+        bit = ( 0U != ( num & 4293918720U ) ) ? 1073741824U : 262144U;
+        while ( bit > num ) {
             bit >>= 2U;
         }
 
         for ( n = 0U ; n < 2U ; ++n ) {
             while ( 0U != bit ) {
-                if ( x >= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit ) ) {
-                    x -= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit );
-                    retValue = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( retValue ) >> 1U ) + bit );
+                if ( num >= ( root + bit ) ) {
+                    num -= root + bit;
+                    root = ( root >> 1U ) + bit;
                 }
                 else {
-                    retValue = ( retValue >> 1 );
+                    root >>= 1U;
                 }
                 bit >>= 2U;
             }
 
             if ( 0U == n ) {
-                if ( x > 65535 ) {
-                    x -= retValue;
-                    x = ( x << 16 ) - one_half;
-                    retValue = ( retValue << 16 ) + one_half;
+                if ( num > 65535U ) {
+                    num -= root;
+                    num = ( num << 16U ) - static_cast<uint32_t>( one_half );
+                    root = ( root << 16U ) + static_cast<uint32_t>( one_half );
                 }
                 else {
-                    x <<= 16;
-                    retValue <<= 16;
+                    num <<= 16U;
+                    root <<= 16U;
                 }
                 /*cstat -ATH-shift-bounds -MISRAC++2008-5-8-1 -CERT-INT34-C_b*/
                 bit = 1U << 14U;
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
-        if ( ( flag_rounding ) && ( x > retValue ) ) {
-            ++retValue;
+        if ( ( flag_rounding ) && ( num > root ) ) {
+            ++root;
         }
+        retValue = static_cast<fp16Raw_t>( root );
     }
     else if ( 0 == x ) {
         retValue = 0;
@@ -346,7 +346,7 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
         /*no real root*/
     }
 
-    return static_cast<fp16Raw_t>( retValue );
+    return retValue;
 }
 /*============================================================================*/
 fp16Raw_t fp16::exp( fp16Raw_t x ) noexcept
-- 
2.43.0


From 63fe71285cf1f5ac1739f00876c0a77d262597aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:39 +0000
Subject: [PATCH 58/86] fix: interp1 next neighbour at nodes, below the table
 and for NaN

---
 src/interp1.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index a40ecf6..e5577a0 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -39,18 +39,12 @@ real_t interp1::next( const real_t x,
         size_t nearestIndex = tableSize - 1U;
 
         for ( size_t i = 0U ; i < tableSize - 1U ; ++i ) {
-            if ( x < tx[ i + 1U ] ) {
+            if ( x <= tx[ i ] ) {
                 nearestIndex = i;
                 break;
             }
         }
-
-        if ( x >= tx[ tableSize - 1U ] ) {
-            y = ty[ tableSize - 1U ];
-        }
-        else {
-            y = ty[ nearestIndex + 1U ];
-        }
+        y = ty[ nearestIndex ];
     }
 
     return y;
-- 
2.43.0


From f375eba4592806fac99392c3c77a24a691dc443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:39 +0000
Subject: [PATCH 59/86] fix: interp1 sine interpolation always uses the last
 segment

---
 src/interp1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index e5577a0..89315c6 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -171,6 +171,7 @@ real_t interp1::sine( const real_t x,
                     const real_t y1 = ty[ i];
                     const real_t w = 0.5_re - 0.5_re*ffmath::cos( ffmath::FFP_PI*( x - x0 )/( x1 - x0 ) );
                     y = y0 + w*( y1 - y0 );
+                    break;
                 }
             }
         }
-- 
2.43.0


From 54c581fd565bd6be5aba45de266a6c79020bfe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:39 +0000
Subject: [PATCH 60/86] fix: interp1 cubic reads before the table and ignores
 the node spacing

---
 src/interp1.cpp | 69 +++++++++++++++----------------------------------
 1 file changed, 21 insertions(+), 48 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 89315c6..f30c3d2 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -186,55 +186,28 @@ real_t interp1::cubic( const real_t x,
 {
     real_t y = ffmath::getNan();
     if ( ( tableSize >= 4U ) && ( nullptr != tx ) && ( nullptr != ty ) ) {
-        if ( x < tx[ 0 ] ) {
-            const real_t x0 = tx[ 0 ];
-            const real_t x1 = tx[ 1 ];
-            const real_t y0 = ty[ 0 ];
-            const real_t y1 = ty[ 1 ];
-            const real_t h = x1 - x0;
-            const real_t t = ( x - x0 )/h;
-            const real_t t2 = t*t;
-            const real_t t3 = t2*t;
-
-            y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
-                ( t3 - 2.0_re*t2 + t )*h*( y0 - y1 ) +
-                ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
-                ( t3 - t2 )*h*( y1 - y0 );
-        }
-        else if ( x > tx[ tableSize - 1U ] ) {
-            const real_t x0 = tx[ tableSize - 2U ];
-            const real_t x1 = tx[ tableSize - 1U ];
-            const real_t y0 = ty[ tableSize - 2U ];
-            const real_t y1 = ty[ tableSize - 1U ];
-            const real_t h = x1 - x0;
-            const real_t t = ( x - x1 )/h;
-            const real_t t2 = t*t;
-            const real_t t3 = t2*t;
-
-            y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y1 +
-                ( t3 - 2.0_re*t2 + t )*h*( y0 - ty[ tableSize - 3U ] ) +
-                ( -2.0_re*t3 + 3.0_re*t2 )*y0 +
-                ( t3 - t2 )*h*( y1 - y0 );
-        }
-        else {
-            for ( size_t i = 1U; i < tableSize; ++i ) {
-                if ( x <= tx[ i ] ) {
-                    const real_t x0 = tx[ i - 1U ];
-                    const real_t x1 = tx[ i ];
-                    const real_t y0 = ty[ i - 1U ];
-                    const real_t y1 = ty[ i ];
-                    const real_t h = x1 - x0;
-                    const real_t t = ( x - x0 )/h;
-                    const real_t t2 = t*t;
-                    const real_t t3 = t2*t;
-                    y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
-                        ( t3 - 2.0_re*t2 + t )*h*( y0 - ty[ i - 2U ] ) +
-                        ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
-                        ( t3 - t2 )*h*( y1 - y0 );
-                    break;
-                }
-            }
+        size_t i = 1U;
+
+        /* The first and last intervals are also used for extrapolation*/
+        while ( ( i < ( tableSize - 1U ) ) && ( x > tx[ i ] ) ) {
+            ++i;
         }
+
+        const real_t x0 = tx[ i - 1U ];
+        const real_t x1 = tx[ i ];
+        const real_t y0 = ty[ i - 1U ];
+        const real_t y1 = ty[ i ];
+        const real_t h = x1 - x0;
+        const real_t t = ( x - x0 )/h;
+        const real_t t2 = t*t;
+        const real_t t3 = t2*t;
+        const real_t m1 = ( y1 - y0 )/h;
+        const real_t m0 = ( i >= 2U ) ? ( y0 - ty[ i - 2U ] )/( x0 - tx[ i - 2U ] ) : m1;
+
+        y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
+            ( t3 - 2.0_re*t2 + t )*h*m0 +
+            ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
+            ( t3 - t2 )*h*m1;
     }
     return y;
 }
-- 
2.43.0


From 498b0804da659645c52dbc6c673cae99a976c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:39 +0000
Subject: [PATCH 61/86] fix: interp1 constrained spline end slopes can be
 infinite or overshoot

---
 src/interp1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index f30c3d2..d3930bb 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -387,13 +387,13 @@ real_t interp1::firstDerivate( const real_t * const tx,
         const real_t dx = tx[ 1 ] - tx[ 0 ];
         const real_t dy = ty[ 1 ] - ty[ 0 ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ 2 ] - tx[ 0 ] )/( ty[ 2 ] - ty[ 0 ] ) + dx/dy );
+        fd1_x -= 0.5_re*firstDerivate( tx, ty, n, 1U );
     }
     else if ( n == i ) {
         const real_t dx = tx[ n ] - tx[ n - 1U ];
         const real_t dy = ty[ n ] - ty[ n - 1U ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ n ] - tx[ n - 2U ] )/( ty[ n ] - ty[ n - 2U ] ) + ( dx/dy ) );
+        fd1_x -= 0.5_re*firstDerivate( tx, ty, n, n - 1U );
     }
     else {
         const real_t tmp1 = ( tx[ i + 1U ] - tx[ i ] )/( ty[ i + 1U ] - ty[ i ] );
-- 
2.43.0


From 684fd30807dd6c5eeba4c708ad5ddb0629b309d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:13 +0000
Subject: [PATCH 62/86] fix: interp1 constrained spline swaps the second
 derivatives of each segment

---
 src/interp1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index d3930bb..c737de4 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -349,8 +349,8 @@ real_t interp1::cSpline( const real_t x,
             const real_t x0_2 = x0*x0;
             const real_t x0_3 = x0_2*x0;
             const real_t inv_x0_x1 = 1.0_re/x0_x1;
-            const real_t d = ( fd2i_x - fd2i_xl1 )*( 0.166666667_re*inv_x0_x1 );
-            const real_t c = ( ( x0*fd2i_xl1 ) - ( x1*fd2i_x ) )*( 0.5_re*inv_x0_x1 );
+            const real_t d = ( fd2i_xl1 - fd2i_x )*( 0.166666667_re*inv_x0_x1 );
+            const real_t c = ( ( x0*fd2i_x ) - ( x1*fd2i_xl1 ) )*( 0.5_re*inv_x0_x1 );
             const real_t b = ( y0 - y1 - c*( x0_2 - x1_2 ) - d*( x0_3 - x1_3 ) )*inv_x0_x1;
             const real_t a = y1 - ( b*x1 ) - ( c*x1_2 ) - ( d*x1_3 );
             y = a + x*( b + x*( c + ( x*d ) ) );
-- 
2.43.0


From 59503c89e61fe37ec393c32dcb3736db3f61df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:20 +0000
Subject: [PATCH 63/86] fix: mat pre-decrement increments

---
 src/include/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 680733f..f2c6255 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -257,7 +257,7 @@ namespace qlibs {
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        ++m[i][j];
+                        --m[i][j];
                     }
                 }
                 return *this;
-- 
2.43.0


From cc8cda60bfc67d19058a6ef73591b431d331f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:20 +0000
Subject: [PATCH 64/86] fix: mat::normInf walks outside non-square matrices

---
 src/include/mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index f2c6255..117c308 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -470,9 +470,9 @@ namespace qlibs {
                 size_t i,j;
                 real_t maxM =0.0_re, sum = 0.0_re;
 
-                for ( i = 0U ; i < Cols; i++ ) {
+                for ( i = 0U ; i < Rows; i++ ) {
                     sum = 0.0_re;
-                    for ( j = 0U ; j < Rows ; ++j ) {
+                    for ( j = 0U ; j < Cols ; ++j ) {
                         sum += ( m[i][j] < 0.0_re ) ? -m[i][j] : m[i][j];
                     }
                     if ( 0U == i ) {
-- 
2.43.0


From 8949833e9ac2d60fc08c12aeb8dd128cc9b95565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:20 +0000
Subject: [PATCH 65/86] fix: mat::inv fails for invertible matrices with a zero
 pivot

---
 src/include/mat.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 117c308..727bda0 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -445,6 +445,20 @@ namespace qlibs {
                 mat<Rows,Rows> I( MAT_IDENTITY );
 
                 for ( size_t i = 0; i < Rows; ++i ) {
+                    size_t p = i; // Row with the largest pivot
+                    for ( size_t j = i + 1; j < Rows; ++j ) {
+                        if ( ffmath::absf( X(j, i) ) > ffmath::absf( X(p, i) ) ) {
+                            p = j;
+                        }
+                    }
+                    for ( size_t j = 0; ( p != i ) && ( j < Rows ); ++j ) {
+                        const real_t tmpX = X(i, j);
+                        const real_t tmpI = I(i, j);
+                        X(i, j) = X(p, j);
+                        I(i, j) = I(p, j);
+                        X(p, j) = tmpX;
+                        I(p, j) = tmpI;
+                    }
                     real_t pivot = X(i, i);
                     // Make the diagonal element 1
                     for ( size_t j = 0; j < Rows; ++j ) {
-- 
2.43.0


From 4c6202ce377c5fe44b6cf163370ed4dbc9c8576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:35 +0000
Subject: [PATCH 66/86] fix: pidController::setup validates the old time step
 instead of the argument

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index d38fdef..b25ec87 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -14,7 +14,7 @@ bool pidController::setup( const real_t kc,
 {
     bool retValue = false;
 
-    if ( dt > 0.0_re ) {
+    if ( dT > 0.0_re ) {
         dt = dT;
         isInitialized = true;
         (void)setDerivativeFilter( 0.98_re );
-- 
2.43.0


From 179c61f6b88bead72213b99ff1449aa5e49e58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:35 +0000
Subject: [PATCH 67/86] fix: pidController output saturation lets NaN through

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index b25ec87..84801c0 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -511,7 +511,7 @@ real_t pidController::saturate( real_t x,
     if ( x > vMax ) {
         x = vMax;
     }
-    else if ( x < vMin ) {
+    else if ( !( x >= vMin ) ) { /*also catches NaN*/
         x = vMin;
     }
     else {
-- 
2.43.0


From c77b6f411ac9e6f0ec303efff62a57975e7c3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:35 +0000
Subject: [PATCH 68/86] fix: pidController derivative action differentiates
 against the integrator input

---
 src/include/pid.hpp | 11 +++++++++++
 src/pid.cpp         |  3 ++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/include/pid.hpp b/src/include/pid.hpp
index b661adc..4d379f6 100644
--- a/src/include/pid.hpp
+++ b/src/include/pid.hpp
@@ -141,6 +141,7 @@ namespace qlibs {
             real_t m, mInput;
             const real_t *yr{ nullptr };
             real_t alpha, gamma; /*MRAC additive controller parameters*/
+            nState d_state; /*Derivative action state*/
             nState m_state; /*MRAC additive controller state*/
             nState b_state; /*Bumpless-transfer state*/
             pidAutoTuning *adapt{ nullptr };
@@ -389,6 +390,16 @@ namespace qlibs {
             */
             bool setAutoTuningControllerType( const pidType t ) noexcept;
 
+            /**
+            * @brief Set the method used to compute the derivative action.
+            * @param[in] method The desired derivation method.
+            * @return none
+            */
+            inline void setDerivationMethod( derivationMethod method ) noexcept
+            {
+                d_state.setDerivationMethod( method );
+            }
+
             /**
             * @brief Reset the internal PID controller calculations.
             * @return @c true on success, otherwise return @c false.
diff --git a/src/pid.cpp b/src/pid.cpp
index 84801c0..4242939 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -217,6 +217,7 @@ bool pidController::reset( void ) noexcept
 
     if ( isInitialized ) {
         init(); //internal controller state
+        d_state.init();
         m_state.init();
         b_state.init();
         D = 0.0_re;
@@ -285,7 +286,7 @@ real_t pidController::control( const real_t w,
             kd = ( kd > 0.0_re ) ? -kd : kd;
         }
         e = error( w, y );
-        de = derive( error( w, y, c ) , dt, false );
+        de = d_state.derive( error( w, y, c ) , dt );
         ie = integrate( e + u1 , dt );
         D = de + beta*( D - de ); /*derivative filtering*/
         v  = ( kc*error( w, y, b ) ) + ( ki*ie ) + ( kd*D ); /*compute PID action*/
-- 
2.43.0


From 2ac6e4b5725eac7bfab06cc110f965db37228689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:35 +0000
Subject: [PATCH 69/86] fix: pidAutoTuning counts down an indefinite tuning
 time

---
 src/pid.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index 4242939..bfaa9ae 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -357,8 +357,9 @@ bool pidAutoTuning::step( const real_t u,
     /*cstat +MISRAC++2008-5-14-1*/
         k = gain + ( mu*( k - gain ) );
         tao = timeConstant + ( mu*( tao - timeConstant ) );
-        if ( ( 0UL == --it ) && ( pidAutoTuning::UNDEFINED != it ) ) {
-            ready = true;
+        if ( pidAutoTuning::UNDEFINED != it ) {
+            --it;
+            ready = ( 0UL == it );
         }
     }
 
-- 
2.43.0


From 432b9679e4c58a46b9a4f5303aa3150fd39b6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:35 +0000
Subject: [PATCH 70/86] fix: pidController auto-tuning can install non-finite
 gains

---
 src/pid.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index bfaa9ae..5f140f0 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -426,9 +426,13 @@ void pidController::adaptGains( const real_t u,
 {
     if ( adapt->step( u, y, dt ) ) {
         pidGains newGains = adapt->getEstimates();
-        Kc = newGains.Kc;
-        Ki = newGains.Ki;
-        Kd = newGains.Kd;
+        /*never install useless gains*/
+        if ( pidAutoTuning::isValidValue( newGains.Kc ) && !ffmath::isNan( newGains.Ki ) && !ffmath::isInf( newGains.Ki ) &&
+             !ffmath::isNan( newGains.Kd ) && !ffmath::isInf( newGains.Kd ) ) {
+            Kc = newGains.Kc;
+            Ki = newGains.Ki;
+            Kd = newGains.Kd;
+        }
     }
 }
 /*============================================================================*/
-- 
2.43.0


From 4274c0c6c34aba134fd87a9e1dc46adc465a2bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 71/86] fix: fis trimf/trapmf are zero at the peak of a
 vertical right edge

---
 src/fisCore.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index e2c5a5e..50d5a27 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -18,7 +18,15 @@ real_t fis::core::TriMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
     c = p[ 2 ];
-    tmp = Min( ( x - a )/( b - a ) , ( c - x )/( c - b ) );
+    if ( x < b ) {
+        tmp = ( x - a )/( b - a );
+    }
+    else if ( x > b ) {
+        tmp = ( c - x )/( c - b );
+    }
+    else {
+        tmp = 1.0_re; /*the peak, also for a vertical edge*/
+    }
 
     return Max( tmp , 0.0_re );
 }
@@ -35,8 +43,15 @@ real_t fis::core::TrapMF( const fis::ioBase * const in,
     b = p[ 1 ];
     c = p[ 2 ];
     d = p[ 3 ];
-    tmp = Min( ( x - a )/( b - a ) , 1.0_re );
-    tmp = Min( tmp, ( d - x )/( d - c ) ) ;
+    if ( x < b ) {
+        tmp = ( x - a )/( b - a );
+    }
+    else if ( x > c ) {
+        tmp = ( d - x )/( d - c );
+    }
+    else {
+        tmp = 1.0_re; /*the plateau, also for a vertical edge*/
+    }
 
     return Max( tmp , 0.0_re );
 }
-- 
2.43.0


From b4991d97f05d30d37c02c8388431b0dd21bc6986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 72/86] fix: fis gauss2mf applies its right branch on the wrong
 side

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 50d5a27..a098e5f 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -96,7 +96,7 @@ real_t fis::core::Gauss2MF( const fis::ioBase * const in,
     c1 = p[ 1 ];
     c2 = p[ 3 ];
     f1 = ( x <= c1 ) ? GaussMF( in , p, n ) : 1.0_re;
-    f2 = ( x <= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
+    f2 = ( x >= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
 
     return f1*f2;
 }
-- 
2.43.0


From 65d2c3181cbb156718f3b0fffc0028c7a0ceafc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 73/86] fix: fis linzmf rises instead of falling between its
 points

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index a098e5f..e82d78f 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -301,7 +301,7 @@ real_t fis::core::LinZMF( const fis::ioBase * const in,
             y = 0.0_re;
         }
         else {
-            y = ( a - x )/( a - b );
+            y = ( b - x )/( b - a );
         }
     }
     else if ( ffmath::isEqual( a, b ) ) {
-- 
2.43.0


From d231e9daf69f8963a7ef1da0f7e08c3aacc0a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 74/86] fix: fis tlinzmf is not the inverse of linzmf

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index e82d78f..524cc94 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -427,7 +427,7 @@ real_t fis::core::TLinZMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
 
-    return a - ( ( a - b )*x );
+    return b - ( ( b - a )*x );
 }
 /*============================================================================*/
 real_t fis::core::TRampMF( const ioBase * const in,
-- 
2.43.0


From 00f8de361596487cfc14b696a8e96572fb585e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 75/86] fix: fis tsmf inverts the upper half of the curve
 beyond its end

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 524cc94..1307dae 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -213,7 +213,7 @@ real_t fis::core::TSMF( const fis::ioBase * const in,
     ta = a + ffmath::sqrt( x*diff );
     tmp.value = ta;
     ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( -( x - 1.0_re )*diff );
+    tb = b - ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = tb;
     mb = SMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
-- 
2.43.0


From e4e99885261f8235cfa8e76c7f9f547261ff9049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 76/86] fix: fis tzmf is not the inverse of zmf

---
 src/fisCore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 1307dae..6d3b2aa 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -329,10 +329,10 @@ real_t fis::core::TZMF( const fis::ioBase * const in,
     diff = 0.5_re*diff*diff;
     ta = a + ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = ta;
-    ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( x*diff );
+    ma = ZMF( &tmp, p, n );
+    tb = b - ffmath::sqrt( x*diff );
     tmp.value = tb;
-    mb = SMF( &tmp, p, n );
+    mb = ZMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
 }
 /*============================================================================*/
-- 
2.43.0


From 10e98a0c0c44631a82f9df59eac1ca29b9922163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 77/86] fix: fis tconcavemf is not the inverse of concavemf

---
 src/fisCore.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 6d3b2aa..872e69b 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -380,12 +380,14 @@ real_t fis::core::TConcaveMF( const fis::ioBase * const in,
                               const real_t *p,
                               const size_t n )
 {
+    const real_t x = in[ 0 ].value;
     real_t i, e;
+    (void)n;
 
     i = p[ 0 ];
     e = p[ 1 ];
 
-    return ( ( i - e )/ConcaveMF( in, p, n ) ) + ( 2.0_re*e ) - i;
+    return ( ( i - e )/x ) + ( 2.0_re*e ) - i;
 }
 /*============================================================================*/
 real_t fis::core::SpikeMF( const fis::ioBase * const in,
-- 
2.43.0


From f1f1aa6648907ac5c9be084a082c8975547c33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 78/86] fix: fis smallest-of-maximum returns the largest

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 872e69b..faf691a 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -638,7 +638,7 @@ real_t fis::core::deFuzzSOM( fis::output * const o,
 
     switch ( stage ) {
         case FIS_DEFUZZ_COMPUTE:
-            if ( o->y >= o->v[ yMax ] ) {
+            if ( o->y > o->v[ yMax ] ) {
                 o->v[ yMax ] = o->y;
                 o->v[ xLargest ] = o->x;
             }
-- 
2.43.0


From c6eab34a85709aa052d1e4aed2abcbc19194c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 79/86] fix: fis Tsukamoto consequents are evaluated on the
 first input

---
 src/fis.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index d2fdcc3..8ee39a7 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -382,7 +382,17 @@ size_t fis::instance::inferenceConsequent( size_t i ) noexcept
         }
         else { /* Sugeno and Tsukamoto*/
             real_t zi;
-            zi = m.membership( xInput, nInputs );
+            if ( Tsukamoto == xType ) {
+                /*the crisp value is induced by the firing strength*/
+                fis::ioBase strength;
+                strength.min = o.min;
+                strength.max = o.max;
+                strength.value = wi[ ruleCount ];
+                zi = m.membership( &strength );
+            }
+            else {
+                zi = m.membership( xInput, nInputs );
+            }
             o.v[ sum_wz ] += zi*wi[ ruleCount ];
             o.v[ sum_w ] += wi[ ruleCount ];
         }
-- 
2.43.0


From 85b01c0925c514d2b4d618653065ca7203725032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 80/86] fix: fis configuration calls accept tags beyond the
 supplied tables

---
 src/fis.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 8ee39a7..df3f489 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -122,7 +122,7 @@ bool fis::instance::setupInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].min = Min;
         xInput[ t ].max = Max;
@@ -139,7 +139,7 @@ bool fis::instance::setupOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         xOutput[ t ].min = Min;
         xOutput[ t ].max = Max;
@@ -172,7 +172,7 @@ bool fis::instance::setInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].value = value;
         /*cstat +CERT-STR34-C*/
@@ -187,7 +187,7 @@ bool fis::instance::getOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xOutput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         value = xOutput[ t ].value;
         /*cstat +CERT-STR34-C*/
@@ -217,7 +217,11 @@ bool fis::instance::setMF( fis::mf *m,
         &TLinSMF, &TLinZMF, &TConcaveMF, &TSigMF, &TSMF, &TZMF, &TRampMF
     };
 
-    if ( ( io >= 0 ) && ( mf >= 0 ) && ( s < FIS_NUM_MFS ) ) {
+    const size_t nio = ( m == inMF ) ? nInputs : nOutputs;
+    const size_t nmf = ( m == inMF ) ? nMFInputs : nMFOutputs;
+
+    if ( ( io >= 0 ) && ( static_cast<size_t>( io ) < nio ) &&
+         ( mf >= 0 ) && ( static_cast<size_t>( mf ) < nmf ) && ( s < FIS_NUM_MFS ) ) {
         /*cstat -CERT-STR34-C*/
         m[ mf ].shape = ( nullptr != customMf ) ? customMf : fShape[ s ];
         m[ mf ].index = static_cast<size_t>( io );
-- 
2.43.0


From a8b7d3a5b6b0efee2a776cf7a43b22ca034c16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 81/86] fix: fis output operator[] reads the inputs for an
 unknown tag

---
 src/include/fis.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 924e8c7..53cdbe8 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -833,7 +833,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xInput[ nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xOutput[ nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
@@ -1168,7 +1168,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xInput[ sys.nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xOutput[ sys.nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
-- 
2.43.0


From 018f7b804ef40ab4ec0ef084ba0545efa3199cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:59 +0000
Subject: [PATCH 82/86] fix: fis inference uses the tags of malformed rules
 before validating them

---
 src/fis.cpp         | 25 ++++++++++++++++++++-----
 src/include/fis.hpp |  4 ++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index df3f489..791c121 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -272,6 +272,17 @@ real_t fis::instance::parseFuzzValue( fis::mf * const mfIO,
     return y;
 }
 /*============================================================================*/
+bool fis::instance::isValidPremise( const fis::rules io,
+                                    const size_t nio,
+                                    const fis::rules index,
+                                    const size_t nmf ) noexcept
+{
+    const int k = ( index < 0 ) ? -static_cast<int>( index ) : static_cast<int>( index );
+
+    return ( io >= 0 ) && ( static_cast<size_t>( io ) < nio ) &&
+           ( index > Q_FIS_THEN ) && ( k > 0 ) && ( static_cast<size_t>( k ) <= nmf );
+}
+/*============================================================================*/
 fis::fuzzyOperator fis::instance::getFuzzOperator( void ) noexcept
 {
     fis::fuzzyOperator oper;
@@ -299,15 +310,16 @@ size_t fis::instance::inferenceAntecedent( size_t i ) noexcept
     inIndex = xRules[ i ];
     /*cstat -CERT-INT30-C_a*/
     MFInIndex = xRules[ i + 1U ];
-    connector = xRules[ i + 2U ];
     /*cstat +CERT-INT30-C_a*/
-    op = getFuzzOperator();
-    rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
-
-    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) > nInputs ) ) {
+    if ( !isValidPremise( inIndex, nInputs, MFInIndex, nMFInputs ) ) {
         i = INFERENCE_ERROR;
     }
     else {
+        /*cstat -CERT-INT30-C_a*/
+        connector = xRules[ i + 2U ];
+        /*cstat +CERT-INT30-C_a*/
+        op = getFuzzOperator();
+        rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
         if ( ( Q_FIS_AND == connector ) || ( Q_FIS_OR == connector ) ) {
             lastConnector = connector;
             inferenceState = &fis::instance::inferenceAntecedent;
@@ -329,6 +341,9 @@ size_t fis::instance::inferenceReachEnd( size_t i ) noexcept
 {
     fis::rules connector;
     /*cstat -CERT-INT30-C_a*/
+    if ( !isValidPremise( xRules[ i ], nOutputs, xRules[ i + 1U ], nMFOutputs ) ) {
+        return INFERENCE_ERROR;
+    }
     connector = ( nOutputs > 1U )? xRules[ i + 2U ] : -1;
     /*cstat +CERT-INT30-C_a*/
     i += 2U;
diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 53cdbe8..fd05e4b 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -538,6 +538,10 @@ namespace qlibs {
                         const real_t h ) noexcept;
             static real_t parseFuzzValue( mf * const mfIO,
                                           rules index ) noexcept;
+            static bool isValidPremise( const rules io,
+                                        const size_t nio,
+                                        const rules index,
+                                        const size_t nmf ) noexcept;
             fuzzyOperator getFuzzOperator( void ) noexcept;
             size_t inferenceAntecedent( size_t i ) noexcept;
             size_t inferenceReachEnd( size_t i ) noexcept;
-- 
2.43.0


From b69415c4d96591d5d1322cd93e4d0d5b5f906852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:59 +0000
Subject: [PATCH 83/86] fix: fis inference without a strength array or rule set
 start

---
 src/fis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 791c121..095c2a5 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -508,14 +508,14 @@ bool fis::instance::inference( void ) noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != xRules  ) {
+    if ( ( nullptr != xRules ) && ( nullptr != wi ) ) {
         size_t i = 0U;
 
+        ruleCount = 0U;
         if ( Q_FIS_RULES_BEGIN == xRules[ 0 ] ) {
             inferenceState = &fis::instance::inferenceAntecedent;
             rStrength = 0.0_re;
             lastConnector = -1;
-            ruleCount = 0U;
             i = 1U;
             while ( ( Q_FIS_RULES_END != xRules[ i ] ) && ( ruleCount < nRules ) ) {
                 i = (this->*inferenceState)( i );
-- 
2.43.0


From 15e9a20ddb663d8954074e3f15b79b77ea69e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:30 +0000
Subject: [PATCH 84/86] fix: matrix compound scalar operators with an element
 of the matrix itself

---
 src/include/mat.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 727bda0..812145c 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -314,9 +314,11 @@ namespace qlibs {
 
             // Overload the compound multiplication operator (*=) with scalar
             mat<Rows, Cols>& operator*=(const real_t& scalar) {
+                const real_t value = scalar; // it may be an element of this matrix
+
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] *= scalar;
+                        m[i][j] *= value;
                     }
                 }
                 return *this;
@@ -324,9 +326,11 @@ namespace qlibs {
 
             // Overload the compound multiplication operator (*=) with scalar
             mat<Rows, Cols>& operator/=(const real_t& scalar) {
+                const real_t value = scalar; // it may be an element of this matrix
+
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] /= scalar;
+                        m[i][j] /= value;
                     }
                 }
                 return *this;
@@ -335,9 +339,11 @@ namespace qlibs {
             // Overload the compound addition operator (+=) with a scalar
             mat<Rows, Cols>& operator+=(const real_t& scalar)
             {
+                const real_t value = scalar; // it may be an element of this matrix
+
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] += scalar;
+                        m[i][j] += value;
                     }
                 }
                 return *this;
@@ -346,9 +352,11 @@ namespace qlibs {
             // Overload the compound subtraction operator (-=) with a scalar
             mat<Rows, Cols>& operator-=(const real_t& scalar)
             {
+                const real_t value = scalar; // it may be an element of this matrix
+
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] -= scalar;
+                        m[i][j] -= value;
                     }
                 }
                 return *this;
-- 
2.43.0


From 03e4aaca223eaaea1f3005473456decb4e9aa301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:06 +0000
Subject: [PATCH 85/86] fix: fis deFuzzify on a malformed rule table or without
 a strength array reads out of bounds

---
 src/fis.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 095c2a5..987aa19 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -364,9 +364,13 @@ size_t fis::instance::inferenceReachEnd( size_t i ) noexcept
 /*============================================================================*/
 size_t fis::instance::aggregationFindConsequent( size_t i ) noexcept
 {
-    while ( Q_FIS_THEN != xRules[ i++ ] ) {}
+    while ( Q_FIS_THEN != xRules[ i ] ) {
+        if ( Q_FIS_RULES_END == xRules[ i ] ) {
+            return INFERENCE_ERROR;
+        }
+        ++i;
+    }
     aggregationState = &fis::instance::inferenceConsequent;
-    --i;
 
     return i;
 }
@@ -379,6 +383,9 @@ size_t fis::instance::inferenceConsequent( size_t i ) noexcept
     outIndex = xRules[ i ];
     /*cstat -CERT-INT30-C_a*/
     MFOutIndex = xRules[ i + 1U ];
+    if ( !isValidPremise( outIndex, nOutputs, MFOutIndex, nMFOutputs ) ) {
+        return INFERENCE_ERROR;
+    }
     connector = ( nOutputs > 1U )? xRules[ i + 2U ] : -1;
     /*cstat +CERT-INT30-C_a*/
     if ( MFOutIndex < 0 ) {
@@ -448,7 +455,7 @@ bool fis::instance::deFuzzify( void ) noexcept
 {
     bool retValue = false;
 
-    if ( ( nullptr != xOutput ) && ( nullptr != outMF ) ) {
+    if ( ( nullptr != xOutput ) && ( nullptr != outMF ) && ( nullptr != wi ) ) {
         size_t i;
 
         for ( i = 0U ; i < nOutputs ; ++i ) {
-- 
2.43.0


From 8334be471d8d449ef22454fcb9b72643069b9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:21 +0000
Subject: [PATCH 86/86] fix: lgamma of arguments above 171.624 is finite

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7a0f335..cf6f493 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1129,7 +1129,7 @@ static float lgamma_positive( float x )
     constexpr float pnt68 = 0.6796875F;
     float result;
 
-    if ( x > 171.624F ) {
+    if ( x > 4.0850034e36F ) {
         result = limits::infinity();
     }
     else {
-- 
2.43.0

