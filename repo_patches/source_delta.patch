From f9e8db1a5a0fa205b9e243b016ea6cffc35b48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 01/47] fix: pidController::setup() validates the time step it
 is given, not the previous one

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index d38fdef..b25ec87 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -14,7 +14,7 @@ bool pidController::setup( const real_t kc,
 {
     bool retValue = false;
 
-    if ( dt > 0.0_re ) {
+    if ( dT > 0.0_re ) {
         dt = dT;
         isInitialized = true;
         (void)setDerivativeFilter( 0.98_re );
-- 
2.43.0


From 41ec428939c6702e079ce0f3a51c08300d65c28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 02/47] fix: LTI systems no longer clamp negative outputs when
 no saturation is set

---
 src/include/ltisys.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/ltisys.hpp b/src/include/ltisys.hpp
index ee63527..d4451e7 100644
--- a/src/include/ltisys.hpp
+++ b/src/include/ltisys.hpp
@@ -189,7 +189,7 @@ namespace qlibs {
             size_t na{ 0U };
             size_t nb{ 0U };
             real_t b0{ 0.0_re };
-            real_t min{ REAL_MIN };
+            real_t min{ -REAL_MAX };
             real_t max{ REAL_MAX };
             void normalizeTransferFunction( real_t *num,
                                             real_t *den,
-- 
2.43.0


From 90adcb0b7e3f561c5ed6cc436271fffbd15e5b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 03/47] fix: discrete systems handle numerator and denominator
 of different lengths

---
 src/ltisys.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index bdfc3c1..137ddd2 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -133,7 +133,7 @@ bool discreteSystem::setup( real_t *num,
 {
     bool retValue = false;
 
-    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) ) {
+    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) && ( n_a > 0U ) ) {
         b = num;
         na = n_a - 1U;
         nb = n_b;
@@ -141,7 +141,7 @@ bool discreteSystem::setup( real_t *num,
         xd = x;
         a = &den[ 1 ];
         type = LTISYS_TYPE_DISCRETE;
-        normalizeTransferFunction( num, den, n_a, n_b );
+        normalizeTransferFunction( num, den, n_b, n_a );
         (void)setInitStates();
         retValue = true;
     }
@@ -157,7 +157,11 @@ real_t discreteSystem::update( const real_t u )
     for ( size_t i = 0 ; i < na ; ++i ) {
         v -= a[ i ]*xd[ i ];
     }
-    return updateFIR( xd, n, v, b );
+    /*shift the states beyond the numerator, there are no coefficients for them*/
+    for ( size_t i = ( n - 1U ) ; i >= nb ; --i ) {
+        xd[ i ] = xd[ i - 1U ];
+    }
+    return updateFIR( xd, nb, v, b );
 }
 /*============================================================================*/
 bool continuousSystem::setup( real_t *num,
-- 
2.43.0


From c9089fa8055855a4c6d8e191075ae037ca42c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 04/47] fix: continuousSystem::setInitStates() uses the initial
 value of each state

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 137ddd2..e7bcbae 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -196,7 +196,7 @@ bool continuousSystem::setInitStates( const real_t *xi )
     if ( isInitialized() ) {
         if ( nullptr != xi ) {
             for ( size_t i = 0U; i < n ; ++i ) {
-                xc[ i ].init( xi[ 0 ], xi[ 0 ], xi[ 0 ] );
+                xc[ i ].init( xi[ i ], xi[ i ], xi[ i ] );
             }
         }
         else {
-- 
2.43.0


From 9a1e9ed34aed1120a158055d2d449a07a3bc69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 05/47] fix: continuous systems include the direct feed-through
 term in the output

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index e7bcbae..700b0da 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -237,7 +237,7 @@ real_t continuousSystem::update( const real_t u )
     /*get the output of the system*/
     y += ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ];
 
-    return y;
+    return y + ( b0*u );
 }
 #elif defined( LTISYS_EVAL_MODEL_OBSERVABLE )
 /*============================================================================*/
-- 
2.43.0


From 965705d608c75f6ddfb4b263097915b4763c5efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 06/47] fix: smootherMWM1::setup() validates the window size it
 is given

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 4a39430..fc2e21f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -87,7 +87,7 @@ bool smootherMWM1::setup( real_t *window,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) ) {
+    if ( ( nullptr != window ) && ( w_size > 0U ) ) {
         w = window;
         wsize = w_size;
         retValue = reset();
-- 
2.43.0


From 01501bc9d06606cbecd739be1e16310336e72857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 07/47] fix: smootherMOR2 returns the filtered sample instead
 of the raw one

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index fc2e21f..7cf053f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -210,7 +210,7 @@ real_t smootherMOR2::smooth( const real_t x )
     m = sum/wsize;
     insertSample( xx );
 
-    return x;
+    return xx;
 }
 /*============================================================================*/
 bool smootherGMWF::setup( const real_t sg,
-- 
2.43.0


From 9222395b1a9ff25d4835e9d31413453225fa84bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 08/47] fix: smootherALNF reads the previous weights from their
 own buffer

---
 src/smoother.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 7cf053f..17be5dc 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -403,11 +403,9 @@ real_t smootherALNF::smooth( const real_t x )
     }
     xe = discreteSystem::updateFIR( xx, n, x, w );
     if ( nullptr != w_1 ) {
-        real_t * const ww_1 = &w[ n ];
-
         for ( size_t i = 0U ; i < n ; ++i ) {
             const real_t w0 = w[ i ];
-            const real_t w1 = ww_1[ i ];
+            const real_t w1 = w_1[ i ];
 
             w[ i ] += ( alpha*( x - xe )*xx[ i ] ) + ( mu*( w0 - w1 ) );
             w_1[ i ] = w0;
-- 
2.43.0


From d3d00ff0b3c127946523bb3865916906ff6614e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 09/47] fix: smootherALNF can be set up without momentum, as
 its overload does

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 17be5dc..c303f05 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m > 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From 51964900ee1dd0629aa7ccbd198040571b8b262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 10/47] fix: indexing a delay line of a single tap stays inside
 its area

---
 src/tdl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdl.cpp b/src/tdl.cpp
index fda5ca5..9ea5128 100644
--- a/src/tdl.cpp
+++ b/src/tdl.cpp
@@ -54,7 +54,7 @@ real_t tdl::getRecent( void ) const noexcept
 real_t tdl::getAtIndex( const size_t i ) const noexcept
 {
     /*cstat -MISRAC++2008-5-0-3*/
-    return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+    return ( ( wr > rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
                                                       : *( rd - i );
     /*cstat +MISRAC++2008-5-0-3*/
 }
@@ -71,7 +71,7 @@ const real_t& tdl::operator[]( int index ) noexcept
     /*cstat -MISRAC++2008-6-6-5*/
     if ( ( index >= 0 ) && ( i < itemCount ) ) {
         /*cstat -MISRAC++2008-5-0-3*/
-        return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+        return ( ( wr > rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
                                                           : *( rd - i );
         /*cstat +MISRAC++2008-5-0-3*/
     }
-- 
2.43.0


From 808f7b8140b4c520382d914bf537cc2389777431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 11/47] fix: resetting smootherKLMN restores the initial error
 covariance

---
 src/include/smoother.hpp | 1 +
 src/smoother.cpp         | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/smoother.hpp b/src/include/smoother.hpp
index d683277..bb22430 100644
--- a/src/include/smoother.hpp
+++ b/src/include/smoother.hpp
@@ -400,6 +400,7 @@ namespace qlibs {
             real_t q{ 100.0_re };  /* process(predict) noise covariance */
             real_t r{ 0.9_re };  /* measure noise covariance */
             real_t p{ 100.0_re };  /* estimated error covariance */
+            real_t p0{ 100.0_re };  /* initial error covariance */
             real_t gain;
             /*! @endcond  */
         public:
diff --git a/src/smoother.cpp b/src/smoother.cpp
index c303f05..e3209eb 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -299,7 +299,8 @@ bool smootherKLMN::setup( const real_t processNoiseCov,
     bool retValue = false;
 
     if ( ( processNoiseCov > 0.0_re ) && ( measureNoiseCov > 0.0_re ) && ( estErrorCov > 0.0_re ) ) {
-        p = estErrorCov;
+        p0 = estErrorCov;
+        p = p0;
         q = processNoiseCov;
         r = measureNoiseCov;
         A = 1.0_re;
@@ -316,6 +317,7 @@ real_t smootherKLMN::smooth( const real_t x )
 
     if ( init ) {
         xS = x;
+        p = p0;
         init = false;
     }
     /* Predict */
-- 
2.43.0


From 595d75f67815490c9443a59ffbfcb7f429f1a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 12/47] fix: the PID derivative action keeps its own history,
 not the integrator's

---
 src/include/pid.hpp | 10 ++++++++++
 src/pid.cpp         |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/include/pid.hpp b/src/include/pid.hpp
index b661adc..a91aefa 100644
--- a/src/include/pid.hpp
+++ b/src/include/pid.hpp
@@ -143,6 +143,7 @@ namespace qlibs {
             real_t alpha, gamma; /*MRAC additive controller parameters*/
             nState m_state; /*MRAC additive controller state*/
             nState b_state; /*Bumpless-transfer state*/
+            nState d_state; /*Derivative action state*/
             pidAutoTuning *adapt{ nullptr };
             pidMode mode{ pidMode::PID_AUTOMATIC };
             pidDirection dir{ pidDirection::PID_FORWARD };
@@ -403,6 +404,15 @@ namespace qlibs {
             {
                 return { Kc, Ki, Kd };
             }
+
+            /**
+            * @brief Set the numerical method used by the derivative action.
+            * @param[in] m The desired derivation method.
+            */
+            inline void setDerivationMethod( derivationMethod m ) noexcept
+            {
+                d_state.setDerivationMethod( m );
+            }
     };
 
     /** @}*/
diff --git a/src/pid.cpp b/src/pid.cpp
index b25ec87..dbb2abe 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -217,6 +217,7 @@ bool pidController::reset( void ) noexcept
 
     if ( isInitialized ) {
         init(); //internal controller state
+        d_state.init();
         m_state.init();
         b_state.init();
         D = 0.0_re;
@@ -285,7 +286,7 @@ real_t pidController::control( const real_t w,
             kd = ( kd > 0.0_re ) ? -kd : kd;
         }
         e = error( w, y );
-        de = derive( error( w, y, c ) , dt, false );
+        de = d_state.derive( error( w, y, c ) , dt );
         ie = integrate( e + u1 , dt );
         D = de + beta*( D - de ); /*derivative filtering*/
         v  = ( kc*error( w, y, b ) ) + ( ki*ie ) + ( kd*D ); /*compute PID action*/
-- 
2.43.0


From f704e8c744e5b6d25a4702d5e2f26f11dd37edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 13/47] fix: FIS smallest-of-maximum returns the smallest
 abscissa

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index e2c5a5e..96aebc4 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -621,7 +621,7 @@ real_t fis::core::deFuzzSOM( fis::output * const o,
 
     switch ( stage ) {
         case FIS_DEFUZZ_COMPUTE:
-            if ( o->y >= o->v[ yMax ] ) {
+            if ( o->y > o->v[ yMax ] ) {
                 o->v[ yMax ] = o->y;
                 o->v[ xLargest ] = o->x;
             }
-- 
2.43.0


From 5876e1a91bc5faf6792f14bdb30692c2205fe500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 14/47] fix: Tsukamoto consequents are evaluated on the firing
 strength of the rule

---
 src/fis.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index d2fdcc3..9b9ac56 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -382,7 +382,17 @@ size_t fis::instance::inferenceConsequent( size_t i ) noexcept
         }
         else { /* Sugeno and Tsukamoto*/
             real_t zi;
-            zi = m.membership( xInput, nInputs );
+            if ( Tsukamoto == xType ) { /*consequent is evaluated on the firing strength*/
+                fis::ioBase strength;
+
+                strength.value = wi[ ruleCount ];
+                strength.min = o.min;
+                strength.max = o.max;
+                zi = m.membership( &strength );
+            }
+            else {
+                zi = m.membership( xInput, nInputs );
+            }
             o.v[ sum_wz ] += zi*wi[ ruleCount ];
             o.v[ sum_w ] += wi[ ruleCount ];
         }
-- 
2.43.0


From 7e6efe6f3c643aa1492d4685c90736bd937bfa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 15/47] fix: Tsukamoto S, Z, linear-Z and concave shapes invert
 their membership functions

---
 src/fisCore.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 96aebc4..8dd6dce 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -198,7 +198,7 @@ real_t fis::core::TSMF( const fis::ioBase * const in,
     ta = a + ffmath::sqrt( x*diff );
     tmp.value = ta;
     ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( -( x - 1.0_re )*diff );
+    tb = b - ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = tb;
     mb = SMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
@@ -314,10 +314,10 @@ real_t fis::core::TZMF( const fis::ioBase * const in,
     diff = 0.5_re*diff*diff;
     ta = a + ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = ta;
-    ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( x*diff );
+    ma = ZMF( &tmp, p, n );
+    tb = b - ffmath::sqrt( x*diff );
     tmp.value = tb;
-    mb = SMF( &tmp, p, n );
+    mb = ZMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
 }
 /*============================================================================*/
@@ -365,12 +365,14 @@ real_t fis::core::TConcaveMF( const fis::ioBase * const in,
                               const real_t *p,
                               const size_t n )
 {
+    const real_t x = in[ 0 ].value;
     real_t i, e;
+    (void)n;
 
     i = p[ 0 ];
     e = p[ 1 ];
 
-    return ( ( i - e )/ConcaveMF( in, p, n ) ) + ( 2.0_re*e ) - i;
+    return ( ( i - e )/x ) + ( 2.0_re*e ) - i;
 }
 /*============================================================================*/
 real_t fis::core::SpikeMF( const fis::ioBase * const in,
@@ -412,7 +414,7 @@ real_t fis::core::TLinZMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
 
-    return a - ( ( a - b )*x );
+    return b - ( ( b - a )*x );
 }
 /*============================================================================*/
 real_t fis::core::TRampMF( const ioBase * const in,
-- 
2.43.0


From 741b77f33676e6f4f55337db8e07e1ad5fd0c78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 16/47] fix: the linear Z-shaped membership function decreases

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 8dd6dce..94606a1 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -286,7 +286,7 @@ real_t fis::core::LinZMF( const fis::ioBase * const in,
             y = 0.0_re;
         }
         else {
-            y = ( a - x )/( a - b );
+            y = ( b - x )/( b - a );
         }
     }
     else if ( ffmath::isEqual( a, b ) ) {
-- 
2.43.0


From ac00cea075a2236b1bff987634ca955fb9ae7e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 17/47] fix: the two-sided gaussian membership function falls
 off after its right peak

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 94606a1..466abb2 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -81,7 +81,7 @@ real_t fis::core::Gauss2MF( const fis::ioBase * const in,
     c1 = p[ 1 ];
     c2 = p[ 3 ];
     f1 = ( x <= c1 ) ? GaussMF( in , p, n ) : 1.0_re;
-    f2 = ( x <= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
+    f2 = ( x > c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
 
     return f1*f2;
 }
-- 
2.43.0


From 7f9dde8be3eae99b7b770cb9dfbd22eb8e011252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 18/47] fix: triangular and trapezoidal sets keep full
 membership at a vertical right edge

---
 src/fisCore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 466abb2..625ec45 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -18,7 +18,8 @@ real_t fis::core::TriMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
     c = p[ 2 ];
-    tmp = Min( ( x - a )/( b - a ) , ( c - x )/( c - b ) );
+    tmp = Min( ( x - a )/( b - a ) , 1.0_re );
+    tmp = Min( ( c - x )/( c - b ), tmp );
 
     return Max( tmp , 0.0_re );
 }
@@ -36,7 +37,7 @@ real_t fis::core::TrapMF( const fis::ioBase * const in,
     c = p[ 2 ];
     d = p[ 3 ];
     tmp = Min( ( x - a )/( b - a ) , 1.0_re );
-    tmp = Min( tmp, ( d - x )/( d - c ) ) ;
+    tmp = Min( ( d - x )/( d - c ), tmp );
 
     return Max( tmp , 0.0_re );
 }
-- 
2.43.0


From 9729d17980d08a19583d5c440a7d9887d3c3e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 19/47] fix: rules that refer to an input past the last one are
 rejected

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 9b9ac56..1e12f64 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -300,7 +300,7 @@ size_t fis::instance::inferenceAntecedent( size_t i ) noexcept
     op = getFuzzOperator();
     rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
 
-    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) > nInputs ) ) {
+    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) >= nInputs ) ) {
         i = INFERENCE_ERROR;
     }
     else {
-- 
2.43.0


From 3ec9a178228797edcb3cdb0cd6c57dc0fbf7f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 20/47] fix: FIS setup is rejected without storage for the rule
 strengths

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 1e12f64..86725a9 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -88,7 +88,7 @@ bool fis::instance::setup( const fis::type t,
          ( nullptr != outputs) && ( no > 0U ) &&
          ( nullptr != mf_inputs) && ( nmi > 0U ) &&
          ( nullptr != mf_outputs) && ( nmo > 0U ) &&
-         ( nullptr != r ) && ( n > 0U )
+         ( nullptr != r ) && ( n > 0U ) && ( nullptr != rWeights )
        ) {
         xType = t;
         xInput = inputs;
-- 
2.43.0


From 9b59b5be0a37076fab7eb18e460253414051f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 21/47] fix: indexing a FIS past its outputs falls back to an
 output, not to an input

---
 src/include/fis.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 924e8c7..53cdbe8 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -833,7 +833,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xInput[ nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xOutput[ nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
@@ -1168,7 +1168,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xInput[ sys.nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xOutput[ sys.nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
-- 
2.43.0


From d29105f1b3d58b7e23edc2881b852caecb61fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 22/47] fix: only the documented implication methods are
 accepted

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 86725a9..e1b2900 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -19,7 +19,7 @@ bool fis::instance::setParameter( const fis::parameter p,
             }
             break;
         case fis::parameter::FIS_Implication:
-            if ( x <= fis::paramValue::FIS_PROBOR ) {
+            if ( x <= fis::paramValue::FIS_PROD ) {
                 implicate = method[ x ];
                 retValue = true;
             }
-- 
2.43.0


From 898aacfcf032164a4eba0e4712ec66f8047088a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:39 +0000
Subject: [PATCH 23/47] fix: auto-tuning parameters are validated against their
 documented ranges

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index dbb2abe..47d67e3 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -474,7 +474,7 @@ bool pidController::setAutoTuningParameters( const real_t Mu,
     bool retValue = false;
 
     if ( nullptr != adapt ) {
-        if ( adapt->isValidParam( Mu ) && adapt->isValidParam( Alpha ) && adapt->isValidParam( lambda ) ) { //skipcq : CXX-C2022
+        if ( ( Mu >= 0.0_re ) && ( Mu <= 1.0_re ) && adapt->isValidParam( Alpha ) && adapt->isValidParam( lambda ) && ( lambda >= 0.8_re ) ) { //skipcq : CXX-C2022
             adapt->setMemoryFactor( lambda );
             adapt->setMomentum( Mu );
             adapt->setEstimatedControllerSpeed( Alpha );
-- 
2.43.0


From de68554f43197ea8975d64a6150238572e9b1d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:03 +0000
Subject: [PATCH 24/47] fix: PID anti-windup no longer diverges with reverse
 action

---
 src/pid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pid.cpp b/src/pid.cpp
index 47d67e3..3eb7785 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -307,6 +307,9 @@ real_t pidController::control( const real_t w,
         uSat = saturate( sw, sat_Min, sat_Max );
         u = uSat; /*output saturated*/
         u1 = kw*( u - v ); /*anti-windup feedback*/
+        if ( ki < 0.0_re ) {
+            u1 = -u1; /*the correction must oppose the excess for reverse actions too*/
+        }
         if ( nullptr != adapt ) {
             adaptGains( u, y );
         }
-- 
2.43.0


From 9f7cc35e2e9add09e2e997b0247f45c0e7a31727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:21 +0000
Subject: [PATCH 25/47] fix: auto-tuning never installs gains that are not
 finite

---
 src/pid.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index 3eb7785..a6e2d5e 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -427,10 +427,14 @@ void pidController::adaptGains( const real_t u,
                                 const real_t y ) noexcept
 {
     if ( adapt->step( u, y, dt ) ) {
-        pidGains newGains = adapt->getEstimates();
-        Kc = newGains.Kc;
-        Ki = newGains.Ki;
-        Kd = newGains.Kd;
+        const pidGains newGains = adapt->getEstimates();
+        const real_t sum = newGains.Kc + newGains.Ki + newGains.Kd;
+
+        if ( !ffmath::isNan( sum ) && !ffmath::isInf( sum ) ) {
+            Kc = newGains.Kc;
+            Ki = newGains.Ki;
+            Kd = newGains.Kd;
+        }
     }
 }
 /*============================================================================*/
-- 
2.43.0


From e6fa3acf4062584d2626e4066e9c1304aba8e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:56 +0000
Subject: [PATCH 26/47] fix: initial states of a continuous system are not
 taken as their past derivatives

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 700b0da..0487837 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -196,7 +196,7 @@ bool continuousSystem::setInitStates( const real_t *xi )
     if ( isInitialized() ) {
         if ( nullptr != xi ) {
             for ( size_t i = 0U; i < n ; ++i ) {
-                xc[ i ].init( xi[ i ], xi[ i ], xi[ i ] );
+                xc[ i ].init( xi[ i ] );
             }
         }
         else {
-- 
2.43.0


From e8436560dca9b23779e8bc9c5ae769526705ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:56 +0000
Subject: [PATCH 27/47] fix: outliers rejected by smootherMOR1 no longer spoil
 its mean by cancellation

---
 src/smoother.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index e3209eb..9b79ef5 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -154,23 +154,21 @@ bool smootherMOR1::setup( real_t *window,
 /*============================================================================*/
 real_t smootherMOR1::smooth( const real_t x )
 {
-    real_t mc;
+    real_t xx = x;
 
     if ( init ) {
         windowSet( w, wsize, x );
         m = x;
         init = false;
     }
-    /*shift, sum and compensate*/
-    mc = discreteSystem::updateFIR( w, wsize, x ) - x;
     if ( ffmath::absf( m - x ) > ( alpha*ffmath::absf( m ) ) ) {
-        w[ 0 ] = m; /*replace the outlier with the dynamic median*/
+        xx = m; /*replace the outlier with the dynamic median*/
     }
-    /*compute new mean for next iteration*/
+    /*shift, sum and compute new mean for next iteration*/
     /*cstat -CERT-FLP36-C*/
-    m = ( mc + w[ 0 ] ) / static_cast<real_t>( wsize );
+    m = discreteSystem::updateFIR( w, wsize, xx ) / static_cast<real_t>( wsize );
     /*cstat +CERT-FLP36-C*/
-    return w[ 0 ];
+    return xx;
 }
 /*============================================================================*/
 bool smootherMOR2::setup( real_t *window,
-- 
2.43.0


From a537ccb8efb6439d46a90f779ce35b8144fb6b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:58 +0000
Subject: [PATCH 28/47] fix: the fast square root of a subnormal number is not
 negative

---
 src/ffmath.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7bfd6ba..0148441 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -209,13 +209,19 @@ float ffmath::sqrt( float x )
         retVal = 0.0F;
     }
     else {
+        float scale = 1.0F;
+
+        if ( x < FLT_MIN ) { /*the initial guess needs a normalized number*/
+            x *= 16777216.0F;
+            scale = 1.0F/4096.0F;
+        }
         uint32_t y = bit_cast<uint32_t>( x );
         float z = 0.0F;
 
         y = ( ( y - 0x00800000U ) >> 1U ) + 0x20000000U;
         z = bit_cast<float>( y );
         z = 0.5F*( ( x/z ) + z );
-        retVal = 0.5F*( ( x/z ) + z );
+        retVal = 0.5F*( ( x/z ) + z )*scale;
     }
 
     return retVal;
-- 
2.43.0


From f87163993fa858561530034d94ecf407a528315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 29/47] fix: cubic interpolation read before the table in its
 first interval

---
 src/interp1.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index a40ecf6..fd18344 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -232,8 +232,10 @@ real_t interp1::cubic( const real_t x,
                     const real_t t = ( x - x0 )/h;
                     const real_t t2 = t*t;
                     const real_t t3 = t2*t;
+                    /*the first interval has no previous point*/
+                    const real_t dy0 = ( i >= 2U ) ? ( y0 - ty[ i - 2U ] ) : ( y1 - y0 );
                     y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
-                        ( t3 - 2.0_re*t2 + t )*h*( y0 - ty[ i - 2U ] ) +
+                        ( t3 - 2.0_re*t2 + t )*h*dy0 +
                         ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
                         ( t3 - t2 )*h*( y1 - y0 );
                     break;
-- 
2.43.0


From b807080a2a2ab9770f658c466375a65f9c07cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:50 +0000
Subject: [PATCH 30/47] fix: rotate left by a multiple of the array size wrote
 outside the array

---
 src/include/algorithm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 372bd5f..f2b827a 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -188,7 +188,9 @@ namespace qlibs {
                     r = static_cast<size_t>( -k );
                     /*cstat +MISRAC++2008-5-0-9*/
                     r %= n;
-                    algorithm::reverse( array, 0U, r - 1U );
+                    if ( r > 0U ) {
+                        algorithm::reverse( array, 0U, r - 1U );
+                    }
                     algorithm::reverse( array, r, n - 1U );
                     algorithm::reverse( array, 0U, n - 1U );
                 }
-- 
2.43.0


From 20be57d5fe601197ce6dc8ae83adb33634e1ae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:24 +0000
Subject: [PATCH 31/47] fix: nearest-next interpolation read past the table for
 a NaN abscissa

---
 src/interp1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index fd18344..672e82d 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -48,9 +48,12 @@ real_t interp1::next( const real_t x,
         if ( x >= tx[ tableSize - 1U ] ) {
             y = ty[ tableSize - 1U ];
         }
-        else {
+        else if ( nearestIndex < ( tableSize - 1U ) ) {
             y = ty[ nearestIndex + 1U ];
         }
+        else {
+            /*x is not a number: so is the result*/
+        }
     }
 
     return y;
-- 
2.43.0


From 8b1c7dc80de01928885f08a64b487334ffb077f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 32/47] fix: sine interpolation used the last interval of the
 table for every abscissa

---
 src/interp1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 672e82d..bf2a612 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -180,6 +180,7 @@ real_t interp1::sine( const real_t x,
                     const real_t y1 = ty[ i];
                     const real_t w = 0.5_re - 0.5_re*ffmath::cos( ffmath::FFP_PI*( x - x0 )/( x1 - x0 ) );
                     y = y0 + w*( y1 - y0 );
+                    break;
                 }
             }
         }
-- 
2.43.0


From 1c0ebd6412724b0048f16e6d659e833fbc068ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 33/47] fix: the constrained spline does not overshoot in its
 first and last interval

---
 src/interp1.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index bf2a612..59cde4c 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -425,13 +425,21 @@ real_t interp1::firstDerivate( const real_t * const tx,
         const real_t dx = tx[ 1 ] - tx[ 0 ];
         const real_t dy = ty[ 1 ] - ty[ 0 ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ 2 ] - tx[ 0 ] )/( ty[ 2 ] - ty[ 0 ] ) + dx/dy );
+        const real_t tmp1 = ( tx[ 2 ] - tx[ 1 ] )/( ty[ 2 ] - ty[ 1 ] );
+        const real_t tmp2 = dx/dy;
+        if ( ( tmp1*tmp2 ) >= 0.0_re ) { /*half of the derivative at 1*/
+            fd1_x -= 1.0_re/( tmp1 + tmp2 );
+        }
     }
     else if ( n == i ) {
         const real_t dx = tx[ n ] - tx[ n - 1U ];
         const real_t dy = ty[ n ] - ty[ n - 1U ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ n ] - tx[ n - 2U ] )/( ty[ n ] - ty[ n - 2U ] ) + ( dx/dy ) );
+        const real_t tmp1 = ( tx[ n - 1U ] - tx[ n - 2U ] )/( ty[ n - 1U ] - ty[ n - 2U ] );
+        const real_t tmp2 = dx/dy;
+        if ( ( tmp1*tmp2 ) >= 0.0_re ) { /*half of the derivative at n - 1*/
+            fd1_x -= 1.0_re/( tmp1 + tmp2 );
+        }
     }
     else {
         const real_t tmp1 = ( tx[ i + 1U ] - tx[ i ] )/( ty[ i + 1U ] - ty[ i ] );
-- 
2.43.0


From ed3a5f6009591d040fec9774c08b27f4978a94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 34/47] fix: sort with a comparison function compared with the
 wrong element

---
 src/include/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index f2b827a..c2f0f3e 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -118,7 +118,7 @@ namespace qlibs {
 
                     for ( int i = start; i < end; ++i ) {
                         if ( nullptr != comp ) {
-                            if ( comp( array[ i ], array[ pivotIndex ] ) ) {
+                            if ( comp( array[ i ], pivotValue ) ) {
                                 algorithm::swap( array[ i ], array[ pivotIndex ] );
                                 ++pivotIndex;
                             }
-- 
2.43.0


From 80d341d98fcabf70adca1f4c6f3e01ff68ada982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 35/47] fix: replace and replace_if replace all the matching
 elements

---
 src/include/algorithm.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index c2f0f3e..37d3a67 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -329,7 +329,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( old_value == array[ i ] ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
@@ -356,7 +355,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
-- 
2.43.0


From bfd5499a691203a90ca49a0bfdabd5a8c2bc7011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 36/47] fix: find_if returns the first match

---
 src/include/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 37d3a67..d2b8e7a 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -413,6 +413,7 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     found = &array[ i ];
+                    break;
                 }
             }
             return found;
-- 
2.43.0


From 47d65d3393b60f92b1bafdd6eadae916535a4329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 37/47] fix: decrement of a matrix incremented it

---
 src/include/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 680733f..f2c6255 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -257,7 +257,7 @@ namespace qlibs {
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        ++m[i][j];
+                        --m[i][j];
                     }
                 }
                 return *this;
-- 
2.43.0


From f23b06eeb104f4d9851d65c38455e98b8bc68030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 38/47] fix: infinity norm of a non-square matrix indexed
 outside of it

---
 src/include/mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index f2c6255..117c308 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -470,9 +470,9 @@ namespace qlibs {
                 size_t i,j;
                 real_t maxM =0.0_re, sum = 0.0_re;
 
-                for ( i = 0U ; i < Cols; i++ ) {
+                for ( i = 0U ; i < Rows; i++ ) {
                     sum = 0.0_re;
-                    for ( j = 0U ; j < Rows ; ++j ) {
+                    for ( j = 0U ; j < Cols ; ++j ) {
                         sum += ( m[i][j] < 0.0_re ) ? -m[i][j] : m[i][j];
                     }
                     if ( 0U == i ) {
-- 
2.43.0


From 5c83b15cc541cd9a121da3cd471e10f8f3299158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 39/47] fix: the inverse of a matrix with a zero pivot is not a
 number

---
 src/include/mat.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 117c308..50ac214 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -445,6 +445,20 @@ namespace qlibs {
                 mat<Rows,Rows> I( MAT_IDENTITY );
 
                 for ( size_t i = 0; i < Rows; ++i ) {
+                    size_t p = i; // Row with the largest element of the column
+                    for ( size_t j = i + 1U; j < Rows; ++j ) {
+                        const real_t a = ( X(j, i) < 0.0_re ) ? -X(j, i) : X(j, i);
+                        const real_t b = ( X(p, i) < 0.0_re ) ? -X(p, i) : X(p, i);
+                        p = ( a > b ) ? j : p;
+                    }
+                    for ( size_t j = 0; ( p != i ) && ( j < Rows ); ++j ) {
+                        const real_t x = X(i, j);
+                        const real_t y = I(i, j);
+                        X(i, j) = X(p, j);
+                        I(i, j) = I(p, j);
+                        X(p, j) = x;
+                        I(p, j) = y;
+                    }
                     real_t pivot = X(i, i);
                     // Make the diagonal element 1
                     for ( size_t j = 0; j < Rows; ++j ) {
-- 
2.43.0


From c8ce83d5d3a81329bb22d51767e700e3453c42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:30 +0000
Subject: [PATCH 40/47] fix: constrained spline exchanged the second
 derivatives of its ends, leaving kinks at the table points

---
 src/interp1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 59cde4c..a339b3b 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -387,8 +387,8 @@ real_t interp1::cSpline( const real_t x,
             const real_t x0_2 = x0*x0;
             const real_t x0_3 = x0_2*x0;
             const real_t inv_x0_x1 = 1.0_re/x0_x1;
-            const real_t d = ( fd2i_x - fd2i_xl1 )*( 0.166666667_re*inv_x0_x1 );
-            const real_t c = ( ( x0*fd2i_xl1 ) - ( x1*fd2i_x ) )*( 0.5_re*inv_x0_x1 );
+            const real_t d = ( fd2i_xl1 - fd2i_x )*( 0.166666667_re*inv_x0_x1 );
+            const real_t c = ( ( x0*fd2i_x ) - ( x1*fd2i_xl1 ) )*( 0.5_re*inv_x0_x1 );
             const real_t b = ( y0 - y1 - c*( x0_2 - x1_2 ) - d*( x0_3 - x1_3 ) )*inv_x0_x1;
             const real_t a = y1 - ( b*x1 ) - ( c*x1_2 ) - ( d*x1_3 );
             y = a + x*( b + x*( c + ( x*d ) ) );
-- 
2.43.0


From 1089745f3b3b86c45772c353ed17db2532d17404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:34 +0000
Subject: [PATCH 41/47] fix: forget the last input tag when a fuzzy inference
 system is set up again

operator<< writes through the tag it was last given. A second setup() with
fewer inputs kept that tag, so the next value was written past the inputs.
---
 src/fis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fis.cpp b/src/fis.cpp
index e1b2900..b6b405b 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -102,6 +102,7 @@ bool fis::instance::setup( const fis::type t,
         xRules = r;
         wi = rWeights;
         nRules = n;
+        lastTag = -1;
         deFuzz = ( Mamdani == xType )? &deFuzzCentroid : &deFuzzWtAverage;
         (void)setParameter( FIS_AND, FIS_MIN );
         (void)setParameter( FIS_OR, FIS_MAX );
-- 
2.43.0


From 309e2511864d3bfa863a657319cf51275abf2c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:11 +0000
Subject: [PATCH 42/47] fix: fp16 multiplication keeps the middle products in
 64 bits

Their sum wrapped in 32 bits, so some products out of range came back as a
valid number and some products in range as an overflow.
---
 src/fp16.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 7a42099..8686bdd 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -147,7 +147,8 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
                      const fp16Raw_t y ) noexcept
 {
     fp16Raw_t retValue = overflow;
-    fp16Raw_t a, c, ac, ad_cb, mulH;
+    fp16Raw_t a, c, ac, mulH;
+    int64_t ad_cb;
     uint32_t b, d, bd, tmp, mulL;
 
     a = ( x >> 16 );
@@ -155,9 +156,9 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
     b = static_cast<uint32_t>( x & 0xFFFF );
     d = static_cast<uint32_t>( y & 0xFFFF );
     ac = a*c;
-    ad_cb = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( a )*d ) + ( static_cast<uint32_t>( c )*b ) );
+    ad_cb = ( static_cast<int64_t>( a )*d ) + ( static_cast<int64_t>( c )*b );
     bd = b*d;
-    mulH = ac + ( ad_cb >> 16 );
+    mulH = ac + static_cast<fp16Raw_t>( ad_cb >> 16 );
     tmp = static_cast<uint32_t>( ad_cb ) << 16;
     mulL = bd + tmp;
     if ( mulL < bd ) {
-- 
2.43.0


From a01d7fc75ef5972934aa05d22cf9c53a5b6ed6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:11 +0000
Subject: [PATCH 43/47] fix: fp16 toInt does not overflow when rounding the
 largest values

Adding one half to a value above 32767.5 wrapped and changed the sign.
---
 src/fp16.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 8686bdd..4844ece 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -41,11 +41,14 @@ int fp16::toInt( const fp16 &x ) noexcept
     int retValue;
 
     if ( flag_rounding ) {
-        if ( x.value >= 0 ) {
-            retValue = ( x.value + ( one >> 1 ) ) / one;
+        const fp16Raw_t f = x.value%one;
+
+        retValue = x.value/one;
+        if ( f >= one_half ) {
+            ++retValue;
         }
-        else {
-            retValue = ( x.value - ( one >> 1 ) ) / one;
+        else if ( f <= -one_half ) {
+            --retValue;
         }
     }
     else {
-- 
2.43.0


From 62d322a36be3694254532da0481636793577413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:02 +0000
Subject: [PATCH 44/47] fix: fp16 sqrt of zero and of large values

The intermediate remainder needs 32 unsigned bits: with a signed one the root
of large values was wrong or negative. The root of zero was an overflow.
---
 src/fp16.cpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 4844ece..71ae6e2 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -276,51 +276,51 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue = overflow;
 
-    if ( x > 0 ) {
+    if ( x >= 0 ) {
+        uint32_t rem = static_cast<uint32_t>( x );
+        uint32_t root = 0U;
         uint32_t bit;
         uint8_t n;
 
-        retValue = 0;
-        /*cstat -MISRAC++2008-5-0-3*/
-        bit = ( 0 != ( x & static_cast<fp16Raw_t>( 4293918720 ) ) ) ? 1073741824U : 262144U;
-        /*cstat +MISRAC++2008-5-0-3*/
-        while ( bit > static_cast<uint32_t>( x ) ) {
+        bit = ( 0U != ( rem & 4293918720U ) ) ? 1073741824U : 262144U;
+        while ( bit > rem ) {
             bit >>= 2U;
         }
 
         for ( n = 0U ; n < 2U ; ++n ) {
             while ( 0U != bit ) {
-                if ( x >= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit ) ) {
-                    x -= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit );
-                    retValue = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( retValue ) >> 1U ) + bit );
+                if ( rem >= ( root + bit ) ) {
+                    rem -= root + bit;
+                    root = ( root >> 1U ) + bit;
                 }
                 else {
-                    retValue = ( retValue >> 1 );
+                    root >>= 1U;
                 }
                 bit >>= 2U;
             }
 
             if ( 0U == n ) {
-                if ( x > 65535 ) {
-                    x -= retValue;
-                    x = ( x << 16 ) - one_half;
-                    retValue = ( retValue << 16 ) + one_half;
+                if ( rem > 65535U ) {
+                    rem -= root;
+                    rem = ( rem << 16U ) - static_cast<uint32_t>( one_half );
+                    root = ( root << 16U ) + static_cast<uint32_t>( one_half );
                 }
                 else {
-                    x <<= 16;
-                    retValue <<= 16;
+                    rem <<= 16U;
+                    root <<= 16U;
                 }
                 /*cstat -ATH-shift-bounds -MISRAC++2008-5-8-1 -CERT-INT34-C_b*/
                 bit = 1U << 14U;
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
-    }
-    if ( ( flag_rounding ) && ( x > retValue ) ) {
-        ++retValue;
+        if ( ( flag_rounding ) && ( rem > root ) ) {
+            ++root;
+        }
+        retValue = static_cast<fp16Raw_t>( root );
     }
 
-    return static_cast<fp16Raw_t>( retValue );
+    return retValue;
 }
 /*============================================================================*/
 fp16Raw_t fp16::exp( fp16Raw_t x ) noexcept
-- 
2.43.0


From 445d1ae3b82bf580552119c5b0d5dfa6904f4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:02 +0000
Subject: [PATCH 45/47] fix: fp16 rounding returns the nearest integer

It returned the argument plus one. ceil() reports its overflow through add()
instead of an overflowing signed addition.
---
 src/fp16.cpp         | 2 +-
 src/include/fp16.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 71ae6e2..0fe5504 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -269,7 +269,7 @@ fp16Raw_t fp16::ceil( fp16Raw_t x ) noexcept
     const fp16Raw_t i = x & static_cast<fp16Raw_t>( integer_mask );
     const fp16Raw_t f = x & static_cast<fp16Raw_t>( fraction_mask );
 
-    return ( 0 != f ) ? i + one : i;
+    return ( 0 != f ) ? add( i, one ) : i;
 }
 /*============================================================================*/
 fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
diff --git a/src/include/fp16.hpp b/src/include/fp16.hpp
index 04de4ee..82e7330 100644
--- a/src/include/fp16.hpp
+++ b/src/include/fp16.hpp
@@ -322,7 +322,7 @@ namespace qlibs {
             */
             static inline fp16 rounding( const fp16 &x ) noexcept
             {
-                return fp16( { x.raw() + one } );
+                return floor( fp16( { add( x.raw(), one_half ) } ) );
             }
 
             /**
-- 
2.43.0


From ebfb6caacaf2ef104055c1b665bee202473c9576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:37 +0000
Subject: [PATCH 46/47] fix: rotate by the most negative count negated an int
 out of range

---
 src/include/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index d2b8e7a..3cdba2a 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -185,7 +185,7 @@ namespace qlibs {
                 }
                 else {
                     /*cstat -MISRAC++2008-5-0-9*/
-                    r = static_cast<size_t>( -k );
+                    r = 0U - static_cast<size_t>( k ); /*also right for INT_MIN*/
                     /*cstat +MISRAC++2008-5-0-9*/
                     r %= n;
                     if ( r > 0U ) {
-- 
2.43.0


From a7c55495c723cad11aa0fe01cd087ad1b8469f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:30 +0000
Subject: [PATCH 47/47] fix: triangular and trapezoidal sets with a vertical
 edge at a zero of either sign

---
 src/fisCore.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 625ec45..c36ff56 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -18,8 +18,10 @@ real_t fis::core::TriMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
     c = p[ 2 ];
-    tmp = Min( ( x - a )/( b - a ) , 1.0_re );
-    tmp = Min( ( c - x )/( c - b ), tmp );
+    tmp = ffmath::isEqual( a, b ) ? ( ( x < a ) ? 0.0_re : 1.0_re )
+                                  : Min( ( x - a )/( b - a ) , 1.0_re );
+    tmp = ffmath::isEqual( b, c ) ? ( ( x > c ) ? 0.0_re : tmp )
+                                  : Min( ( c - x )/( c - b ), tmp );
 
     return Max( tmp , 0.0_re );
 }
@@ -36,8 +38,10 @@ real_t fis::core::TrapMF( const fis::ioBase * const in,
     b = p[ 1 ];
     c = p[ 2 ];
     d = p[ 3 ];
-    tmp = Min( ( x - a )/( b - a ) , 1.0_re );
-    tmp = Min( ( d - x )/( d - c ), tmp );
+    tmp = ffmath::isEqual( a, b ) ? ( ( x < a ) ? 0.0_re : 1.0_re )
+                                  : Min( ( x - a )/( b - a ) , 1.0_re );
+    tmp = ffmath::isEqual( c, d ) ? ( ( x > d ) ? 0.0_re : tmp )
+                                  : Min( ( d - x )/( d - c ), tmp );
 
     return Max( tmp , 0.0_re );
 }
-- 
2.43.0

