From 8fc1545728d13a782961874089980dbf5fb08f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:06 +0000
Subject: [PATCH 01/31] fix: SW2(4) solver must recompute the W matrix when a
 rejected step is retried with another step size

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 7a5c16a..5cef3bd 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -170,6 +170,7 @@ class OdeSolverRosenbrock_SW2_4 :
                     }
                 if( scResult.changeStepSize ) {
                     m_h = scResult.newStepSize;
+                    needInitStep = true;    // The W matrix depends on step size
                     if( m_h <= this->stepSizeMinThreshold() )
                         throw cxx::exception( "Step size has decreased to the minimum or below" );
                     }
-- 
2.43.0


From 94b5f0df61f9afb2336f1f975ef679c6b3e51504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:15 +0000
Subject: [PATCH 02/31] fix: Rosenbrock solvers must differentiate with respect
 to all first order variables

---
 include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
index f656cc7..5afe60b 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
@@ -115,7 +115,7 @@ class OdeSolverRosenbrock_W_base :
                 SparseMatrix Jm( m_n2+m_n1, m_n2+m_n1 );
                 V x = initialState;
                 V f( m_n );
-                for( unsigned int i=istart; i<isize; ++i ) {
+                for( unsigned int i=istart; i<istart+isize; ++i ) {
                     x[i] += dx;
                     rhs->rhs( f, initialTime, x );
                     x[i] = initialState[i];
-- 
2.43.0


From 5a825a14b0638ff5a61618d71941fdd22cebb2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:34 +0000
Subject: [PATCH 03/31] fix: announce the actual step size to the pre-observers

The Runge-Kutta solvers and the extrapolator passed an uninitialised (or, after
a new initial state, outdated) step size to odeSolverPreObservers, because it was
only set in initStep().
---
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 2 +-
 include/ode_num_int/ode/OdeSolverExplicitRK.h         | 2 +-
 include/ode_num_int/ode/OdeSolverExtrapolator.h       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 6c71ee0..bc70339 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -74,12 +74,12 @@ class OdeSolverExplicitEmbeddedRK :
         void doStep()
             {
             while( true ) {
+                initStep(); // Sets the step size, so must precede the pre-observers
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                initStep();
 
                 auto rhs = this->odeRhs();
 
diff --git a/include/ode_num_int/ode/OdeSolverExplicitRK.h b/include/ode_num_int/ode/OdeSolverExplicitRK.h
index c98e824..c0f5721 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitRK.h
@@ -49,12 +49,12 @@ class OdeSolverExplicitRK :
 
         void doStep()
             {
+            initStep(); // Sets the step size, so must precede the pre-observers
             this->odeSolverPreObservers( m_h, this );
 
             OpaqueTickCounter timer;    // deBUG
 
             timer.Start();
-            initStep();
 
             auto rhs = this->odeRhs();
 
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index ef3c540..3c38468 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -89,12 +89,12 @@ class OdeSolverExtrapolator :
         void doStep()
             {
             while( true ) {
+                initStep(); // Sets the step size, so must precede the pre-observers
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                initStep();
 
                 auto rhs = this->odeRhs().get();
 
-- 
2.43.0


From 66691cc81de2dcd1ee7701ea356fc8a77ce9c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:34 +0000
Subject: [PATCH 04/31] fix: extrapolator must report the size of the step
 done, not of the next one

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 3c38468..11311ec 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -194,7 +194,7 @@ class OdeSolverExtrapolator :
 
                 // Invoke observers
                 this->odeSolverPostObservers( OdeSolverPostObserverArg<VD>(
-                    m_h, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
+                    hcur, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
 
                 this->tstat4.add( timer.Lap() );
 
-- 
2.43.0


From 5dbf8b30dd1489048a5acc5377bc0ea14b62c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 05/31] fix: restart event detection when a solver is given a
 new initial state

Gragg, implicit Euler and the Rosenbrock solvers kept the zero functions of the
previous trajectory in the event controller, so a solver started again reported
an event that is not there.
---
 include/ode_num_int/ode/OdeSolverGragg.h            | 2 ++
 include/ode_num_int/ode/OdeSolverImplicitEuler.h    | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverGragg.h b/include/ode_num_int/ode/OdeSolverGragg.h
index 3607889..ee1b4ff 100644
--- a/include/ode_num_int/ode/OdeSolverGragg.h
+++ b/include/ode_num_int/ode/OdeSolverGragg.h
@@ -59,6 +59,8 @@ class OdeSolverGragg :
             m_initialTime = initialTime;
             m_initialU = initialState;
             m_stepsRunning = false;
+            if( auto ec = this->eventController() )
+                ec->reset();
             }
 
         void doStep()
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index bfb01c5..767160b 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -73,6 +73,8 @@ class OdeSolverImplicitEuler :
             m_mapping4Newton->setInitialState( initialTime, initialState );
             if( !soft )
                 m_hardResetRequested = true;
+            if( auto ec = this->eventController() )
+                ec->reset();
             }
 
         void doStep()
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 5cef3bd..a332ca1 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -56,6 +56,8 @@ class OdeSolverRosenbrock_SW2_4 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( soft )
                 // Compute ODE RHS at the beginning of the step
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index c80a6f0..f273027 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -49,6 +49,8 @@ class OdeSolverRosenbrock_W1 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( !soft )
                 cleanupStep();
-- 
2.43.0


From ae038c57dd9f9feac652ceed21c5d22f4fb60064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 06/31] fix: extrapolator must not use more extrapolation table
 rows than it has

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 11311ec..79ff8a7 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -153,7 +153,7 @@ class OdeSolverExtrapolator :
 
                 // Compute error norm
                 real_type errorNorm = 0;
-                if( !m_disable_error_check ) {
+                if( !m_disable_error_check && m_max_stages > 1 ) {
                     auto& err = m_T[1];
                     err *= -1;
                     err += nextState;
@@ -256,7 +256,7 @@ class OdeSolverExtrapolator :
 
         void initStep()
             {
-            if( !m_T.empty() )
+            if( m_T.size() >= m_max_stages && !m_T.empty() )
                 return;
 
             if( !m_referenceSolver )
@@ -271,7 +271,8 @@ class OdeSolverExtrapolator :
             ASSERT( m_initialState.size() == n );
 
             // Allocate memory
-            m_h = this->initialStepSize();
+            if( m_T.empty() )
+                m_h = this->initialStepSize();
             m_T = VV( computeTsize(), V(n) );
             m_n.resize( m_T.size() );
             }
-- 
2.43.0


From 156ef76b8a4d54d8cdea151c848bfcc78b434dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 07/31] fix: OdeStepMappingEuler: drop the cached initial
 right-hand side when the ODE is replaced

---
 include/ode_num_int/ode/OdeStepMappingEuler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeStepMappingEuler.h b/include/ode_num_int/ode/OdeStepMappingEuler.h
index abdda10..c0ff1a4 100644
--- a/include/ode_num_int/ode/OdeStepMappingEuler.h
+++ b/include/ode_num_int/ode/OdeStepMappingEuler.h
@@ -22,7 +22,9 @@ class OdeStepMappingEuler :
             m_h( 0.1 ),
             m_t0( 0 ),
             m_f0scaledValid( false )
-            {}
+            {
+            this->onOdeRhsChanged( [this]() { m_f0scaledValid = false; } );
+            }
 
         // VectorMapping interface
         unsigned int inputSize() const
-- 
2.43.0


From d24125942e18f812802eeb93f5ce4ec3f554b5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 08/31] fix: LinearOdeEventController: locate events of
 functions that are exactly zero at the step end

---
 include/ode_num_int/ode/LinearOdeEventController.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 9405d31..c519f9c 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -75,9 +75,9 @@ class LinearOdeEventController :
                 auto i = m_zfi[ix];
                 auto zf1 = m_zf1[i];
                 auto zf2 = m_zf2[i];
-                real_type t = zf1 / ( zf1 - zf2 );
+                real_type t = zf1 == zf2 ?   0 :   zf1 / ( zf1 - zf2 );
                 ASSERT (t >= 0);
-                if( tmin > t ) {
+                if( itmin == ~0u   ||   tmin > t ) {
                     tmin = t;
                     itmin = i;
                     }
-- 
2.43.0


From 94ff722ab39347fc0f91c6affcf7198a08d594c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:07 +0000
Subject: [PATCH 09/31] fix: LUFactorizer: take fill-in into account in the
 last column of each row of U

---
 include/ode_num_int/lu/LUFactorizer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index afd1744..ce9d1b3 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -84,6 +84,11 @@ class LUFactorizer
                     throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
                 }
 
+            // Columns of U are filled in from the first nonzero element down to the diagonal
+            for( unsigned int c=0; c<n; ++c )
+                for( unsigned int r=m_q[c]; r<c; ++r )
+                    setMax( m_s[r], c );
+
             // Compute address sequences for triangular matrices m_l, m_u
             auto initTriangularMatrix = [n](
                     std::vector<real_type>& m,
-- 
2.43.0


From fd4696fdcc75321fa7af1365cb2b6f703aeba1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:23 +0000
Subject: [PATCH 10/31] fix: LUFactorizer::setMatrixFast: fall back to
 setMatrix when the matrix size changes

---
 include/ode_num_int/lu/LUFactorizer.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index ce9d1b3..35898ef 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -139,17 +139,22 @@ class LUFactorizer
             for( auto it=matrixBegin; it!=matrixEnd; ++it, ++fc )
                 **fc = it->second;
 #else // CTM_MATH_LU_USE_MX_FAST_CACHE
-            auto elementsSet = 0;
+            unsigned int size = 0;
             for( auto it=matrixBegin; it!=matrixEnd; ++it ) {
-                ++elementsSet;
                 auto r = it->first.first;
                 auto c = it->first.second;
-                if (!setLU(r, c, it->second)) {
+                size = std::max( size, std::max( r, c ) + 1 );
+                if (size > m_p.size() || !setLU(r, c, it->second)) {
                     // Fall back to setMatrix because the sparsity layout has changed
                     setMatrix(matrixBegin, matrixEnd);
                     return;
                     }
                 }
+            if (size != m_p.size()) {
+                // Fall back to setMatrix because the matrix size has changed
+                setMatrix(matrixBegin, matrixEnd);
+                return;
+                }
 #endif // CTM_MATH_LU_USE_MX_FAST_CACHE
             m_factorized = false;
             }
-- 
2.43.0


From e1b600ca9998e08c5654e494c2c9af0d5963b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:41 +0000
Subject: [PATCH 11/31] fix: NewtonSolver: try a hard reset at most once per
 iteration

---
 include/ode_num_int/alg/NewtonSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/NewtonSolver.h b/include/ode_num_int/alg/NewtonSolver.h
index c0aff89..8048750 100644
--- a/include/ode_num_int/alg/NewtonSolver.h
+++ b/include/ode_num_int/alg/NewtonSolver.h
@@ -73,7 +73,7 @@ class NewtonSolver :
                             if( maybeAdjustRegularizationParameter() )
                                 break;
                             ddir->reportSuccess( false );
-                            if( !hardResetTried ) {
+                            if( !hardResetTried && ddir->hardResetMayHelp() ) {
                                 breakLoop = true;
                                 break;
                                 }
-- 
2.43.0


From 572ea1916d83c417174850df2e3dca487f79848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:41 +0000
Subject: [PATCH 12/31] fix: NewtonIterationPerformerImpl: do not reuse
 residual after the mapping has changed

---
 include/ode_num_int/alg/NewtonIterationPerformerImpl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
index 4f4be14..66e9793 100644
--- a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
+++ b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
@@ -21,7 +21,10 @@ class NewtonIterationPerformerImpl :
             m_f_valid( false ),
             m_currentStepRatio( 1 ),
             m_hardResetTried( false )
-            {}
+            {
+            // The residual kept belongs to the mapping it was computed with
+            this->onMappingChanged( [this] { m_f_valid = false; } );
+            }
 
         void setInitialGuess( const V& initialGuess, bool hardReset = true )
             {
-- 
2.43.0


From 99d301e0096338f1779bf94e6c822167ffea3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 13/31] fix: sparse matrix block and transpose: translate
 indices in get(r, c) and at(r, c)

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 52c865f..07a982e 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -340,7 +340,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -359,7 +359,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             return m_source.at( sourceIndex(index) );
             }
 
-        element_type at( unsigned int r, unsigned int c ) const {
+        element_type& at( unsigned int r, unsigned int c ) {
             return at( Index( r, c ) );
             }
 
@@ -548,7 +548,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -567,7 +567,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             return m_source.at( transposedIndex(index) );
             }
 
-        element_type at( unsigned int r, unsigned int c ) const {
+        element_type& at( unsigned int r, unsigned int c ) {
             return at( Index( r, c ) );
             }
 
-- 
2.43.0


From 7dab47064545adda28827e28be1e2e5fc3a66983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 14/31] fix: transposed(): swap number of rows and number of
 columns

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 07a982e..4f296af 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -998,7 +998,7 @@ class SparseMatrixTemplate : public D
             {
             return SparseMatrixTemplate< SparseMatrixProxy::Transpose< D > >(
                         SparseMatrixProxy::Transpose< D >( *this ),
-                        m_size );
+                        Index( m_size.second, m_size.first ) );
             }
 
         SparseMatrixTemplate<matrix_data_type> clone() const {
-- 
2.43.0


From d01b1218d4b226a4415894ed3976072563bf14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 15/31] fix: vector * sparse matrix: size of the result

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 4f296af..b01ed46 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -1075,7 +1075,7 @@ template< class DM, class DV >
 inline VectorTemplate<typename DV::vector_data_type> operator*( const VectorTemplate<DV>& v, const SparseMatrixTemplate<DM>& m )
     {
     ASSERT( v.size() == m.size().first );
-    VectorTemplate<typename DV::vector_data_type> result( m.size().first );
+    VectorTemplate<typename DV::vector_data_type> result( m.size().second );
     m.mulVectLeft( v.begin(), result.begin() );
     return result;
     }
-- 
2.43.0


From 56337b5a4a9609ccc6536872ee5bd69f74ad5bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 16/31] fix: SparseMatrixTemplate: converting constructor of
 matrices with fast data

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index b01ed46..9224bf3 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -845,10 +845,8 @@ class SparseMatrixTemplate : public D
             D( data ), m_size( size ) {}
 
         template< class ThatD >
-        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) : m_size( that.size() )
-            {
-            for( auto v : that )
-                this->at( v.first ) = v.second;
+        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) {
+            doAssign( that );
             }
 
         template< class ThatD >
-- 
2.43.0


From 1d219e84794de0fddd34d03a1e1855c7acf53aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 17/31] fix: SparseMatrixFastData: sort elements copied from a
 view

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 9224bf3..5d60fe7 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -301,6 +301,9 @@ class SparseMatrixFastData : public SparseMatrixTypes< ElementType >
             auto end = that.end();
             m_data.resize( std::distance( begin, end ) );
             std::copy( begin, end, m_data.begin() );
+            auto less = []( const data_element_type& l, const data_element_type& r ) { return l.first < r.first; };
+            if( !std::is_sorted( m_data.begin(), m_data.end(), less ) )
+                std::sort( m_data.begin(), m_data.end(), less );
             }
 
         static bool compare( const data_element_type& l, const Index& r ) {
-- 
2.43.0


From 521efc925108284d691c257823ec3b1b6a7acafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 18/31] fix: sparse matrix: assignment from a view of the
 matrix itself

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 5d60fe7..4246cf7 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -24,8 +24,12 @@ namespace priv {
 
 template< class This, class That >
 void copyFrom( This& left, const That& right ) {
-    left.clear();
+    // Note: right can be a view of left
+    std::vector< std::pair< typename This::Index, typename This::element_type > > elements;
     for( auto v : right )
+        elements.emplace_back( v.first, v.second );
+    left.clear();
+    for( const auto& v : elements )
         left.at( v.first ) = v.second;
     }
 }
@@ -299,8 +303,9 @@ class SparseMatrixFastData : public SparseMatrixTypes< ElementType >
             {
             auto begin = that.begin();
             auto end = that.end();
-            m_data.resize( std::distance( begin, end ) );
-            std::copy( begin, end, m_data.begin() );
+            Data data( std::distance( begin, end ) );
+            std::copy( begin, end, data.begin() );
+            m_data.swap( data );    // Note: that can be a view of this
             auto less = []( const data_element_type& l, const data_element_type& r ) { return l.first < r.first; };
             if( !std::is_sorted( m_data.begin(), m_data.end(), less ) )
                 std::sort( m_data.begin(), m_data.end(), less );
-- 
2.43.0


From 5765f8627adbf710a9ad01891cf659cb120fca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:45 +0000
Subject: [PATCH 19/31] fix: SparseJacobianCalculator: size the mapping values
 by the output size

---
 include/ode_num_int/alg/SparseJacobianCalculator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/alg/SparseJacobianCalculator.h b/include/ode_num_int/alg/SparseJacobianCalculator.h
index 0d907f4..cf25998 100644
--- a/include/ode_num_int/alg/SparseJacobianCalculator.h
+++ b/include/ode_num_int/alg/SparseJacobianCalculator.h
@@ -87,9 +87,10 @@ class SparseJacobianCalculator
         void calculate( const VectorMapping<VD>& mapping, const V& x0, real_type delta ) const
             {
             auto n = mapping.inputSize();
-            ASSERT( m_J->size().first == mapping.outputSize() );
+            auto m = mapping.outputSize();
+            ASSERT( m_J->size().first == m );
             ASSERT( m_J->size().second == n );
-            V x(n), f0(n), f(n);
+            V x(n), f0(m), f(m);
             mapping.map( f0, x0 );
             for( const auto& multicolData : m_layout ) {
                 x = x0;
-- 
2.43.0


From 0b0f5dc60da473e5fa8201a7c1e3b67c4f30a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:45 +0000
Subject: [PATCH 20/31] fix: SparseJacobianProvider: find out the sparsity
 pattern anew after trimming or a mapping change

---
 .../ode_num_int/alg/SparseJacobianProvider.h    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/alg/SparseJacobianProvider.h b/include/ode_num_int/alg/SparseJacobianProvider.h
index 5d67cf1..0b40a30 100644
--- a/include/ode_num_int/alg/SparseJacobianProvider.h
+++ b/include/ode_num_int/alg/SparseJacobianProvider.h
@@ -21,14 +21,19 @@ class SparseJacobianProvider :
         typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<real_type> > FastSparseMatrix;
 
         SparseJacobianProvider() :
-            m_Jcalc( &m_J )
-            {}
+            m_Jcalc( &m_J ),
+            m_haveLayout( false )
+            {
+            // The sparsity pattern of another mapping has to be found out anew
+            this->onMappingChanged( [this]() { m_haveLayout = false; } );
+            }
 
         SparseJacobianProvider( const SparseJacobianProvider<VD>& ) = delete;
         SparseJacobianProvider<VD>& operator=( const SparseJacobianProvider<VD>& ) = delete;
 
         void hardReset() {
             m_J = FastSparseMatrix();
+            m_haveLayout = false;
         }
 
         bool hardResetMayHelp() const {
@@ -37,11 +42,14 @@ class SparseJacobianProvider :
 
         void computeJacobian( const V& x0 )
             {
-            if( auto jt = this->jacobianTrimmer() )
+            if( auto jt = this->jacobianTrimmer() ) {
                 m_J = jt->trimJacobian( math::computeJacobian( *this->mapping(), x0 ) );
-            else if( m_J.empty() ) {
+                m_haveLayout = false;
+                }
+            else if( !m_haveLayout   ||   m_J.empty() ) {
                 m_J = math::computeJacobian( *this->mapping(), x0 );
                 m_Jcalc = SparseJacobianCalculator<VD>( &m_J );
+                m_haveLayout = true;
                 }
             else
                 m_Jcalc.calculate( *this->mapping(), x0, 1e-6 );
@@ -54,6 +62,7 @@ class SparseJacobianProvider :
     private:
         FastSparseMatrix m_J;
         SparseJacobianCalculator< VD > m_Jcalc;
+        bool m_haveLayout;      // True if m_Jcalc matches m_J
     };
 
 } // end namespace math
-- 
2.43.0


From a0ba2f5ed0a4acb4b9c50f0763bb4140b29eaddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:37 +0000
Subject: [PATCH 21/31] fix: fake Broyden descent direction: compute the
 Jacobian anew after a hard reset whatever the provider does

---
 .../alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
index 7b4ed38..e1f756a 100644
--- a/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
@@ -19,7 +19,8 @@ class JacobianFakeBroydenUpdateNewtonDescentDirection :
         typedef typename VD::value_type real_type;
 
         JacobianFakeBroydenUpdateNewtonDescentDirection() :
-            m_havePrev( false )
+            m_havePrev( false ),
+            m_recalcJacobian( false )
             {}
 
         void reset( bool hard )
@@ -27,6 +28,7 @@ class JacobianFakeBroydenUpdateNewtonDescentDirection :
             if( hard ) {
                 this->jacobianProvider()->hardReset();
                 m_lu = decltype(m_lu)();
+                m_recalcJacobian = true;
                 }
             m_havePrev = false;
             }
@@ -41,10 +43,11 @@ class JacobianFakeBroydenUpdateNewtonDescentDirection :
             auto jp = this->jacobianProvider();
             ASSERT( jp );
             auto& J = jp->jacobian();
-            auto recalcJacobian = J.empty();
+            auto recalcJacobian = m_recalcJacobian   ||   J.empty();
             if( recalcJacobian ) {
                 this->jacobianRefreshObservers( true );
                 jp->computeJacobian( x0 );
+                m_recalcJacobian = false;
                 this->jacobianRefreshObservers( false );
                 }
             this->ddirPreObservers();
@@ -78,6 +81,7 @@ class JacobianFakeBroydenUpdateNewtonDescentDirection :
         V m_xprev;
         V m_fprev;
         bool m_havePrev;
+        bool m_recalcJacobian;  // True after a hard reset, because the provider may keep its Jacobian
     };
 
 } // end namespace math
-- 
2.43.0


From 9910f984545058bae28544c1d6f01b3c4f4fd32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:37 +0000
Subject: [PATCH 22/31] fix: Broyden descent direction: update elements outside
 the sparsity pattern; compute the Jacobian anew after a hard reset

---
 ...obianBroydenUpdateNewtonDescentDirection.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
index 19689cd..1476bf0 100644
--- a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
@@ -28,8 +28,10 @@ class JacobianBroydenUpdateNewtonDescentDirection :
 
         void reset( bool hard )
             {
-            if( hard )
+            if( hard ) {
                 this->jacobianProvider()->hardReset();
+                m_J = decltype(m_J)();
+                }
             m_havePrev = false;
             }
 
@@ -42,32 +44,33 @@ class JacobianBroydenUpdateNewtonDescentDirection :
             auto jp = this->jacobianProvider();
             ASSERT( jp );
             auto& J = jp->jacobian();
-            auto recalcJacobian = J.empty();
+            auto recalcJacobian = m_J.empty()   ||   J.empty();
             if( recalcJacobian ) {
                 this->jacobianRefreshObservers( true );
                 jp->computeJacobian( x0 );
+                m_J = J;
                 this->jacobianRefreshObservers( false );
                 }
             this->ddirPreObservers();
             if( !recalcJacobian   &&   m_havePrev ) {
                 V dx = x0 - m_xprev;
                 V df = f0 - m_fprev;
-                V left = df - J*dx;
+                V left = df - m_J*dx;
                 left *= 1 / dx.euclideanNormSquare();
                 unsigned int n = x0.size();
-                ASSERT( J.size() == sparse::SparseMatrixCommonTypes::Index(n, n) );
+                ASSERT( m_J.size() == sparse::SparseMatrixCommonTypes::Index(n, n) );
                 for( unsigned int i=0; i<n; ++i )
                     for( unsigned int j=0; j<n; ++j ) {
                         real_type x = left[i] * dx[j];
                         if( x != 0 )
-                            J.at( i, j ) += x;
+                            m_J.at( i, j ) += x;
                         }
                 }
             m_xprev = x0;
             m_fprev = f0;
             m_havePrev = true;
-            this->jacobianObservers( J, x0, f0 );
-            LUFactorizer<real_type> lu( J );
+            this->jacobianObservers( m_J, x0, f0 );
+            LUFactorizer<real_type> lu( m_J );
             dir = f0;
             lu.solve( &*dir.begin() );
             dir *= -1;
@@ -76,6 +79,8 @@ class JacobianBroydenUpdateNewtonDescentDirection :
             }
 
     private:
+        // Updated Jacobian; the one of the provider has no room for elements outside its sparsity pattern
+        sparse::SparseMatrix<real_type> m_J;
         V m_xprev;
         V m_fprev;
         bool m_havePrev;
-- 
2.43.0


From e4a62d728ede4e5148e56edfc56eb9f27156bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:07 +0000
Subject: [PATCH 23/31] fix: VectorNarrowingMapping: remove the disabled
 outputs, not the disabled inputs, from the value

---
 include/ode_num_int/alg/VectorNarrowingMapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/VectorNarrowingMapping.h b/include/ode_num_int/alg/VectorNarrowingMapping.h
index 2f1e7f2..38bf1a4 100644
--- a/include/ode_num_int/alg/VectorNarrowingMapping.h
+++ b/include/ode_num_int/alg/VectorNarrowingMapping.h
@@ -114,7 +114,7 @@ class VectorNarrowingMapping :
             this->mapping()->map( *pdst, *px );
 
             if( !m_disabledOutputIndices.empty() )
-                reduce( dst, dsts, m_disabledInputIndices );
+                reduce( dst, dsts, m_disabledOutputIndices );
             }
 
         std::vector<unsigned int> inputIds() const {
-- 
2.43.0


From 2ee7074ca93438e7b4cb4e3e49905a7c6e912bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:59 +0000
Subject: [PATCH 24/31] fix: NewtonSolverInterface: do not dereference
 components that are not set

---
 .../alg/interfaces/NewtonSolverInterface.h    | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index e3659da..03e15aa 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -68,8 +68,10 @@ class NewtonSolverInterface :
             auto itperf = this->iterationPerformer();
             if( itperf ) {
                 itperf->setMapping( eqnRhs );
-                itperf->newtonDescentDirection()->setMapping( eqnRhs );
-                itperf->newtonLinearSearch()->setMapping( eqnRhs );
+                if( auto ddir = itperf->newtonDescentDirection() )
+                    ddir->setMapping( eqnRhs );
+                if( auto lineSearch = itperf->newtonLinearSearch() )
+                    lineSearch->setMapping( eqnRhs );
                 }
             return *this;
             }
@@ -89,7 +91,8 @@ class NewtonSolverInterface :
             {
             auto itperf = this->iterationPerformer();
             if( itperf ) {
-                ddir->setMapping( itperf->mapping() );
+                if( ddir )
+                    ddir->setMapping( itperf->mapping() );
                 itperf->setNewtonDescentDirection( ddir );
                 }
             auto rs = this->regularizationStrategy();
@@ -112,7 +115,8 @@ class NewtonSolverInterface :
             {
             auto itperf = this->iterationPerformer();
             if( itperf ) {
-                lineSearch->setMapping( itperf->mapping() );
+                if( lineSearch )
+                    lineSearch->setMapping( itperf->mapping() );
                 itperf->setNewtonLinearSearch( lineSearch );
                 }
             return *this;
@@ -154,8 +158,10 @@ class NewtonSolverInterface :
                 auto ddir = itperf->newtonDescentDirection();
                 result["ddir"] = ddir;
                 if( ddir ) {
-                    result["jacobian"] = ddir->jacobianProvider();
-                    result["jtrim"] = ddir->jacobianProvider()->jacobianTrimmer();
+                    auto jp = ddir->jacobianProvider();
+                    result["jacobian"] = jp;
+                    if( jp )
+                        result["jtrim"] = jp->jacobianTrimmer();
                     }
                 result["linsearch"] = itperf->newtonLinearSearch();
                 result["err"] = itperf->errorEstimator();
@@ -210,7 +216,8 @@ class NewtonSolverInterface :
                             parameters, "linsearch",
                             [itperf]( const std::shared_ptr< NewtonLinearSearch<VD> >& lineSearch )
                             {
-                            lineSearch->setMapping( itperf->mapping() );
+                            if( lineSearch )
+                                lineSearch->setMapping( itperf->mapping() );
                             itperf->setNewtonLinearSearch( lineSearch );
                             } );
 
-- 
2.43.0


From aa018a0eea4bf664e9142295325e7be8a9f7efda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:59 +0000
Subject: [PATCH 25/31] fix: ODE solvers: an empty error norm calculator or
 Newton solver can be set

---
 include/ode_num_int/ode/OdeSolverImplicitEuler.h         | 9 +++++++--
 .../ode/interfaces/OdeSolverErrorNormCalculator.h        | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index 767160b..d1095de 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -32,6 +32,8 @@ class OdeSolverImplicitEuler :
             {
             auto setupNewtonSolver = [this]() {
                 auto newton = this->newtonSolver();
+                if( !newton )
+                    return;
                 // Set vector mapping for the Newton's solver
                 if( m_reorder )
                     this->newtonSolver()->setComponent( m_reorder );
@@ -168,10 +170,13 @@ class OdeSolverImplicitEuler :
             m_reorder = reorder;
             if( m_reorder )
                 m_reorder->setMapping( m_mapping4Newton );
+            auto newton = this->newtonSolver();
+            if( !newton )
+                return;
             if( m_reorder )
-                this->newtonSolver()->setComponent( m_reorder );
+                newton->setComponent( m_reorder );
             else
-                this->newtonSolver()->setComponent( m_mapping4Newton );
+                newton->setComponent( m_mapping4Newton );
             }
 
         Parameters parameters() const
diff --git a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
index 295eb60..7b01e42 100644
--- a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
+++ b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
@@ -21,7 +21,8 @@ class OdeSolverErrorNormCalculator :
             OdeSolverComponent<VD>( solver )
             {
             auto updateOdeRhs = [this] {
-                this->errorNormCalculator()->setOdeRhs( this->solver().odeRhs() );
+                if( auto enorm = this->errorNormCalculator() )
+                    enorm->setOdeRhs( this->solver().odeRhs() );
                 };
             this->onErrorNormCalculatorChanged( updateOdeRhs );
             solver.onOdeRhsChanged( updateOdeRhs );
-- 
2.43.0


From 01fa1c7b4b4905326558a196f5b0d9005cb40b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:59 +0000
Subject: [PATCH 26/31] fix: embedded Runge-Kutta and extrapolation solvers:
 provide help on all parameters

---
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 10 ++++++++++
 include/ode_num_int/ode/OdeSolverExtrapolator.h       |  4 +++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index bc70339..382837e 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -176,6 +176,16 @@ class OdeSolverExplicitEmbeddedRK :
                 } );
             }
 
+        OptionalParameters::Parameters helpOnParameters() const
+            {
+            OptionalParameters::Parameters result = OdeSolver<VD>::helpOnParameters();
+            result["disable_error_check"] = "Disable error check and always use the initial step size";
+            result["force_error_calc"] = "Calculate the error estimation even if the error check is disabled";
+            result["h_after_switch"] = "If positive, upper limit for the step size after a switch";
+            result["mode"] = "One of 'high', 'low': the order of the formula whose result is used as the solution";
+            return result;
+            }
+
     private:
         typedef ExplicitRKHelper<VD> RKHelper;
         typedef typename RKHelper::Coefficients Coefficients;
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 79ff8a7..099076f 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -231,8 +231,10 @@ class OdeSolverExtrapolator :
 
         Parameters helpOnParameters() const
             {
-            Parameters result;
+            Parameters result = OdeSolver<VD>::helpOnParameters();
+            result["symmetric"] = "True if the error expansion of the reference solver only contains even powers of the step size.";
             result["disable_error_check"] = "Disable error check and always use the initial step size.";
+            result["max_stages"] = "Maximum number of stages of the extrapolation.";
             result["step_sequence"] = this->appendNestedHelp( stepSequence(), "The type of step size sequence for the extrapolation." );
             result["reference_solver"] = this->appendNestedHelp( m_referenceSolver, "Reference solver to use." );
             return result;
-- 
2.43.0


From 20cb8cf2aeacdbdc768612186095cda4243ac1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:22 +0000
Subject: [PATCH 27/31] fix: SpecifiedOdeInitState: do not write past the end
 when the state shrinks

---
 include/ode_num_int/ode/SpecifiedOdeInitState.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/SpecifiedOdeInitState.h b/include/ode_num_int/ode/SpecifiedOdeInitState.h
index e3fe7ca..5eeb1fa 100644
--- a/include/ode_num_int/ode/SpecifiedOdeInitState.h
+++ b/include/ode_num_int/ode/SpecifiedOdeInitState.h
@@ -58,7 +58,8 @@ class SpecifiedOdeInitState :
             int n0 = m_initialState.size();
             if( n != n0 ) {
                 m_initialState.resize( n );
-                std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
+                if( n > n0 )
+                    std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
                 }
             }
 
-- 
2.43.0


From b74c2371a3fcf2d7424959d3808ee870947b5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:59 +0000
Subject: [PATCH 28/31] fix: OptionalParameters: refuse negative and too large
 values of unsigned parameters

---
 include/ode_num_int/infra/OptionalParameters.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index bbf3438..6672927 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -10,6 +10,7 @@
 #include <map>
 #include <sstream>
 #include <iomanip>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 
@@ -166,7 +167,10 @@ class OptionalParameters
                     {
                     if( !lang::IsIntegerNumber( m_value.c_str() ) )
                         throw cxx::exception( std::string("Not an integer number: '") + m_value + "'");
-                    dst = static_cast<unsigned int>( std::stoul( m_value ) );
+                    auto x = std::stoll( m_value );
+                    if( x < 0 || x > std::numeric_limits<unsigned int>::max() )
+                        throw cxx::exception( std::string("Not an unsigned integer number: '") + m_value + "'");
+                    dst = static_cast<unsigned int>( x );
                     }
 
                 void toType( bool& dst ) const
-- 
2.43.0


From ce4c711265d37499a811f94a486b95add1042e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:12 +0000
Subject: [PATCH 29/31] fix: finalize the ODE outputs when a step of solveOde()
 fails

---
 include/ode_num_int/ode/OdeSolverConfiguration.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverConfiguration.h b/include/ode_num_int/ode/OdeSolverConfiguration.h
index ae5d5ad..619c2e1 100644
--- a/include/ode_num_int/ode/OdeSolverConfiguration.h
+++ b/include/ode_num_int/ode/OdeSolverConfiguration.h
@@ -349,11 +349,17 @@ inline void solveOde(
     auto startTime = solver->initialTime();
     auto endTime = startTime + paramProvider->odeSolverDuration();
     auto currentTime = startTime;
-    do {
-        solver->doStep();
-        currentTime = solver->initialTime();
+    try {
+        do {
+            solver->doStep();
+            currentTime = solver->initialTime();
+            }
+        while( currentTime < endTime );
+        }
+    catch( ... ) {
+        finalizeOdeOutput( outputOptions );
+        throw;
         }
-    while( currentTime < endTime );
     finalizeOdeOutput( outputOptions );
     }
 
-- 
2.43.0


From 653391cdc2640515cda0156e63da97d0146fc943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:12 +0000
Subject: [PATCH 30/31] fix: refuse to apply a specified initial state without
 an ODE right hand side

---
 include/ode_num_int/ode/OdeSolverConfiguration.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverConfiguration.h b/include/ode_num_int/ode/OdeSolverConfiguration.h
index 619c2e1..22ae00a 100644
--- a/include/ode_num_int/ode/OdeSolverConfiguration.h
+++ b/include/ode_num_int/ode/OdeSolverConfiguration.h
@@ -256,6 +256,8 @@ class OdeSolverConfiguration : public ComponentConfiguration
                     };
 
                 if( auto initState = getInitState() ) {
+                    if( !odeRhs )
+                        throw cxx::exception( "ODE right hand side is not specified" );
                     auto state = initState->initialState();
                     auto requiredStateSize = solver->odeRhs()->varCount();
                     if( state.size() != requiredStateSize )
-- 
2.43.0


From 700e6b2d15e11199a361e425348bb8c4b88d311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:11 +0000
Subject: [PATCH 31/31] fix: count the initial row of the solution output in
 the output timing

---
 include/ode_num_int/ode/ode_solver_output.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/ode/ode_solver_output.h b/include/ode_num_int/ode/ode_solver_output.h
index 5c366fa..114d39e 100644
--- a/include/ode_num_int/ode/ode_solver_output.h
+++ b/include/ode_num_int/ode/ode_solver_output.h
@@ -373,6 +373,7 @@ class OdeSolverStepSolutionConsoleOutput :
                 solverConfig, solverComponents, m_sizeHalfLimit, this->fileName() ) );
             auto s = solverComponents->solver().get();
             m_d->writeHeaders( s );
+            m_d->outputNow( s->initialTime() );
             m_d->write( s );
             }
 
-- 
2.43.0

