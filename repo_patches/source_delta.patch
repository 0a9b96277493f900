From 15ac5ac21042d1b28a89831c1529b7ab80325615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 01/30] fix: VectorPartitionedTyings: do not read uninitialised
 values of dependent DOFs that no node refers to

---
 include/GooseFEM/VectorPartitionedTyings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/VectorPartitionedTyings.h b/include/GooseFEM/VectorPartitionedTyings.h
index 2f6a73a..0e77517 100644
--- a/include/GooseFEM/VectorPartitionedTyings.h
+++ b/include/GooseFEM/VectorPartitionedTyings.h
@@ -59,7 +59,7 @@ private:
     {
         GOOSEFEM_ASSERT(xt::has_shape(nodevec, {m_nnode, m_ndim}));
 
-        Eigen::VectorXd dofval_d(m_nnd, 1);
+        Eigen::VectorXd dofval_d = Eigen::VectorXd::Zero(m_nnd);
 
 #pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
-- 
2.43.0


From 9b22da35332fb929e63f2dc94ba298b500bb6343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 02/30] fix: MatrixDiagonalPartitioned: do not shadow
 nnp/nnu/iip/iiu of the base class

Reaction_p allocated its result with the uninitialised m_nnp of the base class.
---
 include/GooseFEM/MatrixDiagonalPartitioned.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/GooseFEM/MatrixDiagonalPartitioned.h b/include/GooseFEM/MatrixDiagonalPartitioned.h
index 19e7b75..dd8017e 100644
--- a/include/GooseFEM/MatrixDiagonalPartitioned.h
+++ b/include/GooseFEM/MatrixDiagonalPartitioned.h
@@ -428,12 +428,6 @@ private:
 
     // Bookkeeping
     array_type::tensor<size_t, 2> m_part; // DOF-numbers per node, renumbered  [nnode, ndim]
-    array_type::tensor<size_t, 1> m_iiu; // DOF-numbers that are unknown      [nnu]
-    array_type::tensor<size_t, 1> m_iip; // DOF-numbers that are prescribed   [nnp]
-
-    // Dimensions
-    size_t m_nnu; // number of unknown DOFs
-    size_t m_nnp; // number of prescribed DOFs
 
     // Compute inverse (automatically evaluated by "solve")
     void factorize()
-- 
2.43.0


From b75d0dfa563726da9db35dc03f8225ba913e0405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 03/30] fix: MatrixPartitionedTyings: read loads on dependent
 DOFs from the dependent DOFs

---
 include/GooseFEM/MatrixPartitionedTyings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 7ffa962..83b35ac 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -483,7 +483,7 @@ private:
 
 #pragma omp parallel for
         for (size_t d = 0; d < m_nnd; ++d) {
-            dofval_d(d) = dofval(m_iip(d));
+            dofval_d(d) = dofval(m_iid(d));
         }
 
         return dofval_d;
-- 
2.43.0


From 23f9e9097051e82d4be06acfd57e1f9f73491195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 04/30] fix: MatrixPartitionedTyingsSolver: account for loads
 on dependent DOFs

As documented, b' = b_i + C_di^T b_d; only the "nodevec" variant did so.
---
 include/GooseFEM/MatrixPartitionedTyings.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 83b35ac..3671780 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -572,6 +572,8 @@ private:
         Eigen::VectorXd B_d = A.AsDofs_d(b);
         Eigen::VectorXd X_p = A.AsDofs_p(x);
 
+        B_u += A.m_Cud * B_d;
+
         Eigen::VectorXd X_u = m_solver.solve(Eigen::VectorXd(B_u - A.m_ACup * X_p));
         Eigen::VectorXd X_d = A.m_Cdu * X_u + A.m_Cdp * X_p;
 
@@ -630,7 +632,6 @@ public:
         array_type::tensor<double, 1>& x_u
     )
     {
-        UNUSED(b_d);
         GOOSEFEM_ASSERT(b_u.size() == A.m_nnu);
         GOOSEFEM_ASSERT(b_d.size() == A.m_nnd);
         GOOSEFEM_ASSERT(x_p.size() == A.m_nnp);
@@ -640,7 +641,8 @@ public:
 
         Eigen::Map<Eigen::VectorXd>(x_u.data(), x_u.size()).noalias() =
             m_solver.solve(Eigen::VectorXd(
-                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) -
+                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) +
+                A.m_Cud * Eigen::Map<const Eigen::VectorXd>(b_d.data(), b_d.size()) -
                 A.m_ACup * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size())
             ));
     }
-- 
2.43.0


From b2d3666d344b90bb0c4cc14604b192c13cdb2cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 05/30] fix: direct solvers: never re-use a factorisation of
 another matrix or of an earlier state

The flag that signals a change is cleared by the first solver that sees it, so that a second
solver, or a solver that is used for several matrices, silently used a stale factorisation.
---
 include/GooseFEM/Matrix.h                  | 26 ++++++++++++++++---
 include/GooseFEM/MatrixPartitioned.h       | 11 +++++---
 include/GooseFEM/MatrixPartitionedTyings.h | 30 +++++++++++++---------
 3 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index 4a25c46..3d46e89 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -12,9 +12,23 @@
 #include <Eigen/Eigen>
 #include <Eigen/Sparse>
 #include <Eigen/SparseCholesky>
+#include <atomic>
 
 namespace GooseFEM {
 
+namespace detail {
+
+/**
+ * Unique identifier of a state of a matrix: never zero, never twice the same.
+ */
+inline size_t next_matrix_version()
+{
+    static std::atomic<size_t> version{0};
+    return ++version;
+}
+
+} // namespace detail
+
 // forward declaration
 template <class>
 class MatrixSolver;
@@ -207,6 +221,7 @@ protected:
     size_t m_ndof; ///< See ndof().
 
     bool m_changed = true; ///< Signal changes to data.
+    size_t m_version = 0; ///< Identifies the data as last seen by a solver (copies share it).
 
 public:
     /**
@@ -892,19 +907,22 @@ private:
 
 private:
     Solver m_solver; ///< Solver.
-    bool m_factor = true; ///< Signal to force factorization.
+    size_t m_version = 0; ///< State of the matrix that was factorized (zero: none).
 
     /**
      * Compute inverse (evaluated by "solve").
      */
     void factorize(Matrix& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_changed) {
+            A.m_version = detail::next_matrix_version();
+            A.m_changed = false;
+        }
+        if (m_version == A.m_version) {
             return;
         }
         m_solver.compute(A.m_A);
-        m_factor = false;
-        A.m_changed = false;
+        m_version = A.m_version;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitioned.h b/include/GooseFEM/MatrixPartitioned.h
index 1567d61..e879218 100644
--- a/include/GooseFEM/MatrixPartitioned.h
+++ b/include/GooseFEM/MatrixPartitioned.h
@@ -625,19 +625,22 @@ private:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_version = 0; ///< state of the matrix that was factorized (zero: none)
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitioned& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_changed) {
+            A.m_version = detail::next_matrix_version();
+            A.m_changed = false;
+        }
+        if (m_version == A.m_version) {
             return;
         }
         m_solver.compute(A.m_Auu);
-        m_factor = false;
-        A.m_changed = false;
+        m_version = A.m_version;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 3671780..08a53ce 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -649,30 +649,36 @@ public:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_version = 0; ///< state of the matrix that was factorized (zero: none)
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitionedTyings& A)
     {
-        if (!A.m_changed && !m_factor) {
-            return;
-        }
+        if (A.m_changed) {
+            A.m_ACuu =
+                A.m_Auu + A.m_Aud * A.m_Cdu + A.m_Cud * A.m_Adu + A.m_Cud * A.m_Add * A.m_Cdu;
+
+            A.m_ACup =
+                A.m_Aup + A.m_Aud * A.m_Cdp + A.m_Cud * A.m_Adp + A.m_Cud * A.m_Add * A.m_Cdp;
 
-        A.m_ACuu = A.m_Auu + A.m_Aud * A.m_Cdu + A.m_Cud * A.m_Adu + A.m_Cud * A.m_Add * A.m_Cdu;
+            // A.m_ACpu = A.m_Apu + A.m_Apd * A.m_Cdu + A.m_Cpd * A.m_Adu
+            //     + A.m_Cpd * A.m_Add * A.m_Cdu;
 
-        A.m_ACup = A.m_Aup + A.m_Aud * A.m_Cdp + A.m_Cud * A.m_Adp + A.m_Cud * A.m_Add * A.m_Cdp;
+            // A.m_ACpp = A.m_App + A.m_Apd * A.m_Cdp + A.m_Cpd * A.m_Adp
+            //     + A.m_Cpd * A.m_Add * A.m_Cdp;
 
-        // A.m_ACpu = A.m_Apu + A.m_Apd * A.m_Cdu + A.m_Cpd * A.m_Adu
-        //     + A.m_Cpd * A.m_Add * A.m_Cdu;
+            A.m_version = detail::next_matrix_version();
+            A.m_changed = false;
+        }
 
-        // A.m_ACpp = A.m_App + A.m_Apd * A.m_Cdp + A.m_Cpd * A.m_Adp
-        //     + A.m_Cpd * A.m_Add * A.m_Cdp;
+        if (m_version == A.m_version) {
+            return;
+        }
 
         m_solver.compute(A.m_ACuu);
-        m_factor = false;
-        A.m_changed = false;
+        m_version = A.m_version;
     }
 };
 
-- 
2.43.0


From 2df986dd813e2e6a16520c92aea996c4687a8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 06/30] fix: Hex8::FineLayer: nodes*Face() include the nodes
 inside an outermost transition layer

---
 include/GooseFEM/MeshHex8.h | 80 ++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/include/GooseFEM/MeshHex8.h b/include/GooseFEM/MeshHex8.h
index c43367e..945fe5b 100644
--- a/include/GooseFEM/MeshHex8.h
+++ b/include/GooseFEM/MeshHex8.h
@@ -1581,20 +1581,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
@@ -1606,9 +1606,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy > 0 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy) + ix;
                 ++j;
             }
@@ -1622,7 +1622,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1631,7 +1631,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy < nely - 1 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy + 1) + ix;
                 ++j;
             }
@@ -1649,20 +1649,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
@@ -1674,9 +1674,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy > 0 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
                 ++j;
             }
@@ -1691,7 +1691,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1701,7 +1701,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy < nely - 1 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy + 1) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
                 ++j;
             }
@@ -1719,20 +1719,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
@@ -1744,9 +1744,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy > 0 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1);
                 ++j;
             }
@@ -1760,7 +1760,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1769,7 +1769,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy < nely - 1 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1);
                 ++j;
             }
@@ -1787,20 +1787,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
@@ -1812,9 +1812,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy > 0 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
                 ++j;
             }
@@ -1829,7 +1829,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1839,7 +1839,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy < nely - 1 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
                 ++j;
             }
-- 
2.43.0


From f27a658b862529eabeff4f80f13a59e734749908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 07/30] fix: Quad4::FineLayer:
 elementgrid_around_ravel/elementgrid_leftright select the complete periodic
 neighbourhood

The lookup of the middle layer wrapped around when it is the last layer, columns
were lost at the edges of the box, and a box higher than the mesh selected all
elements also if the mesh is wider than the box.
---
 include/GooseFEM/MeshQuad4.h | 126 +++++++++++++----------------------
 1 file changed, 45 insertions(+), 81 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 28b8e74..c40542f 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -411,61 +411,52 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
+        size_t iy = (m_nhy.size() - 1) / 2;
         size_t nel = m_layer_nelx(iy);
 
-        GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
+        GOOSEFEM_WIP_ASSERT(e >= m_startElem(iy) && e < m_startElem(iy) + nel);
 
-        auto H = xt::cumsum(m_nhy);
-
-        if (2 * size >= H(H.size() - 1)) {
-            return xt::arange<size_t>(this->nelem());
-        }
+        // rows: cut-off at the bottom/top of the mesh
 
+        auto H = xt::cumsum(m_nhy);
         size_t hy = H(iy);
-        size_t l = xt::argmax(H > (hy - size - 1))();
-        size_t u = xt::argmax(H >= (hy + size))();
-        size_t lh = 0;
-        if (l > 0) {
-            lh = H(l - 1);
+        size_t l = 0;
+        size_t u = m_nhy.size() - 1;
+        if (hy > size + 1) {
+            l = xt::argmax(H > (hy - size - 1))();
         }
-        size_t uh = H(u);
+        if (hy + size < H(u)) {
+            u = xt::argmax(H >= (hy + size))();
+        }
+
+        // columns: rounded outwards to the coarsest selected row (shifted by 'nel': periodic)
 
-        size_t step = xt::amax(m_nhx)();
-        size_t relx = (e - m_startElem(iy)) % step;
-        size_t mid = (nel / step - (nel / step) % 2) / 2 * step + relx;
-        size_t nroll = (nel - (nel - mid + e - m_startElem(iy)) % nel) / step;
         size_t dx = m_nhx(u);
-        size_t xl = 0;
-        size_t xu = nel;
-        if (mid >= size) {
-            xl = mid - size;
-        }
-        if (mid + size < nel) {
-            xu = mid + size + 1;
+        size_t xl = nel + e - m_startElem(iy) - std::min(size, nel);
+        size_t xu = nel + e - m_startElem(iy) + std::min(size, nel) + 1;
+        xl -= xl % dx;
+        xu += (dx - xu % dx) % dx;
+        if (xu - xl > nel) {
+            xl = 0;
+            xu = nel;
         }
-        xl = xl - xl % dx;
-        xu = xu - xu % dx;
-        if (mid - xl < size) {
-            if (xl < dx) {
-                xl = 0;
-            }
-            else {
-                xl -= dx;
-            }
-        }
-        if (xu - mid < size) {
-            if (xu > nel - dx) {
-                xu = nel;
-            }
-            else {
-                xu += dx;
+
+        // loop over blocks: 4 elements per block in refinement layers, otherwise 1
+
+        std::vector<size_t> elem;
+
+        for (size_t i = l; i <= u; ++i) {
+            size_t n = m_refine(i) != -1 ? 4 : 1;
+            for (size_t j = xl / m_nhx(i); j < xu / m_nhx(i); ++j) {
+                for (size_t k = 0; k < n; ++k) {
+                    elem.push_back(m_startElem(i) + (j % m_layer_nelx(i)) * n + k);
+                }
             }
         }
 
-        auto ret = this->elementgrid_ravel({lh, uh}, {xl, xu});
-        auto map = this->roll(nroll);
-        return xt::view(map, xt::keep(ret));
+        array_type::tensor<size_t, 1> ret = xt::empty<size_t>({elem.size()});
+        std::copy(elem.begin(), elem.end(), ret.begin());
+        return ret;
     }
 
     /**
@@ -484,51 +475,24 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
+        size_t iy = (m_nhy.size() - 1) / 2;
         size_t nel = m_layer_nelx(iy);
 
-        GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
+        GOOSEFEM_WIP_ASSERT(e >= m_startElem(iy) && e < m_startElem(iy) + nel);
 
-        size_t step = xt::amax(m_nhx)();
-        size_t relx = (e - m_startElem(iy)) % step;
-        size_t mid = (nel / step - (nel / step) % 2) / 2 * step + relx;
-        size_t nroll = (nel - (nel - mid + e - m_startElem(iy)) % nel) / step;
-        size_t dx = m_nhx(iy);
+        // columns (shifted by 'nel': periodic)
+        size_t n = nel;
         size_t xl = 0;
-        size_t xu = nel;
-        if (mid >= left) {
-            xl = mid - left;
-        }
-        if (mid + right < nel) {
-            xu = mid + right + 1;
-        }
-        xl = xl - xl % dx;
-        xu = xu - xu % dx;
-        if (mid - xl < left) {
-            if (xl < dx) {
-                xl = 0;
-            }
-            else {
-                xl -= dx;
-            }
-        }
-        if (xu - mid < right) {
-            if (xu > nel - dx) {
-                xu = nel;
-            }
-            else {
-                xu += dx;
-            }
+        if (left < nel && right < nel && left + right + 1 < nel) {
+            n = left + right + 1;
+            xl = nel + e - m_startElem(iy) - left;
         }
 
-        auto H = xt::cumsum(m_nhy);
-        size_t yl = 0;
-        if (iy > 0) {
-            yl = H(iy - 1);
+        array_type::tensor<size_t, 1> ret = xt::empty<size_t>({n});
+        for (size_t i = 0; i < n; ++i) {
+            ret(i) = m_startElem(iy) + (xl + i) % nel;
         }
-        auto ret = this->elementgrid_ravel({yl, H(iy)}, {xl, xu});
-        auto map = this->roll(nroll);
-        return xt::view(map, xt::keep(ret));
+        return ret;
     }
 
     /**
-- 
2.43.0


From 192175d25d51839b9fa5a0032deee8fd755ad67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 08/30] fix: Quad4::FineLayer: reconstruct from coordinates and
 connectivity for all shapes

Do not read before/after the first/last element, round (rather than truncate) the
number of rows, recover 'nfine', and reject (rather than terminate on) a mesh with
another number of elements or nodes.
---
 include/GooseFEM/MeshQuad4.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index c40542f..ff59cb7 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1061,11 +1061,11 @@ private:
         size_t eleft = emid;
         size_t eright = emid;
 
-        while (conn(eleft, 0) == conn(eleft - 1, 1) && eleft > 0) {
+        while (eleft > 0 && conn(eleft, 0) == conn(eleft - 1, 1)) {
             eleft--;
         }
 
-        while (conn(eright, 1) == conn(eright + 1, 0) && eright < conn.shape(0) - 1) {
+        while (eright < conn.shape(0) - 1 && conn(eright, 1) == conn(eright + 1, 0)) {
             eright++;
         }
 
@@ -1088,8 +1088,20 @@ private:
         // Extract shape and initialise
 
         size_t nelx = eright - eleft + 1;
-        size_t nely = static_cast<size_t>((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx);
-        this->init(nelx, nely, hx);
+        size_t nely =
+            static_cast<size_t>(std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx));
+        size_t nfine = 1;
+
+        for (size_t e = eright + 1; e < conn.shape(0); e += nelx) {
+            if (!xt::allclose(coor(conn(e, 3), 1) - coor(conn(e, 0), 1), hx)) {
+                break;
+            }
+            nfine += 2;
+        }
+
+        this->init(nelx, nely, hx, nfine);
+        GOOSEFEM_CHECK(m_nelem == conn.shape(0));
+        GOOSEFEM_CHECK(m_nnode == coor.shape(0));
         GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
         GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
         GOOSEFEM_CHECK(
-- 
2.43.0


From 58e1bb6efcaf841e57c464dcdf924f72e3617c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 09/30] fix: Vstack: place the bottom of a mesh on the top of
 the stack also if its bottom is not at zero

---
 include/GooseFEM/Mesh.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index d7d5b84..f8a99a6 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2347,7 +2347,8 @@ public:
 
         size_t index = m_map.size();
 
-        double shift = xt::amax(xt::view(m_coor, xt::all(), 1))();
+        double shift =
+            xt::amax(xt::view(m_coor, xt::all(), 1))() - xt::amin(xt::view(coor, xt::all(), 1))();
         auto x = coor;
         xt::view(x, xt::all(), 1) += shift;
 
-- 
2.43.0


From d3cc3cdf5da9781d5e5d005eddd587656494b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 10/30] fix: elem2node(conn, dofs): nodes with DOFs that are
 not part of the connectivity

---
 include/GooseFEM/Mesh.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index f8a99a6..5d2e8db 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2521,6 +2521,8 @@ inline std::vector<std::vector<size_t>> elem2node(const E& conn, const D& dofs,
     auto ret = elem2node(conn, sorted);
     auto nties = nodaltyings(dofs);
 
+    ret.resize(nnode); // nodes that are not part of the connectivity
+
     for (size_t m = 0; m < nnode; ++m) {
         if (nties[m].size() <= 1) {
             continue;
-- 
2.43.0


From 0d9b4d4c5021fc5be757ee04b189ba86ce8cf653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 11/30] fix: elem2node(conn, dofs): list an element once if
 several of its nodes are tied

---
 include/GooseFEM/Mesh.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 5d2e8db..32063dc 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2536,7 +2536,12 @@ inline std::vector<std::vector<size_t>> elem2node(const E& conn, const D& dofs,
         }
         ret[m].reserve(n);
         for (size_t j = 1; j < nties[m].size(); ++j) {
-            ret[m].insert(ret[m].end(), ret[nties[m][j]].begin(), ret[nties[m][j]].end());
+            for (auto& e : ret[nties[m][j]]) {
+                // an element can be connected to several of the tied nodes
+                if (std::find(ret[m].begin(), ret[m].end(), e) == ret[m].end()) {
+                    ret[m].push_back(e);
+                }
+            }
         }
         if (sorted) {
             std::sort(ret[m].begin(), ret[m].end());
-- 
2.43.0


From 537d9f12ee9322205406bf974ed7cd6c22576e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 12/30] fix: Hex8: gradients of the shape functions on elements
 that are not axis-aligned

The sum over the local directions used the same component of the local gradient
for each of them: wrong as soon as the Jacobian has off-diagonal terms.
---
 include/GooseFEM/Element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index ce37145..c077b6a 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -1217,7 +1217,7 @@ private:
                     for (size_t m = 0; m < D::s_nne; ++m) {
                         for (size_t i = 0; i < D::s_ndim; ++i) {
                             for (size_t j = 0; j < D::s_ndim; ++j) {
-                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, i);
+                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, j);
                             }
                         }
                     }
-- 
2.43.0


From 05128798e1baa500f996a1efc8d4416b95c0ba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 13/30] fix: Quad4::MidPoint: weight of the integration point

The area of the element in local coordinates is four: the integration volume was
a quarter of the volume of the element.
---
 include/GooseFEM/ElementQuad4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/ElementQuad4.h b/include/GooseFEM/ElementQuad4.h
index bbb146e..cd03740 100644
--- a/include/GooseFEM/ElementQuad4.h
+++ b/include/GooseFEM/ElementQuad4.h
@@ -214,7 +214,7 @@ inline array_type::tensor<double, 1> w()
 
     array_type::tensor<double, 1> w = xt::empty<double>({nip});
 
-    w(0) = 1.0;
+    w(0) = 4.0;
 
     return w;
 }
-- 
2.43.0


From 130706623c114088035096b919996eaf1c4e2b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 14/30] fix: Element::isSequential: detect holes

The check only visited the numbers that are present, so it never failed.
---
 include/GooseFEM/Element.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index c077b6a..e2ef28c 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -103,8 +103,8 @@ inline bool isSequential(const E& dofs)
         exists[i]++;
     }
 
-    for (auto& i : dofs) {
-        if (exists[i] == 0) {
+    for (auto& i : exists) {
+        if (i == 0) {
             return false;
         }
     }
-- 
2.43.0


From c61a2382ba9bede15dcbb917ebb8103a668bb1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 15/30] fix: Element::isDiagonal: allow building with OpenMP,
 and including from several units

Returning from within a parallel loop does not compile with OpenMP, and the
function was not inline.
---
 include/GooseFEM/Element.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index e2ef28c..7a8c460 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -119,7 +119,7 @@ inline bool isSequential(const E& dofs)
  * @param elemmat Element-vectors ("elemmat")
  * @return `true` if all element matrices are diagonal.
  */
-bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
+inline bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 {
     GOOSEFEM_ASSERT(elemmat.shape(1) == elemmat.shape(2));
 
@@ -128,7 +128,6 @@ bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 
     double eps = std::numeric_limits<double>::epsilon();
 
-#pragma omp parallel for
     for (size_t e = 0; e < nelem; ++e) {
         for (size_t i = 0; i < N; ++i) {
             for (size_t j = 0; j < N; ++j) {
-- 
2.43.0


From ae52c58f3ea3c5a0022a38be63b677f4d34a193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:17 +0000
Subject: [PATCH 16/30] fix: Iterate::StopList::all_less: a residual that is
 not a number is not less than the tolerance

A simulation that diverged to NaN was reported as converged.
---
 include/GooseFEM/Iterate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Iterate.h b/include/GooseFEM/Iterate.h
index 8ec4c3b..54f2497 100644
--- a/include/GooseFEM/Iterate.h
+++ b/include/GooseFEM/Iterate.h
@@ -90,7 +90,7 @@ public:
      */
     bool all_less(double tol) const
     {
-        return !std::any_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i >= tol; });
+        return std::all_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i < tol; });
     }
 
     /**
-- 
2.43.0


From 364e7e81604e70e38301a82aa7edc08e3133c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:31 +0000
Subject: [PATCH 17/30] fix: VectorPartitionedTyings: check the constraint
 matrices against the number of DOFs (the assertion was always true)

---
 include/GooseFEM/VectorPartitionedTyings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/VectorPartitionedTyings.h b/include/GooseFEM/VectorPartitionedTyings.h
index 0e77517..394a91c 100644
--- a/include/GooseFEM/VectorPartitionedTyings.h
+++ b/include/GooseFEM/VectorPartitionedTyings.h
@@ -107,7 +107,7 @@ public:
         m_Cid = m_Cdi.transpose();
 
         GOOSEFEM_ASSERT(static_cast<size_t>(m_Cdi.cols()) == m_nni);
-        GOOSEFEM_ASSERT(m_ndof == xt::amax(m_dofs)() + 1);
+        GOOSEFEM_ASSERT(m_ndof == m_nni + m_nnd);
     }
 
     /**
-- 
2.43.0


From 8c1ecb1b59093baf7da1aca27b82e4b13f234252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:49 +0000
Subject: [PATCH 18/30] fix: MatrixPartitionedTyings: check the connectivity
 against the number of nodes, like all other matrices

---
 include/GooseFEM/MatrixPartitionedTyings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 08a53ce..7c744ec 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -130,6 +130,7 @@ public:
         m_Adp.resize(m_nnd, m_nnp);
         m_Add.resize(m_nnd, m_nnd);
 
+        GOOSEFEM_ASSERT(xt::amax(m_conn)() + 1 <= m_nnode);
         GOOSEFEM_ASSERT(m_ndof <= m_nnode * m_ndim);
         GOOSEFEM_ASSERT(m_ndof == xt::amax(m_dofs)() + 1);
     }
-- 
2.43.0


From ffcd29c0f52957d62ab513a09e5bf5d82158022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 19/30] fix: Quad4, Quad4Planar, Hex8: check the shape of the
 integration points before they are read

---
 include/GooseFEM/ElementHex8.h        | 10 ++++++----
 include/GooseFEM/ElementQuad4.h       | 10 ++++++----
 include/GooseFEM/ElementQuad4Planar.h | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/GooseFEM/ElementHex8.h b/include/GooseFEM/ElementHex8.h
index a50662c..3a941ed 100644
--- a/include/GooseFEM/ElementHex8.h
+++ b/include/GooseFEM/ElementHex8.h
@@ -259,6 +259,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
 
@@ -303,10 +309,6 @@ public:
             m_dNxi(q, 7, 2) = +0.125 * (1.0 - xi(q, 0)) * (1.0 + xi(q, 1));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
         GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
         GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
 
diff --git a/include/GooseFEM/ElementQuad4.h b/include/GooseFEM/ElementQuad4.h
index cd03740..65202e7 100644
--- a/include/GooseFEM/ElementQuad4.h
+++ b/include/GooseFEM/ElementQuad4.h
@@ -281,6 +281,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
 
@@ -304,10 +310,6 @@ public:
             m_dNxi(q, 3, 1) = +0.25 * (1.0 - xi(q, 0));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
         GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
         GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
 
diff --git a/include/GooseFEM/ElementQuad4Planar.h b/include/GooseFEM/ElementQuad4Planar.h
index cf278ee..d6e3b43 100644
--- a/include/GooseFEM/ElementQuad4Planar.h
+++ b/include/GooseFEM/ElementQuad4Planar.h
@@ -85,6 +85,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
         m_thick = thick;
@@ -109,10 +115,6 @@ public:
             m_dNxi(q, 3, 1) = +0.25 * (1.0 - xi(q, 0));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
         GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
         GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
 
-- 
2.43.0


From ea8b1f849c2848b1c1a9e792a404c8d4451bafca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:41 +0000
Subject: [PATCH 20/30] fix: RefineRegular::averageToCoarse: check the number
 of weights before they are read

---
 include/GooseFEM/MeshQuad4.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index ff59cb7..6d89cb6 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1270,6 +1270,7 @@ public:
     ) const
     {
         GOOSEFEM_ASSERT(data.shape(0) == m_coarse2fine.size());
+        GOOSEFEM_ASSERT(weights.shape(0) == m_coarse2fine.size());
 
         std::array<size_t, rank> shape;
         std::copy(data.shape().cbegin(), data.shape().cend(), &shape[0]);
-- 
2.43.0


From eaa0010b665bc12eebcb31a2bd5087d9fa7b638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 21/30] fix: nodaltyings: the assertion read past the end of
 the shorter list of nodes, and accepted a longer one

---
 include/GooseFEM/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 32063dc..b079e05 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2860,7 +2860,7 @@ inline std::vector<std::vector<size_t>> nodaltyings(const D& dofs)
         for (size_t i = 1; i < ndim; ++i) {
             auto t = nodemap[dofs(m, i)];
             std::sort(t.begin(), t.end());
-            GOOSEFEM_ASSERT(std::equal(r.begin(), r.end(), t.begin()));
+            GOOSEFEM_ASSERT(std::equal(r.begin(), r.end(), t.begin(), t.end()));
         }
 #endif
     }
-- 
2.43.0


From ad197bac7037bf577e27fc36d47493e0aea261a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 22/30] fix: elemmap2nodemap: check the element numbers before
 they are read

---
 include/GooseFEM/Mesh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index b079e05..f9a24ac 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2684,6 +2684,7 @@ elemmap2nodemap(const T& elem_map, const C& coor, const E& conn, ElementType typ
     GOOSEFEM_ASSERT(conn.dimension() == 2);
     GOOSEFEM_ASSERT(xt::amax(conn)() < coor.shape(0));
     GOOSEFEM_ASSERT(elem_map.size() == conn.shape(0));
+    GOOSEFEM_ASSERT(elem_map.size() == 0 || xt::amax(elem_map)() < conn.shape(0));
     size_t N = coor.shape(0);
 
     array_type::tensor<size_t, 1> ret = N * xt::ones<size_t>({N});
-- 
2.43.0


From a4be4aac6c26a10dff73c09f1429790dcfc06cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:36 +0000
Subject: [PATCH 23/30] fix: ManualStitch: wrote past the end of the
 coordinates when a node of mesh b overlaps several nodes of mesh a

---
 include/GooseFEM/Mesh.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index f9a24ac..e1ec490 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -1799,7 +1799,6 @@ public:
         size_t nnda = coor_a.shape(0);
         size_t nndb = coor_b.shape(0);
         size_t ndim = coor_a.shape(1);
-        size_t nelim = overlapping_nodes_a.size();
 
         size_t nela = conn_a.shape(0);
         size_t nelb = conn_b.shape(0);
@@ -1820,9 +1819,9 @@ public:
         xt::view(m_conn, xt::range(0, nela), xt::all()) = conn_a;
         xt::view(m_conn, xt::range(nela, nela + nelb), xt::all()) = detail::renum(conn_b, m_map_b);
 
-        m_coor = xt::empty<size_t>({nnda + nndb - nelim, ndim});
+        m_coor = xt::empty<size_t>({nnda + keep_b.size(), ndim});
         xt::view(m_coor, xt::range(0, nnda), xt::all()) = coor_a;
-        xt::view(m_coor, xt::range(nnda, nnda + nndb - nelim), xt::all()) =
+        xt::view(m_coor, xt::range(nnda, nnda + keep_b.size()), xt::all()) =
             xt::view(coor_b, xt::keep(keep_b), xt::all());
     }
 
-- 
2.43.0


From 5f9025ce16821958562cbf78ce0b3cfcc7c9056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 24/30] fix: ManualStitch, Stitch, Vstack: check the node
 numbers before they are used

---
 include/GooseFEM/Mesh.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index e1ec490..e3490bf 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -1786,6 +1786,10 @@ public:
         GOOSEFEM_ASSERT(xt::has_shape(overlapping_nodes_a, overlapping_nodes_b.shape()));
         GOOSEFEM_ASSERT(coor_a.shape(1) == coor_b.shape(1));
         GOOSEFEM_ASSERT(conn_a.shape(1) == conn_b.shape(1));
+        GOOSEFEM_ASSERT(xt::amax(conn_a)() < coor_a.shape(0));
+        GOOSEFEM_ASSERT(xt::amax(conn_b)() < coor_b.shape(0));
+        GOOSEFEM_ASSERT(xt::amax(overlapping_nodes_a)() < coor_a.shape(0));
+        GOOSEFEM_ASSERT(xt::amax(overlapping_nodes_b)() < coor_b.shape(0));
 
         if (check_position) {
             GOOSEFEM_CHECK(xt::allclose(
@@ -2032,6 +2036,7 @@ public:
     {
         GOOSEFEM_ASSERT(coor.dimension() == 2);
         GOOSEFEM_ASSERT(conn.dimension() == 2);
+        GOOSEFEM_ASSERT(xt::amax(conn)() < coor.shape(0));
 
         if (m_map.size() == 0) {
             m_coor = coor;
@@ -2331,6 +2336,12 @@ public:
     template <class C, class E, class N>
     void push_back(const C& coor, const E& conn, const N& nodes_bot, const N& nodes_top)
     {
+        GOOSEFEM_ASSERT(coor.dimension() == 2);
+        GOOSEFEM_ASSERT(conn.dimension() == 2);
+        GOOSEFEM_ASSERT(xt::amax(conn)() < coor.shape(0));
+        GOOSEFEM_ASSERT(xt::amax(nodes_bot)() < coor.shape(0));
+        GOOSEFEM_ASSERT(xt::amax(nodes_top)() < coor.shape(0));
+
         if (m_map.size() == 0) {
             m_coor = coor;
             m_conn = conn;
-- 
2.43.0


From 8f46696624eee92bd27fa965076be8e71b8441b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 25/30] fix: Renumber::apply, Reorder::apply: check the numbers
 before they are used

---
 include/GooseFEM/Mesh.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index e3490bf..975bc5d 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -71,6 +71,7 @@ inline T renum(const T& arg, const R& mapping)
     auto jt = ret.begin();
 
     for (auto it = arg.begin(); it != arg.end(); ++it, ++jt) {
+        GOOSEFEM_ASSERT(*it < mapping.size());
         *jt = mapping(*it);
     }
 
@@ -2442,6 +2443,7 @@ public:
         auto jt = ret.begin();
 
         for (auto it = list.begin(); it != list.end(); ++it, ++jt) {
+            GOOSEFEM_ASSERT(*it < m_renum.size());
             *jt = m_renum(*it);
         }
 
-- 
2.43.0


From b7d29d90f59b8988cbbbe4dbec07b3cf96258408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 26/30] fix: Tri3::getOrientation: check the connectivity
 before it is read

---
 include/GooseFEM/MeshTri3.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/MeshTri3.h b/include/GooseFEM/MeshTri3.h
index 7212f04..33243cc 100644
--- a/include/GooseFEM/MeshTri3.h
+++ b/include/GooseFEM/MeshTri3.h
@@ -241,6 +241,7 @@ getOrientation(const array_type::tensor<double, 2>& coor, const array_type::tens
 {
     GOOSEFEM_ASSERT(conn.shape(1) == 3ul);
     GOOSEFEM_ASSERT(coor.shape(1) == 2ul);
+    GOOSEFEM_ASSERT(xt::amax(conn)() < coor.shape(0));
 
     double k;
     size_t nelem = conn.shape(0);
-- 
2.43.0


From 372536313b56322433e9f9dbd1270d2fc4f2656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 27/30] fix: Periodic: reject prescribed DOFs that are
 dependent, instead of numbering them twice

---
 include/GooseFEM/TyingsPeriodic.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/TyingsPeriodic.h b/include/GooseFEM/TyingsPeriodic.h
index 0b0f555..1f1f6c3 100644
--- a/include/GooseFEM/TyingsPeriodic.h
+++ b/include/GooseFEM/TyingsPeriodic.h
@@ -109,6 +109,8 @@ public:
         U iii = xt::setdiff1d(dofs, iid);
         U iiu = xt::setdiff1d(iii, iip);
 
+        GOOSEFEM_ASSERT(iiu.size() + iip.size() == iii.size());
+
         m_nnu = iiu.size();
         m_nnp = iip.size();
         m_nni = iii.size();
-- 
2.43.0


From 1199fcf52d4da70452755cab0bd796ab4250aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:28 +0000
Subject: [PATCH 28/30] fix: Quad4::FineLayer: compare positions relative to
 the size of the elements when a mesh is recovered

---
 include/GooseFEM/MeshQuad4.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 6d89cb6..cc95471 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1051,7 +1051,7 @@ private:
         if (conn.shape(0) == 1) {
             this->init(1, 1, coor(conn(0, 1), 0) - coor(conn(0, 0), 0));
             GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
-            GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
+            GOOSEFEM_CHECK(xt::allclose(this->coor(), coor, 1e-5, 1e-8 * m_h));
             return;
         }
 
@@ -1069,8 +1069,6 @@ private:
             eright++;
         }
 
-        GOOSEFEM_CHECK(xt::allclose(coor(conn(eleft, 0), 0), 0.0));
-
         // Get element sizes along the middle layer
 
         auto n0 = xt::view(conn, xt::range(eleft, eright + 1), 0);
@@ -1081,9 +1079,15 @@ private:
         auto hx = xt::amin(dx)();
         auto hy = xt::amin(dy)();
 
-        GOOSEFEM_CHECK(xt::allclose(hx, hy));
-        GOOSEFEM_CHECK(xt::allclose(dx, hx));
-        GOOSEFEM_CHECK(xt::allclose(dy, hy));
+        // Positions are compared relative to the size of the elements
+
+        double rtol = 1e-5;
+        double atol = 1e-8 * std::abs(hx);
+
+        GOOSEFEM_CHECK(xt::allclose(coor(conn(eleft, 0), 0), 0.0, rtol, atol));
+        GOOSEFEM_CHECK(xt::allclose(hx, hy, rtol, atol));
+        GOOSEFEM_CHECK(xt::allclose(dx, hx, rtol, atol));
+        GOOSEFEM_CHECK(xt::allclose(dy, hy, rtol, atol));
 
         // Extract shape and initialise
 
@@ -1093,7 +1097,7 @@ private:
         size_t nfine = 1;
 
         for (size_t e = eright + 1; e < conn.shape(0); e += nelx) {
-            if (!xt::allclose(coor(conn(e, 3), 1) - coor(conn(e, 0), 1), hx)) {
+            if (!xt::allclose(coor(conn(e, 3), 1) - coor(conn(e, 0), 1), hx, rtol, atol)) {
                 break;
             }
             nfine += 2;
@@ -1103,7 +1107,7 @@ private:
         GOOSEFEM_CHECK(m_nelem == conn.shape(0));
         GOOSEFEM_CHECK(m_nnode == coor.shape(0));
         GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
-        GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
+        GOOSEFEM_CHECK(xt::allclose(this->coor(), coor, rtol, atol));
         GOOSEFEM_CHECK(
             xt::all(xt::equal(this->elementsMiddleLayer(), eleft + xt::arange<size_t>(nelx)))
         );
-- 
2.43.0


From 6b3f7405467013ca7c0f8f7b27121ae8e90e90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:21 +0000
Subject: [PATCH 29/30] fix: Mesh::overlapping: no view of an unevaluated
 expression, which is read out of bounds

If the first coordinates are an expression and the second mesh has one node, stepping through the view of row i
by broadcasting runs out of the bounds of the array
---
 include/GooseFEM/Mesh.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 975bc5d..fd220dc 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -1725,9 +1725,11 @@ overlapping(const S& coor_a, const T& coor_b, double rtol = 1e-5, double atol =
 
     for (size_t i = 0; i < coor_a.shape(0); ++i) {
 
-        auto idx = xt::flatten_indices(xt::argwhere(
-            xt::prod(xt::isclose(coor_b, xt::view(coor_a, i, xt::all()), rtol, atol), 1)
-        ));
+        array_type::tensor<double, 1> x = xt::view(coor_a, i, xt::all());
+
+        auto idx = xt::flatten_indices(
+            xt::argwhere(xt::prod(xt::isclose(coor_b, x, rtol, atol), 1))
+        );
 
         for (auto& j : idx) {
             ret_a.push_back(i);
-- 
2.43.0


From 44297b62adf0c289efbfabf49b67e35cdf38f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:27 +0000
Subject: [PATCH 30/30] fix: asTensor: use the offset of a view (part of a
 larger array)

AsTensor(rank, view, n) and asTensor(view, xarray) read from the start of the
array that the view is part of.
---
 include/GooseFEM/Allocate.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Allocate.h b/include/GooseFEM/Allocate.h
index 75f735c..54a1b06 100644
--- a/include/GooseFEM/Allocate.h
+++ b/include/GooseFEM/Allocate.h
@@ -75,7 +75,11 @@ struct asTensor_write {
         std::copy(arg.strides().begin(), arg.strides().end(), ret_strides.begin());
         std::fill(ret_strides.begin() + arg.dimension(), ret_strides.end(), 0);
         ret = xt::strided_view(
-            arg, ret.shape(), std::move(ret_strides), 0ul, xt::layout_type::dynamic
+            arg,
+            ret.shape(),
+            std::move(ret_strides),
+            static_cast<size_t>(arg.data_offset()),
+            xt::layout_type::dynamic
         );
     }
 };
@@ -97,7 +101,11 @@ struct asTensor_write<
         std::copy(arg.strides().begin(), arg.strides().end(), ret_strides.begin());
         std::fill(ret_strides.begin() + T::rank, ret_strides.end(), 0);
         ret = xt::strided_view(
-            arg, ret.shape(), std::move(ret_strides), 0ul, xt::layout_type::dynamic
+            arg,
+            ret.shape(),
+            std::move(ret_strides),
+            static_cast<size_t>(arg.data_offset()),
+            xt::layout_type::dynamic
         );
     }
 };
-- 
2.43.0

