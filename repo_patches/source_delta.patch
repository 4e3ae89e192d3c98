From eb01bf8cd1857d487123259b0f0a1e30b3021923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 01/25] fix: release the intermediate matrices of
 GenericRigidBodySystem on destruction

---
 src/generic_rigid_body_system.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index ed3b956..994e824 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -8,7 +8,24 @@ atg_scs::GenericRigidBodySystem::GenericRigidBodySystem() {
 }
 
 atg_scs::GenericRigidBodySystem::~GenericRigidBodySystem() {
-    /* void */
+    m_iv.J_sparse.destroy();
+    m_iv.J_dot_sparse.destroy();
+    m_iv.sreg0.destroy();
+    m_iv.J_T.destroy();
+    m_iv.M.destroy();
+    m_iv.M_inv.destroy();
+    m_iv.C.destroy();
+    m_iv.ks.destroy();
+    m_iv.kd.destroy();
+    m_iv.q_dot.destroy();
+    m_iv.reg0.destroy();
+    m_iv.reg1.destroy();
+    m_iv.reg2.destroy();
+    m_iv.right.destroy();
+    m_iv.F_ext.destroy();
+    m_iv.F_C.destroy();
+    m_iv.R.destroy();
+    m_iv.lambda.destroy();
 }
 
 void atg_scs::GenericRigidBodySystem::initialize(
-- 
2.43.0


From 5391fbae4894f3e863fd4b04b13bf6db0d1726f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 02/25] fix: report the reaction of each body in
 GenericRigidBodySystem

---
 src/generic_rigid_body_system.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 994e824..777d9d2 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -97,9 +97,9 @@ void atg_scs::GenericRigidBodySystem::process(double dt, int steps) {
 
         for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
-                constraint->F_x[j][k] = m_state.r_x[i_f];
-                constraint->F_y[j][k] = m_state.r_y[i_f];
-                constraint->F_t[j][k] = m_state.r_t[i_f];
+                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];
+                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];
+                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];
             }
         }
     }
-- 
2.43.0


From 97117d05c1b3d9264bff8ae728697ef93f07221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 03/25] fix: report the stage-weighted mean of all reactions
 after an RK4 step

---
 src/rk4_ode_solver.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index 7a4a0bf..54e2f4f 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -15,6 +15,12 @@ void atg_scs::Rk4OdeSolver::start(SystemState *initial, double dt) {
     m_initialState.copy(initial);
     m_accumulator.copy(initial);
 
+    for (int i = 0; i < m_accumulator.n_c * 2; ++i) {
+        m_accumulator.r_x[i] = 0;
+        m_accumulator.r_y[i] = 0;
+        m_accumulator.r_t[i] = 0;
+    }
+
     m_stage = RkStage::Stage_1;
 }
 
@@ -88,10 +94,10 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
         m_accumulator.p_y[i] += (m_dt / 6.0) * system->v_y[i] * stageWeight;
     }
 
-    for (int i = 0; i < system->n_c; ++i) {
-        m_accumulator.r_x[i] += (m_dt / 6.0) * system->r_x[i] * stageWeight;
-        m_accumulator.r_y[i] += (m_dt / 6.0) * system->r_y[i] * stageWeight;
-        m_accumulator.r_t[i] += (m_dt / 6.0) * system->r_t[i] * stageWeight;
+    for (int i = 0; i < system->n_c * 2; ++i) {
+        m_accumulator.r_x[i] += (1 / 6.0) * system->r_x[i] * stageWeight;
+        m_accumulator.r_y[i] += (1 / 6.0) * system->r_y[i] * stageWeight;
+        m_accumulator.r_t[i] += (1 / 6.0) * system->r_t[i] * stageWeight;
     }
 
     if (m_stage == RkStage::Stage_4) {
@@ -104,7 +110,7 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
             system->p_y[i] = m_accumulator.p_y[i];
         }
 
-        for (int i = 0; i < system->n_c; ++i) {
+        for (int i = 0; i < system->n_c * 2; ++i) {
             system->r_x[i] = m_accumulator.r_x[i];
             system->r_y[i] = m_accumulator.r_y[i];
             system->r_t[i] = m_accumulator.r_t[i];
-- 
2.43.0


From 0c980e014605fdcbf796f09becb416b51089580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 04/25] fix: evaluate RK4 stage positions with the previous
 stage's velocity

---
 src/rk4_ode_solver.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index 54e2f4f..99cbd28 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -32,36 +32,36 @@ bool atg_scs::Rk4OdeSolver::step(SystemState *state) {
         case RkStage::Stage_2:
         case RkStage::Stage_3:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i] / 2.0;
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i] / 2.0;
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i] / 2.0;
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
             }
 
             state->dt = m_dt / 2.0;
             break;
         case RkStage::Stage_4:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i];
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i];
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i];
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i];
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i];
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i];
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i];
             }
 
             state->dt = m_dt;
-- 
2.43.0


From 2414541609543819fc3e09c888fe4691afd32f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 05/25] fix: measure convergence of the unlimited Gauss-Seidel
 sweep by the change of each component

---
 src/gauss_seidel_sle_solver.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 40f9f34..a21a2e3 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -25,8 +25,9 @@ bool atg_scs::GaussSeidelSleSolver::solve(
         Matrix *result)
 {
     const int n = right.getHeight();
-    
-    result->resize(1, n);
+    if (result->getHeight() != n) {
+        result->initialize(1, n);
+    }
 
     if (previous != nullptr && previous->getHeight() == n) {
         result->set(previous);
@@ -108,8 +109,8 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
         const double k_next_i =
             (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);
 
-        const double min_k = std::fmax(1E-3, k->get(0, i));
-        const double delta = (std::abs(k_next_i) - min_k) / min_k;
+        const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
+        const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


From 7b6e4afccbee23e3c4fe9b209d963c7c5cd18f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 06/25] fix: make a sparse matrix usable again after destroy

---
 include/sparse_matrix.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index d9a834c..2ab0b3c 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -38,9 +38,7 @@ namespace atg_scs {
                 else if (height > m_capacityHeight) {
                     destroy();
 
-                    m_capacityHeight = (height > m_capacityHeight)
-                        ? height
-                        : m_capacityHeight;
+                    m_capacityHeight = height;
 
                     m_data = new double[(size_t)T_Stride * T_Entries * m_capacityHeight];
                     m_matrix = new double *[m_capacityHeight];
@@ -69,6 +67,7 @@ namespace atg_scs {
                 m_blockData = nullptr;
 
                 m_width = m_height = 0;
+                m_capacityHeight = 0;
             }
 
             void expand(Matrix *matrix) {
-- 
2.43.0


From 3dfb5f49834e094025c947da0c3a3449e95b8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 07/25] fix: let sparse matrices address more than 255 column
 blocks

---
 include/sparse_matrix.h | 42 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 2ab0b3c..6a11ff6 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -30,7 +30,7 @@ namespace atg_scs {
 
             void initialize(int width, int height) {
                 resize(width, height);
-                memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+                memset(m_blockData, 0xFF, sizeof(int) * T_Entries * m_height);
             }
 
             void resize(int width, int height) {
@@ -42,7 +42,7 @@ namespace atg_scs {
 
                     m_data = new double[(size_t)T_Stride * T_Entries * m_capacityHeight];
                     m_matrix = new double *[m_capacityHeight];
-                    m_blockData = new uint8_t[(size_t)m_capacityHeight * T_Entries];
+                    m_blockData = new int[(size_t)m_capacityHeight * T_Entries];
                 }
 
                 m_height = height;
@@ -75,8 +75,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == -1) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);
@@ -91,8 +91,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == -1) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(i, block * T_Stride + k, m_matrix[i][j * T_Stride + k]);
@@ -102,10 +102,10 @@ namespace atg_scs {
                 }
             }
 
-            inline void setBlock(int row, int entry, uint8_t index) {
+            inline void setBlock(int row, int entry, int index) {
                 assert(row >= 0 && row < m_height);
                 assert(entry >= 0 && entry < T_Entries);
-                assert(index < m_width);
+                assert(index >= 0 && index < m_width);
 
                 m_blockData[row * T_Entries + entry] = index;
             }
@@ -130,7 +130,7 @@ namespace atg_scs {
                 assert(row >= 0 && row < m_height);
                 assert(col >= 0 && col < T_Entries);
 
-                m_blockData[row * T_Entries + col] = 0xFF;
+                m_blockData[row * T_Entries + col] = -1;
                 for (int i = 0; i < T_Stride; ++i) {
                     m_matrix[row][col * T_Stride + i] = 0;
                 }
@@ -145,11 +145,11 @@ namespace atg_scs {
                     for (int j = 0; j < b_T.m_height; ++j) {
                         double dot = 0;
                         for (int k = 0; k < T_Entries; ++k) {
-                            const uint8_t block0 = m_blockData[i * T_Entries + k];
-                            if (block0 == 0xFF) continue;
+                            const int block0 = m_blockData[i * T_Entries + k];
+                            if (block0 == -1) continue;
 
                             for (int l = 0; l < T_Entries; ++l) {
-                                const uint8_t block1 = b_T.m_blockData[j * T_Entries + l];
+                                const int block1 = b_T.m_blockData[j * T_Entries + l];
                                 if (block0 == block1) {
                                     for (int m = 0; m < T_Stride; ++m) {
                                         dot +=
@@ -178,8 +178,8 @@ namespace atg_scs {
                     double v = 0.0;
                     for (int k = 0; k < T_Entries; ++k) {
                         const int offset = k * T_Stride;
-                        const uint8_t block = m_blockData[i * T_Entries + k];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + k];
+                        if (block == -1) continue;
 
                         for (int l = 0; l < T_Stride; ++l) {
                             const int j = block * T_Stride + l;
@@ -202,8 +202,8 @@ namespace atg_scs {
                         double v = 0.0;
                         for (int k = 0; k < T_Entries; ++k) {
                             const int offset = k * T_Stride;
-                            const uint8_t block = m_blockData[i * T_Entries + k];
-                            if (block == 0xFF) continue;
+                            const int block = m_blockData[i * T_Entries + k];
+                            if (block == -1) continue;
 
                             for (int l = 0; l < T_Stride; ++l) {
                                 v += m_matrix[i][offset + l] * b.get(j, block * T_Stride + l);
@@ -223,8 +223,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == -1) continue;
 
                         target->setBlock(i, j, index);
 
@@ -247,8 +247,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == -1) continue;
 
                         target->setBlock(i, j, index);
 
@@ -269,7 +269,7 @@ namespace atg_scs {
         protected:
             double **m_matrix;
             double *m_data;
-            uint8_t *m_blockData;
+            int *m_blockData;
 
             int m_width;
             int m_height;
-- 
2.43.0


From aa43dd6622e56a4156b498686694f139c90d2588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 08/25] fix: size, copy and release a SystemState exactly when
 only one of its counts is zero or shrinks

---
 src/system_state.cpp | 50 +++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index d99a821..2a8c10d 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -43,10 +43,6 @@ atg_scs::SystemState::~SystemState() {
 void atg_scs::SystemState::copy(const SystemState *state) {
     resize(state->n, state->n_c);
 
-    if (state->n == 0) {
-        return;
-    }
-
     std::memcpy((void *)indexMap, (void *)state->indexMap, sizeof(int) * n_c);
 
     std::memcpy((void *)a_theta, (void *)state->a_theta, sizeof(double) * n);
@@ -72,7 +68,7 @@ void atg_scs::SystemState::copy(const SystemState *state) {
 }
 
 void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
-    if (n >= bodyCount && n_c >= constraintCount) {
+    if (n == bodyCount && n_c == constraintCount) {
         return;
     }
 
@@ -106,32 +102,28 @@ void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
 }
 
 void atg_scs::SystemState::destroy() {
-    if (n > 0) {
-        freeArray(a_theta);
-        freeArray(v_theta);
-        freeArray(theta);
-
-        freeArray(a_x);
-        freeArray(a_y);
-        freeArray(v_x);
-        freeArray(v_y);
-        freeArray(p_x);
-        freeArray(p_y);
-
-        freeArray(f_x);
-        freeArray(f_y);
-        freeArray(t);
-
-        freeArray(m);
-    }
+    freeArray(a_theta);
+    freeArray(v_theta);
+    freeArray(theta);
 
-    if (n_c > 0) {
-        freeArray(indexMap);
+    freeArray(a_x);
+    freeArray(a_y);
+    freeArray(v_x);
+    freeArray(v_y);
+    freeArray(p_x);
+    freeArray(p_y);
 
-        freeArray(r_x);
-        freeArray(r_y);
-        freeArray(r_t);
-    }
+    freeArray(f_x);
+    freeArray(f_y);
+    freeArray(t);
+
+    freeArray(m);
+
+    freeArray(indexMap);
+
+    freeArray(r_x);
+    freeArray(r_y);
+    freeArray(r_t);
 
     n = 0;
     n_c = 0;
-- 
2.43.0


From a09091c9c17a667f6b2f735c714b779c6dac37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 09/25] fix: return an empty solution from Gaussian elimination
 when there are no rows

---
 src/gaussian_elimination_sle_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index daf1422..daa9ac4 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -32,10 +32,10 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     assert(right.getHeight() == m_M.getWidth());
 
-    if (n == 0 || m == 0) return true;
-
     result->resize(1, m);
 
+    if (n == 0 || m == 0) return true;
+
     Matrix &A = m_a;
     A.resize(n, m);
 
-- 
2.43.0


From 4c11252c1d9800277d899cea584cce21052de75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 10/25] fix: do not accelerate constrained bodies that are not
 in the system

---
 src/generic_rigid_body_system.cpp       | 3 +++
 src/optimized_nsv_rigid_body_system.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 777d9d2..e28f440 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -235,6 +235,9 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
diff --git a/src/optimized_nsv_rigid_body_system.cpp b/src/optimized_nsv_rigid_body_system.cpp
index bdd1a1b..4805b2a 100644
--- a/src/optimized_nsv_rigid_body_system.cpp
+++ b/src/optimized_nsv_rigid_body_system.cpp
@@ -250,6 +250,9 @@ void atg_scs::OptimizedNsvRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
-- 
2.43.0


From 02b8add6828064b922093b6498d3461e97954acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 11/25] fix: clear the empty blocks of a scaled sparse matrix

---
 include/sparse_matrix.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 6a11ff6..e45d894 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -224,7 +224,10 @@ namespace atg_scs {
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
                         const int index = m_blockData[i * T_Entries + j];
-                        if (index == -1) continue;
+                        if (index == -1) {
+                            target->setEmpty(i, j);
+                            continue;
+                        }
 
                         target->setBlock(i, j, index);
 
@@ -248,7 +251,10 @@ namespace atg_scs {
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
                         const int index = m_blockData[i * T_Entries + j];
-                        if (index == -1) continue;
+                        if (index == -1) {
+                            target->setEmpty(i, j);
+                            continue;
+                        }
 
                         target->setBlock(i, j, index);
 
-- 
2.43.0


From 83135f1a9ecd7bdb81c53935ef0d2c5d96acb472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 12/25] fix: apply a spring's force only to its bodies that are
 in the system

---
 src/spring.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/spring.cpp b/src/spring.cpp
index e820e46..d6cccca 100644
--- a/src/spring.cpp
+++ b/src/spring.cpp
@@ -62,21 +62,25 @@ void atg_scs::Spring::apply(SystemState *state) {
     const double v = dx * rel_v_x + dy * rel_v_y;
     const double x = l - m_restLength;
 
-    state->applyForce(
-        m_p1_x,
-        m_p1_y,
-        dx * x * m_ks + rel_v_x * m_kd,
-        dy * x * m_ks + rel_v_y * m_kd,
-        m_body1->index
-    );
-
-    state->applyForce(
-        m_p2_x,
-        m_p2_y,
-        -dx * x * m_ks - rel_v_x * m_kd,
-        -dy * x * m_ks - rel_v_y * m_kd,
-        m_body2->index
-    );
+    if (m_body1->index != -1) {
+        state->applyForce(
+            m_p1_x,
+            m_p1_y,
+            dx * x * m_ks + rel_v_x * m_kd,
+            dy * x * m_ks + rel_v_y * m_kd,
+            m_body1->index
+        );
+    }
+
+    if (m_body2->index != -1) {
+        state->applyForce(
+            m_p2_x,
+            m_p2_y,
+            -dx * x * m_ks - rel_v_x * m_kd,
+            -dy * x * m_ks - rel_v_y * m_kd,
+            m_body2->index
+        );
+    }
 }
 
 void atg_scs::Spring::getEnds(double *x_1, double *y_1, double *x_2, double *y_2) {
-- 
2.43.0


From bff99a022bc9c3ad3f791c132bb655ace88d1e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 13/25] fix: ignore a static force whose body is not in the
 system

---
 src/static_force_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/static_force_generator.cpp b/src/static_force_generator.cpp
index 1d238cb..707331d 100644
--- a/src/static_force_generator.cpp
+++ b/src/static_force_generator.cpp
@@ -14,6 +14,8 @@ atg_scs::StaticForceGenerator::~StaticForceGenerator() {
 }
 
 void atg_scs::StaticForceGenerator::apply(SystemState *state) {
+    if (m_body->index == -1) return;
+
     state->applyForce(
         m_p_x,
         m_p_y,
-- 
2.43.0


From e021009d19ad82ede3d9b29d0139792ae08e86d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 14/25] fix: let either body of a constant speed motor be
 outside the system

---
 src/constant_speed_motor.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/constant_speed_motor.cpp b/src/constant_speed_motor.cpp
index dd775a3..246a6a2 100644
--- a/src/constant_speed_motor.cpp
+++ b/src/constant_speed_motor.cpp
@@ -19,6 +19,8 @@ atg_scs::ConstantSpeedMotor::~ConstantSpeedMotor() {
 void atg_scs::ConstantSpeedMotor::apply(SystemState *state) {
     double v1;
     double a1;
+    double v2;
+    double a2;
 
     if (m_body0->index == -1) {
         v1 = a1 = 0;
@@ -28,10 +30,16 @@ void atg_scs::ConstantSpeedMotor::apply(SystemState *state) {
         a1 = state->a_theta[m_body0->index];
     }
 
-    const double rel_v =
-        state->v_theta[m_body1->index] - v1;
-    const double rel_a =
-        state->a_theta[m_body1->index] - a1;
+    if (m_body1->index == -1) {
+        v2 = a2 = 0;
+    }
+    else {
+        v2 = state->v_theta[m_body1->index];
+        a2 = state->a_theta[m_body1->index];
+    }
+
+    const double rel_v = v2 - v1;
+    const double rel_a = a2 - a1;
     const double delta = m_speed - rel_v;
 
     const double torque = delta * m_ks;
@@ -41,5 +49,5 @@ void atg_scs::ConstantSpeedMotor::apply(SystemState *state) {
         std::fmin(m_maxTorque, std::fmax(-m_maxTorque, totalTorque));
 
     if (m_body0->index != -1) state->t[m_body0->index] -= limitedTorque;
-    state->t[m_body1->index] += limitedTorque;
+    if (m_body1->index != -1) state->t[m_body1->index] += limitedTorque;
 }
-- 
2.43.0


From 187507b66692799779ae37b9cec7e77a5f482781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 15/25] fix: mark bodies removed from a system as not
 registered

---
 src/rigid_body_system.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rigid_body_system.cpp b/src/rigid_body_system.cpp
index b32c5f3..bad027e 100644
--- a/src/rigid_body_system.cpp
+++ b/src/rigid_body_system.cpp
@@ -29,6 +29,10 @@ atg_scs::RigidBodySystem::~RigidBodySystem() {
 }
 
 void atg_scs::RigidBodySystem::reset() {
+    for (RigidBody *body : m_rigidBodies) {
+        body->index = -1;
+    }
+
     m_rigidBodies.clear();
     m_constraints.clear();
     m_forceGenerators.clear();
@@ -47,6 +51,8 @@ void atg_scs::RigidBodySystem::removeRigidBody(RigidBody *body) {
     m_rigidBodies[body->index] = m_rigidBodies.back();
     m_rigidBodies[body->index]->index = body->index;
     m_rigidBodies.resize(m_rigidBodies.size() - 1);
+
+    body->index = -1;
 }
 
 atg_scs::RigidBody *atg_scs::RigidBodySystem::getRigidBody(int i) {
-- 
2.43.0


From c5a96b1035d1627b2d2affab21ebcf5ae3fc90a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 16/25] fix: do not report success of the conjugate gradient
 solver on NaN residuals

---
 src/conjugate_gradient_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 3e14dca..543f582 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -95,7 +95,7 @@ bool atg_scs::ConjugateGradientSleSolver::sufficientlySmall(
     for (int i = 0; i < x.getHeight(); ++i) {
         const double err = x.get(0, i);
         const double t = target.get(0, i);
-        if (std::abs(err) > std::fmax(std::abs(m_maxError * t), m_minError)) {
+        if (!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))) {
             return false;
         }
     }
-- 
2.43.0


From 37d4c393e3cef29224fc37691e42c0f28d339c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 17/25] fix: clear all body pointers of a new constraint

---
 src/constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constraint.cpp b/src/constraint.cpp
index e7549f3..765332a 100644
--- a/src/constraint.cpp
+++ b/src/constraint.cpp
@@ -12,7 +12,7 @@ atg_scs::Constraint::Constraint(int constraintCount, int bodyCount) {
 
     m_index = -1;
 
-    memset(m_bodies, 0, sizeof(int) * MaxBodyCount);
+    memset(m_bodies, 0, sizeof(RigidBody *) * MaxBodyCount);
 
     for (int i = 0; i < MaxConstraintCount; ++i) {
         for (int j = 0; j < MaxBodyCount; ++j) {
-- 
2.43.0


From 247432567672c58bc9856c8022f3f650938921fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 18/25] fix: respect swapped rows in Matrix::set, dot and
 vectorMagnitudeSquared

---
 src/matrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 27de101..16f2f17 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -79,7 +79,9 @@ void atg_scs::Matrix::destroy() {
 }
 
 void atg_scs::Matrix::set(const double *data) {
-    memcpy(m_data, data, sizeof(double) * m_width * m_height);
+    for (int i = 0; i < m_height; ++i) {
+        memcpy(m_matrix[i], &data[i * m_width], sizeof(double) * m_width);
+    }
 }
 
 void atg_scs::Matrix::set(Matrix *reference) {
@@ -231,7 +233,7 @@ double atg_scs::Matrix::vectorMagnitudeSquared() const {
 
     double mag = 0;
     for (int i = 0; i < m_height; ++i) {
-        mag += m_matrix[0][i] * m_matrix[0][i];
+        mag += m_matrix[i][0] * m_matrix[i][0];
     }
 
     return mag;
@@ -244,7 +246,7 @@ double atg_scs::Matrix::dot(Matrix &b) const {
 
     double result = 0;
     for (int i = 0; i < m_height; ++i) {
-        result += m_matrix[0][i] * b.m_matrix[0][i];
+        result += m_matrix[i][0] * b.m_matrix[i][0];
     }
 
     return result;
-- 
2.43.0


From b32a93a93cf60c3afc972004422571218c4eb5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 19/25] fix: read the pose of a linked or rolling contact body
 that is not in the system from the body

---
 src/link_constraint.cpp    | 19 +++++++++++--------
 src/rolling_constraint.cpp | 25 ++++++++++++++-----------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/link_constraint.cpp b/src/link_constraint.cpp
index 7c2839c..e8e7f5f 100644
--- a/src/link_constraint.cpp
+++ b/src/link_constraint.cpp
@@ -21,16 +21,19 @@ void atg_scs::LinkConstraint::calculate(
     const int body = m_bodies[0]->index;
     const int linkedBody = m_bodies[1]->index;
 
-    const double q1 = state->p_x[body];
-    const double q2 = state->p_y[body];
-    const double q3 = state->theta[body];
+    const bool fixed0 = (body == -1);
+    const bool fixed1 = (linkedBody == -1);
 
-    const double q4 = state->p_x[linkedBody];
-    const double q5 = state->p_y[linkedBody];
-    const double q6 = state->theta[linkedBody];
+    const double q1 = fixed0 ? m_bodies[0]->p_x : state->p_x[body];
+    const double q2 = fixed0 ? m_bodies[0]->p_y : state->p_y[body];
+    const double q3 = fixed0 ? m_bodies[0]->theta : state->theta[body];
 
-    const double q3_dot = state->v_theta[body];
-    const double q6_dot = state->v_theta[linkedBody];
+    const double q4 = fixed1 ? m_bodies[1]->p_x : state->p_x[linkedBody];
+    const double q5 = fixed1 ? m_bodies[1]->p_y : state->p_y[linkedBody];
+    const double q6 = fixed1 ? m_bodies[1]->theta : state->theta[linkedBody];
+
+    const double q3_dot = fixed0 ? 0.0 : state->v_theta[body];
+    const double q6_dot = fixed1 ? 0.0 : state->v_theta[linkedBody];
 
     const double cos_q3 = std::cos(q3);
     const double sin_q3 = std::sin(q3);
diff --git a/src/rolling_constraint.cpp b/src/rolling_constraint.cpp
index 9b37019..95783b3 100644
--- a/src/rolling_constraint.cpp
+++ b/src/rolling_constraint.cpp
@@ -21,20 +21,23 @@ void atg_scs::RollingConstraint::calculate(
     const int baseBody = m_bodies[0]->index;
     const int rollingBody = m_bodies[1]->index;
 
-    const double q1 = state->p_x[baseBody];
-    const double q2 = state->p_y[baseBody];
-    const double q3 = state->theta[baseBody];
+    const bool fixed0 = (baseBody == -1);
+    const bool fixed1 = (rollingBody == -1);
 
-    const double q4 = state->p_x[rollingBody];
-    const double q5 = state->p_y[rollingBody];
-    const double q6 = state->theta[rollingBody];
+    const double q1 = fixed0 ? m_bodies[0]->p_x : state->p_x[baseBody];
+    const double q2 = fixed0 ? m_bodies[0]->p_y : state->p_y[baseBody];
+    const double q3 = fixed0 ? m_bodies[0]->theta : state->theta[baseBody];
 
-    const double q1_dot = state->v_x[baseBody];
-    const double q2_dot = state->v_y[baseBody];
-    const double q3_dot = state->v_theta[baseBody];
+    const double q4 = fixed1 ? m_bodies[1]->p_x : state->p_x[rollingBody];
+    const double q5 = fixed1 ? m_bodies[1]->p_y : state->p_y[rollingBody];
+    const double q6 = fixed1 ? m_bodies[1]->theta : state->theta[rollingBody];
 
-    const double q4_dot = state->v_x[rollingBody];
-    const double q5_dot = state->v_y[rollingBody];
+    const double q1_dot = fixed0 ? 0.0 : state->v_x[baseBody];
+    const double q2_dot = fixed0 ? 0.0 : state->v_y[baseBody];
+    const double q3_dot = fixed0 ? 0.0 : state->v_theta[baseBody];
+
+    const double q4_dot = fixed1 ? 0.0 : state->v_x[rollingBody];
+    const double q5_dot = fixed1 ? 0.0 : state->v_y[rollingBody];
 
     const double cos_q3 = std::cos(q3);
     const double sin_q3 = std::sin(q3);
-- 
2.43.0


From 724baa7e0b0f1f2c754420e9a1b33dcbcebfb852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 20/25] fix: make the rolling relation hold for any radius and
 a turning base

---
 src/rolling_constraint.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rolling_constraint.cpp b/src/rolling_constraint.cpp
index 95783b3..42c4345 100644
--- a/src/rolling_constraint.cpp
+++ b/src/rolling_constraint.cpp
@@ -63,7 +63,7 @@ void atg_scs::RollingConstraint::calculate(
 
     const double s = delta_x * dx + delta_y * dy;
 
-    const double C0 = -q6 - s * m_radius;
+    const double C0 = -m_radius * (q6 - q3) - s;
     const double C1 = m_radius - (perp_x * delta_x + perp_y * delta_y);
 
     const double d_origin_x_dq3 = -sin_q3 * m_local_x - cos_q3 * m_local_y;
@@ -103,9 +103,9 @@ void atg_scs::RollingConstraint::calculate(
         (d_delta_y_dq3_dot * dy + d_delta_y_dq3 * dy_dot) +
         (delta_y_dot * d_dy_dq3 + delta_y * d_dy_dq3_dot);
 
-    output->J[0][0] = -ds_dq1 * m_radius;
-    output->J[0][1] = -ds_dq2 * m_radius;
-    output->J[0][2] = -ds_dq3 * m_radius;
+    output->J[0][0] = -ds_dq1;
+    output->J[0][1] = -ds_dq2;
+    output->J[0][2] = m_radius - ds_dq3;
 
     // C1 = m_radius + dy * delta_x - dx * delta_y
     output->J[1][0] = dy * d_delta_x_dq1;
@@ -114,17 +114,17 @@ void atg_scs::RollingConstraint::calculate(
         (d_dy_dq3 * delta_x + dy * d_delta_x_dq3) -
         (d_dx_dq3 * delta_y + dx * d_delta_y_dq3);
 
-    output->J[0][3] = -1 * dx * m_radius;
-    output->J[0][4] = -1 * dy * m_radius;
-    output->J[0][5] = -1;
+    output->J[0][3] = -1 * dx;
+    output->J[0][4] = -1 * dy;
+    output->J[0][5] = -m_radius;
 
     output->J[1][3] = dy * d_delta_x_dq4;
     output->J[1][4] = -dx * d_delta_y_dq5;
     output->J[1][5] = 0;
 
-    output->J_dot[0][0] = -ds_dq1_dot * m_radius;
-    output->J_dot[0][1] = -ds_dq2_dot * m_radius;
-    output->J_dot[0][2] = -ds_dq3_dot * m_radius;
+    output->J_dot[0][0] = -ds_dq1_dot;
+    output->J_dot[0][1] = -ds_dq2_dot;
+    output->J_dot[0][2] = -ds_dq3_dot;
 
     output->J_dot[1][0] = dy_dot * d_delta_x_dq1;
     output->J_dot[1][1] = -dx_dot * d_delta_y_dq2;
@@ -134,8 +134,8 @@ void atg_scs::RollingConstraint::calculate(
         (d_dx_dq3_dot * delta_y + d_dx_dq3 * delta_y_dot) -
         (dx_dot * d_delta_y_dq3 + dx * d_delta_y_dq3_dot);
 
-    output->J_dot[0][3] = -1 * dx_dot * m_radius;
-    output->J_dot[0][4] = -1 * dy_dot * m_radius;
+    output->J_dot[0][3] = -1 * dx_dot;
+    output->J_dot[0][4] = -1 * dy_dot;
     output->J_dot[0][5] = 0;
 
     output->J_dot[1][3] = dy_dot * d_delta_x_dq4;
-- 
2.43.0


From 9b5a0d921cf715834d555b23f5481585dda152fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 21/25] fix: accept an empty previous solution in the conjugate
 gradient solver

---
 src/conjugate_gradient_sle_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 543f582..d3dd6f0 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -34,7 +34,10 @@ bool atg_scs::ConjugateGradientSleSolver::solve(
     m_Ap.resize(1, n);
     m_x.initialize(1, n);
 
-    if (previous != nullptr && previous->getHeight() == n) {
+    if (previous != nullptr
+        && previous->getWidth() == 1
+        && previous->getHeight() == n)
+    {
         m_x.set(previous);
     }
 
-- 
2.43.0


From 3eb79d20bdc7bd0efef85c6055236245990334e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 22/25] fix: do not report success of the unlimited
 Gauss-Seidel solver on NaN

---
 src/gauss_seidel_sle_solver.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index a21a2e3..38271a2 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -111,9 +111,8 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
         const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
-        maxDifference = (delta > maxDifference)
-            ? delta
-            : maxDifference;
+        if (std::isnan(delta)) maxDifference = HUGE_VAL;
+        else if (delta > maxDifference) maxDifference = delta;
 
         k_next->set(0, i, k_next_i);
     }
-- 
2.43.0


From e45a6e96811480a6cfde56e6c84f21f12f509703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:30 +0000
Subject: [PATCH 23/25] fix: judge conjugate gradient success by the true
 residual

---
 src/conjugate_gradient_sle_solver.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index d3dd6f0..c2b9728 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -62,7 +62,17 @@ bool atg_scs::ConjugateGradientSleSolver::solve(
         m_r.madd(m_Ap, -alpha);
 
         if (sufficientlySmall(m_r, right)) {
-            goto succeeded;
+            // The updated residual drifts, only the residual itself counts
+            multiply(J, W, m_x, &m_Ap);
+            m_r.set(&right);
+            m_r.madd(m_Ap, -1);
+
+            if (sufficientlySmall(m_r, right)) {
+                goto succeeded;
+            }
+
+            m_p.set(&m_r);
+            continue;
         }
 
         const double rk1_mag = m_r.vectorMagnitudeSquared();
-- 
2.43.0


From 0225d6110437e7e5d8d7d94cabed2e44a2fd2969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 24/25] fix: scaling a sparse matrix with other than two blocks
 per row overruns the target

---
 include/sparse_matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index e45d894..d33094d 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -215,7 +215,7 @@ namespace atg_scs {
                 }
             }
 
-            void rightScale(Matrix &scale, SparseMatrix<T_Stride> *target) {
+            void rightScale(Matrix &scale, SparseMatrix<T_Stride, T_Entries> *target) {
                 assert(scale.getWidth() == 1);
                 assert(scale.getHeight() == m_width);
 
@@ -242,7 +242,7 @@ namespace atg_scs {
                 }
             }
 
-            void leftScale(Matrix &scale, SparseMatrix<T_Stride> *target) {
+            void leftScale(Matrix &scale, SparseMatrix<T_Stride, T_Entries> *target) {
                 assert(scale.getWidth() == 1 || m_height == 0);
                 assert(scale.getHeight() == m_height);
 
-- 
2.43.0


From a6dfdeff6fe374d4cc6aa6ee747d395e1763fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 25/25] fix: Gauss-Seidel without a usable previous solution
 starts from the result matrix's old contents

---
 src/gauss_seidel_sle_solver.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 38271a2..cf2085f 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -25,13 +25,12 @@ bool atg_scs::GaussSeidelSleSolver::solve(
         Matrix *result)
 {
     const int n = right.getHeight();
-    if (result->getHeight() != n) {
-        result->initialize(1, n);
-    }
-
     if (previous != nullptr && previous->getHeight() == n) {
         result->set(previous);
     }
+    else {
+        result->initialize(1, n);
+    }
 
     J.rightScale(W, &m_reg);
     m_reg.multiplyTranspose(J, &m_M);
@@ -60,13 +59,12 @@ bool atg_scs::GaussSeidelSleSolver::solveWithLimits(
     Matrix *previous)
 {
     const int n = right.getHeight();
-    if (result->getHeight() != n) {
-        result->initialize(1, n);
-    }
-
     if (previous != nullptr && previous->getHeight() == n) {
         result->set(previous);
     }
+    else {
+        result->initialize(1, n);
+    }
 
     J.rightScale(W, &m_reg);
     m_reg.multiplyTranspose(J, &m_M);
-- 
2.43.0

