From 2d8e0a3c54c62f1b3e718a28deea24ce2b45c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:23 +0000
Subject: [PATCH 01/28] fix: reduce both tangential components by the same
 factor in 3D plate friction

The second component was computed from the already reduced first one, so the
tangential velocity was rotated and its magnitude did not obey Coulomb's law.
---
 src/simulation/boundary_collision.cpp | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/simulation/boundary_collision.cpp b/src/simulation/boundary_collision.cpp
index 227815e..0390792 100644
--- a/src/simulation/boundary_collision.cpp
+++ b/src/simulation/boundary_collision.cpp
@@ -114,8 +114,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        T reduction = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= reduction;
+                        vz_rel *= reduction;
                     }
 
                     // normal component (y) must be set to zero
@@ -136,8 +137,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        T reduction = (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= reduction;
+                        vz_rel *= reduction;
                     }
 
                     // normal component (x) must be set to zero
@@ -158,8 +160,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        T reduction = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= reduction;
+                        vy_rel *= reduction;
                     }
 
                     // normal component (z) must be set to zero
@@ -189,8 +192,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        T reduction = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= reduction;
+                        vz_rel *= reduction;
                     }
 
                     // normal component (y) must be set to zero
@@ -210,8 +214,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        T reduction = (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= reduction;
+                        vz_rel *= reduction;
                     }
 
                     // normal component (x) must be set to zero
@@ -231,8 +236,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        T reduction = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= reduction;
+                        vy_rel *= reduction;
                     }
 
                     // normal component (z) must be set to zero
-- 
2.43.0


From 4157ecd1cba3372bd46ff3c2a6759a69dd5bb988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:11 +0000
Subject: [PATCH 02/28] fix: expand the grid when a particle has moved by a
 whole number of cells

The tolerance had the wrong sign in the expansion branches: a particle exactly
n cells beyond the initial extent got a grid expanded by n-1 cells only, and
its stencil reached outside the allocated nodes.
---
 src/simulation/remesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simulation/remesh.cpp b/src/simulation/remesh.cpp
index a1fd82f..d615bb7 100644
--- a/src/simulation/remesh.cpp
+++ b/src/simulation/remesh.cpp
@@ -230,7 +230,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_x_init-max_x)/dx - 1e-8*dx) );
         high_x = high_x_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx + 1e-8) );
         high_x = high_x_init + expansion_factor * dx;
     }
 
@@ -239,7 +239,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_x-min_x_init)/dx - 1e-8*dx) );
         low_x = low_x_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx + 1e-8) );
         low_x = low_x_init - expansion_factor * dx;
     }
 
@@ -248,7 +248,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_y_init-max_y)/dx - 1e-8*dx) );
         high_y = high_y_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx + 1e-8) );
         high_y = high_y_init + expansion_factor * dx;
     }
 
@@ -257,7 +257,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_y-min_y_init)/dx - 1e-8*dx) );
         low_y = low_y_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx + 1e-8) );
         low_y = low_y_init - expansion_factor * dx;
     }
 #ifdef THREEDIM
@@ -266,7 +266,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_z_init-max_z)/dx - 1e-8*dx) );
         high_z = high_z_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx + 1e-8) );
         high_z = high_z_init + expansion_factor * dx;
     }
 
@@ -275,7 +275,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_z-min_z_init)/dx - 1e-8*dx) );
         low_z = low_z_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx + 1e-8) );
         low_z = low_z_init - expansion_factor * dx;
     }
 #endif
-- 
2.43.0


From b241ae9979bc2501a395a4b06a9290a593cf7f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 03/28] fix: give periodic ghost particles the friction of the
 particle they copy

P2G reads muI of every particle when use_mibf is set, but the ghosts had none:
it was read beyond the end of the vector.
---
 src/simulation/pbc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 0795fd8..a6470ea 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -17,6 +17,7 @@ void Simulation::PBCAddParticles1D(){
         particles.F.push_back(particles.F[p]);
         particles.Bmat.push_back(particles.Bmat[p]);
         particles.tau.push_back(particles.tau[p]);
+        particles.muI.push_back(particles.muI[p]);
         num_add_pbc_particles++;
 
         particles.x.push_back(part_x-incr);
@@ -24,6 +25,7 @@ void Simulation::PBCAddParticles1D(){
         particles.F.push_back(particles.F[p]);
         particles.Bmat.push_back(particles.Bmat[p]);
         particles.tau.push_back(particles.tau[p]);
+        particles.muI.push_back(particles.muI[p]);
         num_add_pbc_particles++;
 
     } // end loop over p
@@ -56,6 +58,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
                 particles.F.push_back(particles.F[p]);
                 particles.Bmat.push_back(particles.Bmat[p]);
                 particles.tau.push_back(particles.tau[p]);
+                particles.muI.push_back(particles.muI[p]);
             }
             num_add_pbc_particles++;
             continue; // go directly to next p
@@ -71,6 +74,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
                 particles.F.push_back(particles.F[p]);
                 particles.Bmat.push_back(particles.Bmat[p]);
                 particles.tau.push_back(particles.tau[p]);
+                particles.muI.push_back(particles.muI[p]);
             }
             num_add_pbc_particles++;
             continue; // go directly to next p
@@ -97,6 +101,7 @@ void Simulation::PBCDelParticles(){
     particles.F.erase(   particles.F.end()   -num_add_pbc_particles, particles.F.end()   );
     particles.Bmat.erase(particles.Bmat.end()-num_add_pbc_particles, particles.Bmat.end());
     particles.tau.erase( particles.tau.end() -num_add_pbc_particles, particles.tau.end() );
+    particles.muI.erase( particles.muI.end() -num_add_pbc_particles, particles.muI.end() );
     Np = particles.x.size();
 
 #ifdef WARNINGS
-- 
2.43.0


From 325351acb8b6f301ff0b95d9450c96cef355c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:18 +0000
Subject: [PATCH 04/28] fix: include the periodic images in the second transfer
 of MUSL

The nodal mass contains the ghost particles but the re-transferred momentum did
not, so velocities next to a periodic boundary were too small.
---
 src/simulation/musl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simulation/musl.cpp b/src/simulation/musl.cpp
index 5ab5e98..2287105 100644
--- a/src/simulation/musl.cpp
+++ b/src/simulation/musl.cpp
@@ -24,6 +24,9 @@ void Simulation::MUSL(){
 
     } // end loop over particles
 
+    // The transfer below must include the periodic images, as in P2G
+    if (pbc)
+        PBCAddParticles(4);
 
     std::fill( grid.v.begin(), grid.v.end(), TV::Zero() );
 
@@ -87,6 +90,8 @@ void Simulation::MUSL(){
 
     } // end omp parallel
 
+    if (pbc)
+        PBCDelParticles();
 
     for (int l = 0; l<grid_nodes; l++){
         T mi = grid.mass[l];
-- 
2.43.0


From 8667044f4988f9bf02c7e2d82afd61900802e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:52 +0000
Subject: [PATCH 05/28] fix: create the periodic image of a particle exactly at
 x = Lx

positionUpdate leaves such a particle where it is, and it had no ghost on the
other side of the boundary.
---
 src/simulation/pbc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index a6470ea..3d4e8f4 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -49,7 +49,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         T diff;
 
         diff = Lx - part_x(0);
-        if ( diff < safety_factor*dx && diff > 0){
+        if ( diff < safety_factor*dx && diff >= 0){
             part_x(0) = -diff;
             #pragma omp critical
             {
-- 
2.43.0


From 9aa8d0d89a25d9f09f2264c547e6fa569ad0aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 06/28] fix: cover the stencil of a periodic image at rounding
 distance of its range

A ghost at Lx + 4 dx - eps can round to Lx + 4 dx when its base node is
computed; its stencil then reached one node beyond the end of the grid.
---
 src/simulation/remesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/remesh.cpp b/src/simulation/remesh.cpp
index d615bb7..efa1d0f 100644
--- a/src/simulation/remesh.cpp
+++ b/src/simulation/remesh.cpp
@@ -14,7 +14,7 @@ void Simulation::resizeGrid(){
 // A fixed grid - must hard-coded for every simulation
 void Simulation::remeshFixed(unsigned int extra_nodes){
 
-    grid.x = arange(-dx*(1+extra_nodes), Lx+(2+extra_nodes)*dx, dx);
+    grid.x = arange(-dx*(1+extra_nodes), Lx+(3+extra_nodes)*dx, dx);
     grid.y = arange(-dx,                 Ly+(2+extra_nodes)*dx, dx);
     #ifdef THREEDIM
         grid.z = arange(-dx*(1+extra_nodes), Lz+(2+extra_nodes)*dx, dx);
-- 
2.43.0


From dc12369d2d4c15229c3a8dd1c967f5a793e18420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:51 +0000
Subject: [PATCH 07/28] fix: use the q-dependent shear prefactor in the
 implicit Cam-Clay return mappings

---
 src/simulation/plasticity.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 21f9e1f..78f01c6 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -480,11 +480,11 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 // perform_rma = MCCRMAExplicitOnevar(p_stress, q_stress, exit, mu_1, p_c, beta, mu, K);
             }
             else if (hardening_law == HardeningLaw::ExpoImpl){ // Exponential Implicit Hardening
-                   perform_rma = MCCRMAImplicitExponentialOnevar(p_stress, q_stress, exit, mu_1, p0, beta, mu, K, xi, particles.eps_pl_vol[p]);
+                   perform_rma = MCCRMAImplicitExponentialOnevar(p_stress, q_stress, exit, mu_1, p0, beta, f_mu_prefac, K, xi, particles.eps_pl_vol[p]);
                 // perform_rma =       MCCRMAImplicitExponential(p_stress, q_stress, exit, mu_1, p0, beta, mu, K, xi, f_mu_prefac, particles.eps_pl_vol[p]);
             }
             else if (hardening_law == HardeningLaw::SinhImpl) {
-                   perform_rma = MCCRMAImplicitSinhOnevar(p_stress, q_stress, exit, mu_1, p0, beta, mu, K, xi, particles.eps_pl_vol[p]);
+                   perform_rma = MCCRMAImplicitSinhOnevar(p_stress, q_stress, exit, mu_1, p0, beta, f_mu_prefac, K, xi, particles.eps_pl_vol[p]);
                 // perform_rma = <no alternative at the moment>
             }
             else{
@@ -568,11 +568,11 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 // perform_rma = MCCRMAExplicitOnevar(p_stress, q_stress, exit, M, p_c, beta, mu, K);
             }
             else if (hardening_law == HardeningLaw::ExpoImpl){ // Exponential Implicit Hardening
-                   perform_rma = MCCRMAImplicitExponentialOnevar(p_stress, q_stress, exit, M, p0, beta, mu, K, xi, particles.eps_pl_vol[p]);
+                   perform_rma = MCCRMAImplicitExponentialOnevar(p_stress, q_stress, exit, M, p0, beta, f_mu_prefac, K, xi, particles.eps_pl_vol[p]);
                 // perform_rma =       MCCRMAImplicitExponential(p_stress, q_stress, exit, M, p0, beta, mu, K, xi, f_mu_prefac, particles.eps_pl_vol[p]);
             }
             else if (hardening_law == HardeningLaw::SinhImpl) {
-                perform_rma = MCCRMAImplicitSinhOnevar(p_stress, q_stress, exit, M, p0, beta, mu, K, xi, particles.eps_pl_vol[p]);
+                perform_rma = MCCRMAImplicitSinhOnevar(p_stress, q_stress, exit, M, p0, beta, f_mu_prefac, K, xi, particles.eps_pl_vol[p]);
             }
             else{
                 debug("You specified an invalid HARDENING LAW!");
-- 
2.43.0


From feed00ec174ab3a8eef0dd863e239da05c754631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:04 +0000
Subject: [PATCH 08/28] fix: make the stress zero, as the strain, beyond the
 cap of VMVisc

---
 src/simulation/plasticity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 78f01c6..f88e994 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -188,6 +188,8 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (p_trial < p_min * exp(-xi * particles.eps_pl_vol[p])){
                 T delta_gamma = q_trial / f_mu_prefac;
                 T eps_pl_vol_inst = -p_trial/K;
+                plastic_count++;
+                hencky.setZero(); // stress free
                 particles.F[p] = svd.matrixU() * svd.matrixV().transpose();
                 particles.eps_pl_vol[p] += eps_pl_vol_inst;
                 particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;
-- 
2.43.0


From 62f3b4785c4aeef54939d37e813c621e7c06c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:43 +0000
Subject: [PATCH 09/28] fix: return a trial state exactly at the tip to the tip
 in DPVisc and DPMui

---
 src/simulation/plasticity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index f88e994..f0f29e8 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -293,7 +293,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
 
             // if left of shifted tip,
             // => project to the original tip given by cohesion only (i.e., not the shifted tip)
-            if ((p_trial+p_shift) < p_tip){
+            if ((p_trial+p_shift) <= p_tip){
                 T delta_gamma     = d_prefac * hencky_deviatoric_norm;
                 T p_proj          = p_tip; // > p_trial
                 T eps_pl_vol_inst = (p_proj-p_trial)/K; // this can be both positive and negative when using Pradhana!
@@ -412,7 +412,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
 
             // if left of shifted tip,
             // => project to the original tip given by cohesion only (i.e., not the shifted tip)
-            if ((p_trial+p_shift) < p_tip){
+            if ((p_trial+p_shift) <= p_tip){
                 T delta_gamma     = d_prefac * hencky_deviatoric_norm;
                 T eps_pl_vol_inst = (p_tip-p_trial)/K;
                 plastic_count++;
-- 
2.43.0


From 72f87f9c503818845ef629af659d205fdb12a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:14 +0000
Subject: [PATCH 10/28] fix: keep p on the yield surface when the implicit
 Cam-Clay return stops at its centre (NaN stress)

---
 src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp | 2 ++
 src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
index 46c948f..dc67975 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
@@ -68,6 +68,8 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < 1e-4) {
             // if p == midpoint then we map q to top of yield surface since no plastic change
+            // (a yield surface smaller than the tolerance does not contain p: keep p on it)
+            p = std::min(std::max(p, -beta * p0), p0);
             q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
             
             // rescale values
diff --git a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
index 3a3fea3..1068b85 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
@@ -63,6 +63,8 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < T(1.e-4)) {
             // if p_t == midpoint then we map q to top of yield surface since no plastic change
+            // (a yield surface smaller than the tolerance does not contain p: keep p on it)
+            p = std::min(std::max(p, -beta * p0), p0);
             q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
 
             // rescale values
-- 
2.43.0


From 8045d76b44ea0e8cb9e8db8df7764347a85cffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:14 +0000
Subject: [PATCH 11/28] fix: scale the mu(I) term of DPMui with the pressure
 measured from the tip

---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index f0f29e8..7540364 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -438,7 +438,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 T p_special = p_trial+p_shift - p_tip + stress_tolerance; // p_special is positive.
 
                 T fac_a = f_mu_prefac * dt; // always positive
-                T fac_b = p_trial*(mu_2-mu_1) + f_mu_prefac*dt*fac_Q*std::sqrt(p_special) - (q_trial-q_yield);
+                T fac_b = p_special*(mu_2-mu_1) + f_mu_prefac*dt*fac_Q*std::sqrt(p_special) - (q_trial-q_yield);
                 T fac_c = -(q_trial-q_yield) * fac_Q * std::sqrt(p_special); // always negative 
 
                 // this is gamma_dot:
-- 
2.43.0


From 173b35059d7b6d5b6eb8c96d0ddd6dd149782af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:14 +0000
Subject: [PATCH 12/28] fix: do not stop MCCVisc on a rounding-sized negative
 plastic increment

---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 7540364..1109902 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -597,7 +597,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     }
                     else{ // perzyna
                         T delta_gamma;
-                        T q_yield = q_stress;
+                        T q_yield = std::min(q_stress, q_trial); // the return mapping is iterative and may end slightly above q_trial
 
                         if (visc_exponent == 1){
                             delta_gamma = (q_trial-q_yield) / (f_mu_prefac + q_yield*visc_time/dt);
-- 
2.43.0


From 37ce105fc6a560e5ff2ba0a36d221b19d56e3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:14 +0000
Subject: [PATCH 13/28] fix: keep the pressure in the MCCMui relation positive
 at the tip (NaN friction)

---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 1109902..87eec59 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -512,7 +512,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     else if (hardening_law == HardeningLaw::SinhImpl){
                         p_c = std::max( K * std::sinh(-xi*particles.eps_pl_vol[p] + std::asinh(p0/K)) , p_stress + stress_tolerance );
                     }
-                    T p_special = p_stress + beta * p_c + stress_tolerance; // always larger than 0
+                    T p_special = std::max(p_stress + beta * p_c, T(0)) + stress_tolerance; // always larger than 0, also when the return mapping ends slightly beyond the tip
 
                     T fac_a = f_mu_prefac * dt; // always positive
 
-- 
2.43.0


From ee8d2bb3a6f76169f2a03ee92a03667cb4aa806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:52 +0000
Subject: [PATCH 14/28] fix: impose the plate's current velocity on the
 material during and after the loading phase

---
 src/objects/object_plate.hpp  | 9 ++++++++-
 src/simulation/simulation.cpp | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/objects/object_plate.hpp b/src/objects/object_plate.hpp
index a01b414..ca60670 100644
--- a/src/objects/object_plate.hpp
+++ b/src/objects/object_plate.hpp
@@ -133,7 +133,8 @@ public:
 #endif
 
 
-  void move(T dt, T frame_dt, T time){
+  // velocity in the step starting at the given time
+  void updateVelocity(T frame_dt, T time){
 
       T factor = (time < load_factor * frame_dt) ? (1.0 / vmin_factor) : 1.0;
       vx_object = vx_object_original * factor;
@@ -142,6 +143,12 @@ public:
       vz_object = vz_object_original * factor;
     #endif
 
+  } // end updateVelocity(frame_dt, time)
+
+  void move(T dt, T frame_dt, T time){
+
+      updateVelocity(frame_dt, time);
+
       if (plate_type == PlateType::left || plate_type == PlateType::right){
           pos_object += dt * vx_object;
           pos_upper  += dt * vy_object;
diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 2e2b745..a6a8a13 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -213,6 +213,9 @@ void Simulation::simulate(){
 void Simulation::advanceStep(){
     updateDt();
 
+    for (auto& obj : plates)
+        obj->updateVelocity(frame_dt, time); // the velocity imposed on the material in this step
+
     if (pbc){
         if (current_time_step == 0)
             remeshFixed(4);
-- 
2.43.0


From 94b6757583cb1f9c1b770db853c907a6482c4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:49 +0000
Subject: [PATCH 15/28] fix: reset the plastic shear rate of particles that
 became elastic also without MUSL

---
 src/simulation/g2p.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 1e6ef21..63c235c 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -15,6 +15,8 @@ void Simulation::G2P(){
     std::fill( particles.pic.begin(),  particles.pic.end(),  TV::Zero() );
     std::fill( particles.flip.begin(), particles.flip.end(), TV::Zero() );
     std::fill( particles.Bmat.begin(), particles.Bmat.end(), TM::Zero() );
+    if (!use_musl) // otherwise done in deformationUpdate
+        std::fill( particles.delta_gamma.begin(), particles.delta_gamma.end(), 0.0 );
 
     #pragma omp parallel num_threads(n_threads)
     {
-- 
2.43.0


From 2c92ca303d24c27dbf369139ad45d9f9b306fb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:50 +0000
Subject: [PATCH 16/28] fix: never let a Cam-Clay return mapping end above the
 trial shear stress (decreasing plastic strain)

---
 src/simulation/plasticity.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 87eec59..717bd9a 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -500,6 +500,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
 
             if (perform_rma){
                 plastic_count++;
+                q_stress = std::min(q_stress, q_trial); // the return mapping is iterative and may end slightly above q_trial
 
                 T ep = p_stress / (K*dim);
                 T eps_pl_vol_inst = hencky_trace + dim * ep;
@@ -583,6 +584,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
 
             if (perform_rma) { // returns true if it performs a return mapping
                 plastic_count++;
+                q_stress = std::min(q_stress, q_trial); // the return mapping is iterative and may end slightly above q_trial
 
                 T b = 1; // must be equal to one unless using duvaut lion formulation
 
@@ -597,7 +599,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     }
                     else{ // perzyna
                         T delta_gamma;
-                        T q_yield = std::min(q_stress, q_trial); // the return mapping is iterative and may end slightly above q_trial
+                        T q_yield = q_stress;
 
                         if (visc_exponent == 1){
                             delta_gamma = (q_trial-q_yield) / (f_mu_prefac + q_yield*visc_time/dt);
-- 
2.43.0


From ea62a6396c68ce89ca79d1dfb13b63ad8b084559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:50 +0000
Subject: [PATCH 17/28] fix: report the plastic shear rate, not the increment,
 at the tip of DPMui

---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 717bd9a..b0b21b2 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -418,7 +418,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 plastic_count++;
                 hencky = -p_tip/(K*dim) * TV::Ones();
                 particles.F[p] = svd.matrixU() * hencky.array().exp().matrix().asDiagonal() * svd.matrixV().transpose();
-                particles.delta_gamma[p]          = delta_gamma;               // NB!
+                particles.delta_gamma[p]          = delta_gamma / dt;
                 particles.eps_pl_dev[p]          += (1.0/d_prefac) * delta_gamma;
                 particles.eps_pl_vol[p]          += eps_pl_vol_inst;
                 particles.eps_pl_vol_pradhana[p] += eps_pl_vol_inst; // can be negative!
-- 
2.43.0


From 71815fa8214c3c8e023bae0d6f963cc04a579aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:12 +0000
Subject: [PATCH 18/28] fix: count the plastic particles of G2P with a
 reduction (data race)

---
 src/simulation/g2p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 63c235c..23e7ec1 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -21,7 +21,7 @@ void Simulation::G2P(){
     #pragma omp parallel num_threads(n_threads)
     {
 
-        #pragma omp for nowait
+        #pragma omp for reduction(+:plastic_count)
         for(int p = 0; p < Np; p++){
             TV xp = particles.x[p];
             TV vp    = TV::Zero();
-- 
2.43.0


From 3f36226b04728d6a830f4219b5a47535f1a1e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:12 +0000
Subject: [PATCH 19/28] fix: add the periodic images in one thread (data race
 while the particle arrays grow)

---
 src/simulation/pbc.cpp | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 3d4e8f4..2bbcf2f 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -42,7 +42,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
 
     num_add_pbc_particles = 0;
 
-    #pragma omp parallel for reduction(+:num_add_pbc_particles) num_threads(n_threads)
+    // Not in parallel: the particle arrays grow (and may be reallocated) while they are read
     for(int p = 0; p < Np; p++){
 
         TV part_x = particles.x[p]; // copy
@@ -51,15 +51,12 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = Lx - part_x(0);
         if ( diff < safety_factor*dx && diff >= 0){
             part_x(0) = -diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-                particles.muI.push_back(particles.muI[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -67,15 +64,12 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = part_x(0);
         if ( diff < safety_factor*dx && diff >= 0 ){
             part_x(0) = Lx + diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-                particles.muI.push_back(particles.muI[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
-- 
2.43.0


From d659578253735bce60757021e9d22db4c4bfe03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 20/28] fix: no friction (instead of NaN) on grid nodes without
 mass

---
 src/simulation/p2g.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/p2g.cpp b/src/simulation/p2g.cpp
index c06ff3f..1d724d2 100644
--- a/src/simulation/p2g.cpp
+++ b/src/simulation/p2g.cpp
@@ -126,7 +126,7 @@ void Simulation::P2G(){
         else
             grid.v[l].setZero();
         //grid.v[l] = (mi > 0) ? grid.v[l]/mi : TV::Zero(); // condition ? result_if_true : result_if_false
-        if (use_mibf)
+        if (use_mibf && mi > 0)
             grid.friction[l] /= mi;
     }
 
-- 
2.43.0


From c860f32f25fe8b0ee8491c2d0b2dfd08ff9c0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:58 +0000
Subject: [PATCH 21/28] fix: consolidation pressure without hardening in the
 material-induced friction of Cam-Clay (uninitialised)

---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index b0b21b2..20d2a77 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -555,7 +555,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 particles.muI[p] = M;
             
             bool perform_rma;
-            T p_c;
+            T p_c = p0;
             if (hardening_law == HardeningLaw::NoHard){ // Exponential Explicit Hardening
                    perform_rma =       MCCRMAExplicit(p_stress, q_stress, exit, M, p0, beta, mu, K, f_mu_prefac);
                 // perform_rma = MCCRMAExplicitOnevar(p_stress, q_stress, exit, M, p0, beta, mu, K);
-- 
2.43.0


From 01e0ff48848599986f1fd7091deb9a39e0d70477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:58 +0000
Subject: [PATCH 22/28] fix: no return mapping (uninitialised flag) with an
 invalid hardening law

---
 src/simulation/plasticity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 20d2a77..b9ec66a 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -469,7 +469,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             T q_trial = q_stress;
 
             //////////////////////////////////////////////////////////////////////
-            bool perform_rma;
+            bool perform_rma = false;
             T p_c;
             if (hardening_law == HardeningLaw::ExpoExpl){ // Exponential Explicit Hardening
                 p_c = std::max(stress_tolerance, p0 * std::exp(-xi*particles.eps_pl_vol[p]));
@@ -554,7 +554,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (use_mibf)
                 particles.muI[p] = M;
             
-            bool perform_rma;
+            bool perform_rma = false;
             T p_c = p0;
             if (hardening_law == HardeningLaw::NoHard){ // Exponential Explicit Hardening
                    perform_rma =       MCCRMAExplicit(p_stress, q_stress, exit, M, p0, beta, mu, K, f_mu_prefac);
-- 
2.43.0


From b32e3a429b15e5efa74c01682f02c460b1b4adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:49 +0000
Subject: [PATCH 23/28] fix: close the particle file before last_written.txt
 names its frame

---
 src/simulation/save_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/save_data.cpp b/src/simulation/save_data.cpp
index f8fd041..dd8c221 100644
--- a/src/simulation/save_data.cpp
+++ b/src/simulation/save_data.cpp
@@ -162,6 +162,7 @@ void Simulation::saveParticleData(std::string extra){
     } // end if plasticity
 
     file.write(out, true);
+    out.close(); // complete on disk before last_written.txt refers to it
 
     std::ofstream outFile(directory + sim_name + "/last_written.txt");
     outFile << std::to_string(frame) << "\n";
-- 
2.43.0


From e6b804d96fa6c773348dc45a0385d6028301f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:24 +0000
Subject: [PATCH 24/28] fix: do not rewrite the files of the last frame after
 last_written.txt named it

---
 src/simulation/simulation.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index a6a8a13..a0bf5f2 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -183,13 +183,7 @@ void Simulation::simulate(){
         }
         if (std::abs(final_time-time) < min_dt*1.1 || final_time < time){
             std::cout << "The simulation ended at time = " << time << std::endl;
-            if (save_sim){
-                saveParticleData();
-                if (save_grid)
-                    saveGridData();
-                // saveAvgData();
-            }
-            break;
+            break; // the last frame was saved above
         }
     }
 
-- 
2.43.0


From 048af40f5ec4d6fde1fecc00c19294ed2cb96c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:10 +0000
Subject: [PATCH 25/28] fix: do not lose a layer of regularly sampled particles
 to rounding

---
 src/sampling/regular_sampling_particles.hpp     | 10 +++++-----
 src/sampling/regular_sampling_particles_vdb.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sampling/regular_sampling_particles.hpp b/src/sampling/regular_sampling_particles.hpp
index 1266692..ef1f086 100644
--- a/src/sampling/regular_sampling_particles.hpp
+++ b/src/sampling/regular_sampling_particles.hpp
@@ -27,9 +27,9 @@ void regularSampleParticles(S& sim, T ppc = 4, unsigned int crop_to_shape = 0)
 
     const T pSpacing = sim.dx / std::cbrt(ppc);
 
-    const int nx = int(Lx / pSpacing);
-    const int ny = int(Ly / pSpacing);
-    const int nz = int(Lz / pSpacing);
+    const int nx = int(Lx / pSpacing + T(1e-8)); // tolerance: do not lose a layer to rounding
+    const int ny = int(Ly / pSpacing + T(1e-8)); // tolerance: do not lose a layer to rounding
+    const int nz = int(Lz / pSpacing + T(1e-8)); // tolerance: do not lose a layer to rounding
 
     std::vector<TV> square_samples;
     std::vector<TV> samples;
@@ -92,8 +92,8 @@ void regularSampleParticles(S& sim, T ppc = 4, unsigned int crop_to_shape = 0)
 
     const T pSpacing = sim.dx / std::sqrt(ppc);
 
-    const int nx = int(Lx / pSpacing);
-    const int ny = int(Ly / pSpacing);
+    const int nx = int(Lx / pSpacing + T(1e-8)); // tolerance: do not lose a layer to rounding
+    const int ny = int(Ly / pSpacing + T(1e-8)); // tolerance: do not lose a layer to rounding
 
     std::vector<TV> square_samples;
     std::vector<TV> samples;
diff --git a/src/sampling/regular_sampling_particles_vdb.hpp b/src/sampling/regular_sampling_particles_vdb.hpp
index 53182df..390d7a0 100644
--- a/src/sampling/regular_sampling_particles_vdb.hpp
+++ b/src/sampling/regular_sampling_particles_vdb.hpp
@@ -27,9 +27,9 @@ void regularSampleParticlesFromVdb(S& sim, ObjectVdb& obj, T ppc = 4)
 
     const T pSpacing = sim.dx / std::cbrt(ppc);
 
-    const int nx = int(L(0) / pSpacing);
-    const int ny = int(L(1) / pSpacing);
-    const int nz = int(L(2) / pSpacing);
+    const int nx = int(L(0) / pSpacing + T(1e-8)); // tolerance: do not lose a layer to rounding
+    const int ny = int(L(1) / pSpacing + T(1e-8)); // tolerance: do not lose a layer to rounding
+    const int nz = int(L(2) / pSpacing + T(1e-8)); // tolerance: do not lose a layer to rounding
 
     std::vector<TV> samples;
 
@@ -61,8 +61,8 @@ void regularSampleParticlesFromVdb(S& sim, ObjectVdb& obj, T ppc = 4)
 
     const T pSpacing = sim.dx / std::sqrt(ppc);
 
-    const int nx = int(L(0) / pSpacing);
-    const int ny = int(L(1) / pSpacing);
+    const int nx = int(L(0) / pSpacing + T(1e-8)); // tolerance: do not lose a layer to rounding
+    const int ny = int(L(1) / pSpacing + T(1e-8)); // tolerance: do not lose a layer to rounding
 
     std::vector<TV> samples;
 
-- 
2.43.0


From baf9d3783773aaca83a51f86abeb51401077df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:56 +0000
Subject: [PATCH 26/28] fix: set the third component of the ground's normal in
 3D (uninitialised)

---
 src/objects/object_ground.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/objects/object_ground.hpp b/src/objects/object_ground.hpp
index 55b8d10..a14ccfe 100644
--- a/src/objects/object_ground.hpp
+++ b/src/objects/object_ground.hpp
@@ -26,7 +26,7 @@ public:
 
     TV normal(const TV& X_in) const override {
 
-        TV n;
+        TV n = TV::Zero(); // also sets the third component in 3D
         
         n(0) = 0;
         n(1) = 1;
-- 
2.43.0


From b0a1353ca0d1fe65cc761c72fd2ef81579ad8b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:13 +0000
Subject: [PATCH 27/28] fix: create both periodic images of a particle close to
 both ends of a short domain

---
 src/simulation/pbc.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 2bbcf2f..a022a42 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -58,10 +58,9 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
             particles.tau.push_back(particles.tau[p]);
             particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
-            continue; // go directly to next p
         }
 
-        diff = part_x(0);
+        diff = particles.x[p](0); // in a domain shorter than 2*safety_factor*dx a particle may need an image at both ends
         if ( diff < safety_factor*dx && diff >= 0 ){
             part_x(0) = Lx + diff;
             particles.x.push_back(part_x);
-- 
2.43.0


From 927467d66a2015f8cd905882e7e5eaa04dc5da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:01 +0000
Subject: [PATCH 28/28] fix: no negative boundary friction from DPVisc flowing
 in tension (cohesion with use_mibf)

---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index b9ec66a..0e71b97 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -382,7 +382,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 } // end if visc_exponent == 1
 
                 if (use_mibf){
-                    if (std::abs(p_trial + p_shift) < 1e-10)
+                    if (p_trial + p_shift < 1e-10) // incl. cohesive material flowing in tension
                         particles.muI[p] = 1e10;
                     else
                         particles.muI[p] = ((q_trial - f_mu_prefac * delta_gamma) - q_cohesion) / (p_trial + p_shift);
-- 
2.43.0

