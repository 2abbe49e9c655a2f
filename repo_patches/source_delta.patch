From ca55fdc10870171499cfbd5780255fc00e14c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 01/16] fix: recompute c_v from the gamma and R given in the
 parameter file

The heat capacity at constant volume was computed in the constructor, before
the parameter file is read, so that temperatures were those of the default
gas.
---
 .../euler_aeos/equation_of_state_noble_abel_stiffened_gas.h | 3 ++-
 source/euler_aeos/equation_of_state_polytropic_gas.h        | 6 +++++-
 source/euler_aeos/equation_of_state_van_der_waals.h         | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h b/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
index 56dbd99..5c23490 100644
--- a/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
+++ b/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
@@ -54,8 +54,9 @@ namespace ryujin
         this->add_parameter(
             "reference pressure", pinf_, "The reference pressure p infinity");
 
-        /* Update the EOS interpolation parameters on parameter read in: */
+        /* Update c_v and the EOS interpolation parameters on parameter read in: */
         ParameterAcceptor::parse_parameters_call_back.connect([this] {
+          cv_ = R_ / (gamma_ - 1.);
           this->interpolation_b_ = b_;
           this->interpolation_pinfty_ = pinf_;
           this->interpolation_q_ = q_;
diff --git a/source/euler_aeos/equation_of_state_polytropic_gas.h b/source/euler_aeos/equation_of_state_polytropic_gas.h
index b29d599..6b40303 100644
--- a/source/euler_aeos/equation_of_state_polytropic_gas.h
+++ b/source/euler_aeos/equation_of_state_polytropic_gas.h
@@ -39,7 +39,11 @@ namespace ryujin
         this->add_parameter(
             "gas constant R", R_, "The specific gas constant R");
 
-        cv_ = R_ / (gamma_ - 1.);
+        /* Update c_v on parameter read in: */
+        const auto compute_cv = [this] { cv_ = R_ / (gamma_ - 1.); };
+
+        compute_cv();
+        ParameterAcceptor::parse_parameters_call_back.connect(compute_cv);
       }
 
       /**
diff --git a/source/euler_aeos/equation_of_state_van_der_waals.h b/source/euler_aeos/equation_of_state_van_der_waals.h
index 9d7fb28..3cc9730 100644
--- a/source/euler_aeos/equation_of_state_van_der_waals.h
+++ b/source/euler_aeos/equation_of_state_van_der_waals.h
@@ -48,8 +48,9 @@ namespace ryujin
 
         cv_ = R_ / (gamma_ - 1.);
 
-        /* Update the EOS interpolation parameters on parameter read in: */
+        /* Update c_v and the EOS interpolation parameters on parameter read in: */
         ParameterAcceptor::parse_parameters_call_back.connect([this] {
+          cv_ = R_ / (gamma_ - 1.);
           this->interpolation_b_ = b_;
           /* Note that this EOS allows for negative pressures. */
           if (b_ > 0.)
-- 
2.43.0


From f4f63519e7f0e529d9e775c08afe2922cb2a94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 02/16] fix: JWL equation of state: consistent energy and sound
 speed

specific_internal_energy() was not the inverse of pressure() for q_0 != 0, and
speed_of_sound() had the wrong exponent and left out q_0: it now equals
c^2 = dp/drho + p/rho^2 dp/de.
---
 .../euler_aeos/equation_of_state_jones_wilkins_lee.h   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
index b4c29f8..ffeadde 100644
--- a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
+++ b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
@@ -80,7 +80,7 @@ namespace ryujin
       /**
        * The specific internal energy is given by
        * \f{align}
-       *   \omega \rho e = p
+       *   \omega \rho (e + q_0) = p
        *   - A(1 - \omega / R_1 \rho / \rho_0) e^{(-R_1 \rho_0 / \rho)}
        *   - B(1 - \omega / R_2 \rho/ \rho_0) e^{(-R_2 \rho_0 / \rho)}
        * \f}
@@ -94,7 +94,7 @@ namespace ryujin
         const auto second_term =
             capB * (1. - omega / R2 * ratio) * std::exp(-R2 * 1. / ratio);
 
-        return (p - first_term - second_term) / (rho * omega);
+        return (p - first_term - second_term) / (rho * omega) - q_0;
       }
 
       /**
@@ -125,14 +125,14 @@ namespace ryujin
         const auto t1 = omega * rho / (R1 * rho_0);
         const auto factor1 = omega * (1. - t1) * (1. + 1. / t1) - t1;
         const auto first_term =
-            capA / rho * factor1 * std::exp(-1. / t1 / omega);
+            capA / rho * factor1 * std::exp(-omega / t1);
 
         const auto t2 = omega * rho / (R2 * rho_0);
         const auto factor2 = omega * (1. - t2) * (1. + 1. / t2) - t2;
         const auto second_term =
-            capB / rho * factor2 * std::exp(-1. / t2 / omega);
+            capB / rho * factor2 * std::exp(-omega / t2);
 
-        const auto third_term = omega * (omega + 1.) * e;
+        const auto third_term = omega * (omega + 1.) * (e + q_0);
 
         return std::sqrt(first_term + second_term + third_term);
       }
-- 
2.43.0


From 59eab8c3b2b89f1ac8dbb8d46412fdffad8ef1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 03/16] fix: Riemann solver: take the reference pressure out of
 p_max consistently

phi(p_max) and the cap p_max on p_star mixed pressures with and without
the reference pressure p_infty. For p_infty > 0 phi(p_max) came out too
large, so that p_star was cut off although it lies above p_max and the
wave speed was underestimated.
---
 source/euler_aeos/riemann_solver.template.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/euler_aeos/riemann_solver.template.h b/source/euler_aeos/riemann_solver.template.h
index dcc446f..3e41537 100644
--- a/source/euler_aeos/riemann_solver.template.h
+++ b/source/euler_aeos/riemann_solver.template.h
@@ -459,14 +459,16 @@ namespace ryujin
                                         ((gamma_i + Number(1.)) * p_max +
                                          (gamma_i - Number(1.)) * (p_i + pinf));
 
-      const Number value_i = (p_max - p_i) / std::sqrt(radicand_inverse_i);
+      const Number value_i =
+          (p_max - (p_i + pinf)) / std::sqrt(radicand_inverse_i);
 
       const Number radicand_jnverse_j = ScalarNumber(0.5) * rho_j /
                                         (Number(1.) - interpolation_b * rho_j) *
                                         ((gamma_j + Number(1.)) * p_max +
                                          (gamma_j - Number(1.)) * (p_j + pinf));
 
-      const Number value_j = (p_max - p_j) / std::sqrt(radicand_jnverse_j);
+      const Number value_j =
+          (p_max - (p_j + pinf)) / std::sqrt(radicand_jnverse_j);
 
       return value_i + value_j + u_j - u_i;
     }
@@ -591,7 +593,7 @@ namespace ryujin
       std::cout << "a_right: " << a_j << std::endl;
 #endif
 
-      const Number p_max = std::max(p_i, p_j) + pinf;
+      const Number p_max = std::max(p_i, p_j);
       const Number phi_p_max = phi_of_p_max(riemann_data_i, riemann_data_j);
 
       if (!view.compute_strict_bounds()) {
-- 
2.43.0


From 3314a359c45a65777bb6c9e8dac4d360a7e91fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 04/16] fix: extend limiter bounds into a separate vector for
 discontinuous ansatz

The bounds of all neighbors are read while the extended bounds of the row
are written into the same vector, which makes the result depend on the
order in which rows are traversed.
---
 source/hyperbolic_module.h          |  1 +
 source/hyperbolic_module.template.h | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/hyperbolic_module.h b/source/hyperbolic_module.h
index f8acc70..ea13c84 100644
--- a/source/hyperbolic_module.h
+++ b/source/hyperbolic_module.h
@@ -322,6 +322,7 @@ namespace ryujin
     static constexpr auto n_bounds =
         Description::template Limiter<dim, Number>::n_bounds;
     mutable Vectors::MultiComponentVector<Number, n_bounds> bounds_;
+    mutable Vectors::MultiComponentVector<Number, n_bounds> extended_bounds_;
 
     using HyperbolicVector =
         Vectors::MultiComponentVector<Number, problem_dimension>;
diff --git a/source/hyperbolic_module.template.h b/source/hyperbolic_module.template.h
index a485e03..450c2f7 100644
--- a/source/hyperbolic_module.template.h
+++ b/source/hyperbolic_module.template.h
@@ -66,6 +66,8 @@ namespace ryujin
     const auto &scalar_partitioner = offline_data_->scalar_partitioner();
     alpha_.reinit(scalar_partitioner);
     bounds_.reinit_with_scalar_partitioner(scalar_partitioner);
+    if (offline_data_->discretization().have_discontinuous_ansatz())
+      extended_bounds_.reinit_with_scalar_partitioner(scalar_partitioner);
 
     r_.reinit(offline_data_->hyperbolic_vector_partitioner());
     using View =
@@ -933,7 +935,9 @@ namespace ryujin
           /*
            * In case of a discontinuous finite element ansatz we need to
            * extend bounds over the stencil. We do this by looping over the
-           * stencil once and taking the minimum/maximum:
+           * stencil once and taking the minimum/maximum. The result has to
+           * be stored in a separate vector because bounds_ is concurrently
+           * read by all neighboring rows:
            */
           if constexpr (have_discontinuous_ansatz) {
             /* Skip diagonal. */
@@ -944,7 +948,7 @@ namespace ryujin
                   bounds,
                   bounds_.template get_tensor<T, std::array<T, n_bounds>>(js));
             }
-            bounds_.template write_tensor<T>(bounds, i);
+            extended_bounds_.template write_tensor<T>(bounds, i);
           }
 
           [[maybe_unused]] T m_i;
@@ -1051,6 +1055,10 @@ namespace ryujin
      */
 
     const auto n_iterations = limiter_parameters_.iterations();
+    const auto &limiter_bounds =
+        offline_data_->discretization().have_discontinuous_ansatz()
+            ? extended_bounds_
+            : bounds_;
     for (unsigned int pass = 0; pass < n_iterations; ++pass) {
       bool last_round = (pass + 1 == n_iterations);
 
@@ -1132,7 +1140,7 @@ namespace ryujin
             continue;
 
           const auto bounds =
-              bounds_.template get_tensor<T, std::array<T, n_bounds>>(i);
+              limiter_bounds.template get_tensor<T, std::array<T, n_bounds>>(i);
           /* Skip diagonal. */
           for (unsigned int col_idx = 1; col_idx < row_length; ++col_idx) {
 
-- 
2.43.0


From a9e899f5c2c93cb147d071605acfaa507fa52f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 05/16] fix: use thread-local random number generators in the
 scalar Riemann solver

The lambda is called concurrently by all threads if random entropies are
requested.
---
 source/scalar_conservation/riemann_solver.template.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/scalar_conservation/riemann_solver.template.h b/source/scalar_conservation/riemann_solver.template.h
index 087bb96..0caf1c4 100644
--- a/source/scalar_conservation/riemann_solver.template.h
+++ b/source/scalar_conservation/riemann_solver.template.h
@@ -106,9 +106,10 @@ namespace ryujin
        */
 
       thread_local static const auto draw = []() {
-        static std::random_device random_device;
-        static auto generator = std::default_random_engine(random_device());
-        static std::uniform_real_distribution<ScalarNumber> dist(0., 1.);
+        thread_local static std::random_device random_device;
+        thread_local static auto generator = std::default_random_engine(random_device());
+        thread_local static std::uniform_real_distribution<ScalarNumber> dist(
+            0., 1.);
 
         if constexpr (std::is_same_v<ScalarNumber, Number>) {
           /*
-- 
2.43.0


From a3c7aacded47191c778c8769823edb654b6f51f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 06/16] fix: Euler AEOS: use the global row index in the
 vectorized eos precomputation

The loop runs over a local index starting at zero: constrained rows have
to be identified with the offset added.
---
 source/euler_aeos/hyperbolic_system.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/euler_aeos/hyperbolic_system.h b/source/euler_aeos/hyperbolic_system.h
index fedcd79..b596a2a 100644
--- a/source/euler_aeos/hyperbolic_system.h
+++ b/source/euler_aeos/hyperbolic_system.h
@@ -900,11 +900,11 @@ namespace ryujin
           RYUJIN_OMP_FOR
           for (unsigned int i = 0; i < size; i += stride_size) {
             /* Skip constrained degrees of freedom: */
-            const unsigned int row_length = sparsity_simd.row_length(i);
+            const unsigned int row_length = sparsity_simd.row_length(offset + i);
             if (row_length == 1)
               continue;
 
-            dispatch_check(i);
+            dispatch_check(offset + i);
 
             using PT = precomputed_type;
             const auto U_i = U.template get_tensor<Number>(offset + i);
-- 
2.43.0


From a41e4ad4688bb117884abb9e5e09159891d547e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 07/16] fix: reset the exchange pattern when reinitializing a
 SparsityPatternSIMD

A pattern that had ghost rows before kept its old send and receive targets
when reinitialized without ghost rows.
---
 source/sparse_matrix_simd.template.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/sparse_matrix_simd.template.h b/source/sparse_matrix_simd.template.h
index 2894113..bb904d7 100644
--- a/source/sparse_matrix_simd.template.h
+++ b/source/sparse_matrix_simd.template.h
@@ -149,6 +149,10 @@ namespace ryujin
 
     /* Compute the data exchange pattern: */
 
+    receive_targets.clear();
+    send_targets.clear();
+    entries_to_be_sent.clear();
+
     if (sparsity.n_rows() > n_locally_owned_dofs) {
 
       /*
-- 
2.43.0


From 8f735a1d4a59e18b1032356fe1948eda3ba7ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 08/16] fix: do not overwrite the checkpoint with the analytic
 solution

With both checkpointing and error computation enabled the checkpoint of the
solution was overwritten by the interpolated analytic solution.
---
 source/time_loop.h          |  3 ++-
 source/time_loop.template.h | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/time_loop.h b/source/time_loop.h
index 6fa8743..f20f53b 100644
--- a/source/time_loop.h
+++ b/source/time_loop.h
@@ -122,7 +122,8 @@ namespace ryujin
     void output(StateVector &state_vector,
                 const std::string &name,
                 const Number t,
-                const unsigned int cycle);
+                const unsigned int cycle,
+                const bool checkpoint = true);
 
     void print_parameters(std::ostream &stream);
     void print_mpi_partition(std::ostream &stream);
diff --git a/source/time_loop.template.h b/source/time_loop.template.h
index 0e3d6c4..6491a2a 100644
--- a/source/time_loop.template.h
+++ b/source/time_loop.template.h
@@ -330,7 +330,11 @@ namespace ryujin
             std::get<0>(analytic) =
                 initial_values_.interpolate_hyperbolic_vector(t);
           }
-          output(analytic, base_name_ + "-analytic_solution", t, timer_cycle);
+          output(analytic,
+                 base_name_ + "-analytic_solution",
+                 t,
+                 timer_cycle,
+                 /*checkpoint*/ false);
         }
 
         if (enable_compute_quantities_ &&
@@ -837,7 +841,8 @@ namespace ryujin
   void TimeLoop<Description, dim, Number>::output(StateVector &state_vector,
                                                   const std::string &name,
                                                   const Number t,
-                                                  const unsigned int cycle)
+                                                  const unsigned int cycle,
+                                                  const bool checkpoint)
   {
 #ifdef DEBUG_OUTPUT
     std::cout << "TimeLoop<dim, Number>::output(t = " << t << ")" << std::endl;
@@ -849,7 +854,8 @@ namespace ryujin
         (cycle % timer_output_levelsets_multiplier_ == 0) &&
         enable_output_levelsets_;
     const bool do_checkpointing =
-        (cycle % timer_checkpoint_multiplier_ == 0) && enable_checkpointing_;
+        (cycle % timer_checkpoint_multiplier_ == 0) && enable_checkpointing_ &&
+        checkpoint;
 
     /* There is nothing to do: */
     if (!(do_full_output || do_levelsets || do_checkpointing))
-- 
2.43.0


From 38d05c6dd4cf81f52c0706530a8093077f223802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 09/16] fix: quantities: start a new time series file for every
 manifold

Only the first space-averaged manifold got a fresh file with a header, all
others were appended to whatever file was present.
---
 source/quantities.template.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/source/quantities.template.h b/source/quantities.template.h
index 05d482c..06136d2 100644
--- a/source/quantities.template.h
+++ b/source/quantities.template.h
@@ -583,6 +583,11 @@ namespace ryujin
      * space_averaged values to the corresponding log files:
      */
 
+    /* Start new time series files for all manifolds during first write out: */
+    const bool append = time_series_cycle_.has_value();
+    if (!append)
+      time_series_cycle_ = cycle;
+
     const auto write_out = [&](const auto &point_maps,
                                const auto &manifolds,
                                auto &statistics,
@@ -649,12 +654,6 @@ namespace ryujin
          */
 
         if (options.find("space_averaged") != std::string::npos) {
-          bool append = true;
-          if (!time_series_cycle_.has_value()) {
-            time_series_cycle_ = cycle;
-            append = false;
-          }
-
           const auto file_name =
               base_name_ + "-" + name + "-R" +
               Utilities::to_string(time_series_cycle_.value(), 4) +
-- 
2.43.0


From 69d74dfcc429c681312edd9e87ada9adc28ffb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 10/16] fix: shallow water limiter: combine the kinetic energy
 bounds of both sides

---
 source/shallow_water/limiter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/shallow_water/limiter.h b/source/shallow_water/limiter.h
index 9c5b5f7..3952600 100644
--- a/source/shallow_water/limiter.h
+++ b/source/shallow_water/limiter.h
@@ -392,7 +392,7 @@ namespace ryujin
       return {std::min(h_min_l, h_min_r),
               std::max(h_max_l, h_max_r),
               std::min(h_small_l, h_small_r),
-              std::max(k_max_l, h_max_r),
+              std::max(k_max_l, k_max_r),
               std::max(v2_max_l, v2_max_r)};
     }
 
-- 
2.43.0


From ecede2f58b509dff437f2014debc0e85971bb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 11/16] fix: shallow water limiter: do not drop the high-order
 update without velocity limits

---
 source/shallow_water/limiter.template.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/shallow_water/limiter.template.h b/source/shallow_water/limiter.template.h
index 4932b5b..c890584 100644
--- a/source/shallow_water/limiter.template.h
+++ b/source/shallow_water/limiter.template.h
@@ -143,7 +143,7 @@ namespace ryujin
        */
       if (RYUJIN_UNLIKELY(!parameters.limit_on_square_velocity() &&
                           !parameters.limit_on_kinetic_energy()))
-        return {t_l, success};
+        return {t_r, success};
 
       /*
        * Limit the (negative) kinetic energy:
-- 
2.43.0


From 2821949d182f4489d20e7a44e6807a254795ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 12/16] fix: shallow water limiter: derivative of the
 constraint on the square velocity

---
 source/shallow_water/limiter.template.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/shallow_water/limiter.template.h b/source/shallow_water/limiter.template.h
index c890584..6ba49b1 100644
--- a/source/shallow_water/limiter.template.h
+++ b/source/shallow_water/limiter.template.h
@@ -379,7 +379,7 @@ namespace ryujin
            *            - (|q_U|^2 + 2(q_U * q_P) t + |q_P|^2 t^2)
            *
            * d_psi(t) = 2 (h_U + t * h_P) * h_P v2_max
-           *            - 2 (q_U * q_P) - |q_P|^2 t
+           *            - 2 (q_U * q_P) - 2 |q_P|^2 t
            *
            * We can compute the root of this function efficiently by using our
            * standard quadratic_newton_step() function that will use the points
@@ -394,11 +394,11 @@ namespace ryujin
           const auto &q_P = view.momentum(P);
 
           const auto dpsi_l =
-              (h_U + t_l * h_P) * h_P * v2_max -
-              ScalarNumber(2.) * ((q_U * q_P) - q_P * q_P * t_l);
+              ScalarNumber(2.) * ((h_U + t_l * h_P) * h_P * v2_max -
+                                  (q_U * q_P) - q_P * q_P * t_l);
           const auto dpsi_r =
-              (h_U + t_r * h_P) * h_P * v2_max -
-              ScalarNumber(2.) * ((q_U * q_P) - q_P * q_P * t_r);
+              ScalarNumber(2.) * ((h_U + t_r * h_P) * h_P * v2_max -
+                                  (q_U * q_P) - q_P * q_P * t_r);
 
           quadratic_newton_step(
               t_l, t_r, psi_l, psi_r, dpsi_l, dpsi_r, Number(-1.));
-- 
2.43.0


From 07530d665ce90f07051fc246d2cfa45fbd6b850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 13/16] fix: count exported rows of an import range that
 crosses the internal range

---
 source/offline_data.template.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/offline_data.template.h b/source/offline_data.template.h
index 72d5cbc..43c0024 100644
--- a/source/offline_data.template.h
+++ b/source/offline_data.template.h
@@ -371,8 +371,9 @@ namespace ryujin
        */
       n_export_indices_ = 0;
       for (const auto &it : scalar_partitioner_->import_indices())
-        if (it.second <= n_locally_internal_)
-          n_export_indices_ = std::max(n_export_indices_, it.second);
+        if (it.first < n_locally_internal_)
+          n_export_indices_ = std::max(
+              n_export_indices_, std::min(it.second, n_locally_internal_));
 
       constexpr auto simd_length = VectorizedArray<Number>::size();
       n_export_indices_ =
@@ -383,8 +384,8 @@ namespace ryujin
     /* Check that n_export_indices_ is valid: */
     unsigned int control = 0;
     for (const auto &it : scalar_partitioner_->import_indices())
-      if (it.second <= n_locally_internal_)
-        control = std::max(control, it.second);
+      if (it.first < n_locally_internal_)
+        control = std::max(control, std::min(it.second, n_locally_internal_));
 
     Assert(control <= n_export_indices_, ExcInternalError());
     Assert(n_export_indices_ <= n_locally_internal_, ExcInternalError());
-- 
2.43.0


From 3f47ccc8f86ba0a9eb5f9883b8587d0eb3929e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:47 +0000
Subject: [PATCH 14/16] fix: skip constrained degrees of freedom when computing
 schlieren bounds

Entries of constrained degrees of freedom still hold the normalized values
of the previous output, so that the bounds, and thus the schlieren and
vorticity plots, depended on when output was written before.
---
 source/postprocessor.template.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/postprocessor.template.h b/source/postprocessor.template.h
index 628c423..b4fc7cb 100644
--- a/source/postprocessor.template.h
+++ b/source/postprocessor.template.h
@@ -236,6 +236,10 @@ namespace ryujin
       for (unsigned int d = 0; d < n_quantities; ++d) {
         auto &[q_max, q_min] = bounds_[d];
         for (unsigned int i = 0; i < n_owned; ++i) {
+          /* Skip constrained degrees of freedom: */
+          if (sparsity_simd.row_length(i) == 1)
+            continue;
+
           const auto q = quantities_[d].local_element(i);
           q_max = std::max(q_max, std::abs(q));
           q_min = std::min(q_min, std::abs(q));
-- 
2.43.0


From b4b58caac5c69fd396473ef8e75404abc49f0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:20 +0000
Subject: [PATCH 15/16] fix: align the initial direction with the x-axis in 3D

The second rotation used the x-component of the direction before the first
one. A direction with nonzero y and z components (or a negative x and a
nonzero y component) was therefore not mapped onto the x-axis.
---
 source/initial_values.template.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/initial_values.template.h b/source/initial_values.template.h
index 8b563cb..03ab62d 100644
--- a/source/initial_values.template.h
+++ b/source/initial_values.template.h
@@ -90,10 +90,15 @@ namespace ryujin
         direction = new_direction;
       }
 
-      /* Roll second component of initial_direction onto x-axis: */
+      /*
+       * Roll second component of initial_direction onto x-axis. (In 3D the
+       * x-component of the direction has changed with the first rotation):
+       */
       if constexpr (dim >= 2) {
         auto n_x = initial_direction[0];
         auto n_y = initial_direction[1];
+        if constexpr (dim == 3)
+          n_x = std::sqrt(n_x * n_x + initial_direction[2] * initial_direction[2]);
         const auto norm = std::sqrt(n_x * n_x + n_y * n_y);
         n_x /= norm;
         n_y /= norm;
@@ -120,6 +125,8 @@ namespace ryujin
       if constexpr (dim >= 2) {
         auto n_x = initial_direction[0];
         auto n_y = initial_direction[1];
+        if constexpr (dim == 3)
+          n_x = std::sqrt(n_x * n_x + initial_direction[2] * initial_direction[2]);
         const auto norm = std::sqrt(n_x * n_x + n_y * n_y);
         n_x /= norm;
         n_y /= norm;
-- 
2.43.0


From 511282dac21e14dd70c515c4982ff890768919bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:40 +0000
Subject: [PATCH 16/16] fix: interpolate the density onto the levels when only
 the energy uses multigrid

---
 source/navier_stokes/parabolic_solver.template.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/navier_stokes/parabolic_solver.template.h b/source/navier_stokes/parabolic_solver.template.h
index 6ad2a25..3531536 100644
--- a/source/navier_stokes/parabolic_solver.template.h
+++ b/source/navier_stokes/parabolic_solver.template.h
@@ -368,6 +368,14 @@ namespace ryujin
         diagonal_matrix.reinit(
             lumped_mass_matrix, density_, affine_constraints);
 
+        /*
+         * Interpolate the density onto the levels. The level operators of
+         * both, the velocity and the internal energy update depend on it:
+         */
+        if ((use_gmg_velocity_ || use_gmg_internal_energy_) && reinitialize_gmg)
+          mg_transfer_velocity_.interpolate_to_mg(
+              offline_data_->dof_handler(), level_density_, density_);
+
         /*
          * Update MG matrices all 4 time steps; this is a balance because more
          * refreshes will render the approximation better, at some additional
@@ -383,9 +391,6 @@ namespace ryujin
 
           level_velocity_matrices_.resize(level_matrix_free_.min_level(),
                                           level_matrix_free_.max_level());
-          mg_transfer_velocity_.interpolate_to_mg(
-              offline_data_->dof_handler(), level_density_, density_);
-
           for (unsigned int level = level_matrix_free_.min_level();
                level <= level_matrix_free_.max_level();
                ++level) {
-- 
2.43.0

