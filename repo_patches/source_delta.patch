From fbcbcd40ccc3c1bc20c64127839d686085dd951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 01/53] fix: looking up an unknown method must not add it to
 the method registry

---
 erk.cpp | 8 ++++++--
 irk.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index 89f0b20..d1f6580 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -258,13 +258,17 @@ bool verify_solver_coeffs( const erk::solver_coeffs &sc )
 
 const char *method_to_name( int method )
 {
-	return erk::rk_method_to_string[method].c_str();
+	// Look up without operator[], which would insert unknown methods.
+	auto it = erk::rk_method_to_string.find(method);
+	return it == erk::rk_method_to_string.end() ? "" : it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return erk::rk_string_to_method[name];
+	// Look up without operator[], which would insert unknown names.
+	auto it = erk::rk_string_to_method.find(name);
+	return it == erk::rk_string_to_method.end() ? 0 : it->second;
 }
 
 
diff --git a/irk.cpp b/irk.cpp
index 6f03860..01021c5 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -708,13 +708,17 @@ bool verify_solver_options( solver_options &opts )
 
 const char *method_to_name( int method )
 {
-	return irk::rk_method_to_string[method].c_str();
+	// Look up without operator[], which would insert unknown methods.
+	auto it = irk::rk_method_to_string.find(method);
+	return it == irk::rk_method_to_string.end() ? "" : it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return irk::rk_string_to_method[name];
+	// Look up without operator[], which would insert unknown names.
+	auto it = irk::rk_string_to_method.find(name);
+	return it == irk::rk_string_to_method.end() ? 0 : it->second;
 }
 
 
-- 
2.43.0


From 4c521c9e84f4898a9d736c836bba9ac2cfc21a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 02/53] fix: explicit integrator must only output accepted
 steps, at their own time

---
 erk.hpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index ffbdbeb..bfcaccc 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -421,26 +421,29 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			          << " " <<  dt << " " << err << "\n";
 		}
 
-		if (output_opts.write_to_file()) {
-			*output_opts.output_stream << t;
-			for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
-				*output_opts.output_stream << " " << y_n[y_idx];
-			}
-			*output_opts.output_stream << "\n";
-		}
-
 		// ********************* Update y and time ***************
 		if (!solver_opts.adaptive_step_size || integrator_status == 0) {
 			y  = y_n;
 			t += dt;
 			++step;
 
-			sol.t_vals.push_back(t);
-			sol.y_vals.push_back(y_n);
-			// Since K is a matrix, it needs to be flattened:
-			sol.stages.push_back(arma::vectorise(Ks));
-			sol.err_est.push_back(err_est);
-			sol.err.push_back(err);
+			if (step % output_opts.output_interval == 0) {
+				if (output_opts.store_in_vectors()) {
+					sol.t_vals.push_back(t);
+					sol.y_vals.push_back(y_n);
+					// Since K is a matrix, it needs to be flattened:
+					sol.stages.push_back(arma::vectorise(Ks));
+					sol.err_est.push_back(err_est);
+					sol.err.push_back(err);
+				}
+				if (output_opts.write_to_file()) {
+					*output_opts.output_stream << t;
+					for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
+						*output_opts.output_stream << " " << y_n[y_idx];
+					}
+					*output_opts.output_stream << "\n";
+				}
+			}
 
 			// If you reach here, your new time step has been
 			// accepted and your last stage can now be uesd
-- 
2.43.0


From 57bb12be59d634eb73ab2b1527ee1980346e7983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 03/53] fix: integrators must not take one step more than
 max_steps

---
 erk.hpp | 2 +-
 irk.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index bfcaccc..5a0c530 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -335,7 +335,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		sol.count.attempt++;
 
 		if (solver_opts.max_steps >= 0 &&
-		    step > solver_opts.max_steps) {
+		    step >= solver_opts.max_steps) {
 			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			return sol;
diff --git a/irk.hpp b/irk.hpp
index a7155c4..90089ca 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -609,7 +609,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		}
 		sol.count.attempt++;
 
-		if (solver_opts.max_steps >= 0 && step > solver_opts.max_steps) {
+		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			return sol;
-- 
2.43.0


From 664123f9afa2a661a12fa2b95d4d774fdd759524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 04/53] fix: output structs must not be returned with
 uninitialized fields

---
 erk.hpp    | 2 +-
 irk.hpp    | 2 +-
 output.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 5a0c530..41f01bd 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -138,7 +138,7 @@ struct rk_output : basic_output
 	std::vector<vec_type> err_est;
 	std::vector<double>   err;
 
-	double elapsed_time, accept_frac;
+	double elapsed_time = 0.0, accept_frac = 0.0;
 
 	counters count;
 };
diff --git a/irk.hpp b/irk.hpp
index 90089ca..2dcdfc4 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -157,7 +157,7 @@ struct rk_output : basic_output
 	std::vector<vec_type> err_est;
 	std::vector<double>   err;
 
-	double elapsed_time, accept_frac;
+	double elapsed_time = 0.0, accept_frac = 0.0;
 
 	counters count;
 };
diff --git a/output.hpp b/output.hpp
index fa054df..bce5df8 100644
--- a/output.hpp
+++ b/output.hpp
@@ -28,7 +28,7 @@
 #define OUTPUT_HPP
 
 struct basic_output {
-	int status;
+	int status = 0;
 	
 	std::vector<double> t_vals;
 	std::vector<vec_type> y_vals;
-- 
2.43.0


From 03483b008443d46d0dd3024d76ae1c5765a7cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 05/53] fix: integrators must stop exactly at the final time

---
 erk.hpp | 6 ++++--
 irk.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 41f01bd..e7c098e 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -329,7 +329,8 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	while (t < t1) {
 		// ****************  Calculate stages:   ************
 		// Make sure you stop exactly at t = t1.
-		if( t + dt > t1 ){
+		bool final_step = t + dt >= t1;
+		if( final_step ){
 			dt = t1 - t;
 		}
 		sol.count.attempt++;
@@ -424,7 +425,8 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		// ********************* Update y and time ***************
 		if (!solver_opts.adaptive_step_size || integrator_status == 0) {
 			y  = y_n;
-			t += dt;
+			// t + (t1 - t) need not round to t1.
+			t = final_step ? t1 : t + dt;
 			++step;
 
 			if (step % output_opts.output_interval == 0) {
diff --git a/irk.hpp b/irk.hpp
index 2dcdfc4..e4cfb82 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -604,7 +604,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	while (t < t1) {
 		// ****************  Calculate stages:   ************
 		// Make sure you stop exactly at t = t1.
-		if( t + dt > t1 ){
+		bool final_step = t + dt >= t1;
+		if( final_step ){
 			dt = t1 - t;
 		}
 		sol.count.attempt++;
@@ -814,7 +815,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			if (time_internals) timer.tic();
 			yo = y;
 			y  = y_n;
-			t += dt;
+			// t + (t1 - t) need not round to t1.
+			t = final_step ? t1 : t + dt;
 			++step;
 
 			if (time_internals) {
-- 
2.43.0


From 6c661340eaffde33dd7ba7b5224be30d9ce04a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 06/53] fix: implicit integrator must work with constant step
 size and without embedded method

---
 irk.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index e4cfb82..68a22dc 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -598,7 +598,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	// Construct the alternative weights:
 	mat_type Ai = arma::inv(sc.A);
 	vec_type d_weights  = (Ai.t())*sc.b;
-	vec_type d2_weights = (Ai.t())*sc.b2;
+	vec_type d2_weights;
+	if (sc.b2.size() > 0) d2_weights = (Ai.t())*sc.b2;
 
 
 	while (t < t1) {
@@ -696,13 +697,14 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		mat_type YYs = arma::reshape(Y, Neq, Ns);
 		delta_y = YYs*d_weights;
 
+		// Without adaptive step size there may be no embedded method.
+		vec_type dy_alt = delta_y;
 		if (solver_opts.adaptive_step_size) {
 			delta_alt = YYs*d2_weights;
+			dy_alt = gam * func.fun(t,y) + delta_alt;
+			++sol.count.fun_evals;
 		}
 
-		vec_type dy_alt = gam * func.fun(t,y) + delta_alt;
-		++sol.count.fun_evals;
-
 		vec_type y_n    = y + delta_y;
 		vec_type yp     = y + dy_alt;
 		vec_type delta_delta = dy_alt - delta_y;
@@ -720,7 +722,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		err_est = err_8_19;
 
 		// Alternative formula 8.20:
-		if( alternative_error_formula ){
+		if( solver_opts.adaptive_step_size && alternative_error_formula ){
 			// Use the alternative formulation:
 			// vec_type dy_alt_alt = gamma*func.fun(t, y+err_est);
 			vec_type dy_alt_alt = gam*func.fun(t, y + err_est);
-- 
2.43.0


From 5c55b9d98c0f0715c99ed65c12c08e56e658ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 07/53] fix: implicit integrator must store the stages, not
 zeros

---
 irk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irk.hpp b/irk.hpp
index 68a22dc..088164e 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -697,6 +697,9 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		mat_type YYs = arma::reshape(Y, Neq, Ns);
 		delta_y = YYs*d_weights;
 
+		// The derivatives at the stages, for dense output:
+		K_np = arma::vectorise(YYs*Ai.t()) / dt;
+
 		// Without adaptive step size there may be no embedded method.
 		vec_type dy_alt = delta_y;
 		if (solver_opts.adaptive_step_size) {
-- 
2.43.0


From 8e20ecac7674e9b4aaccda20c9a15425cba012c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 08/53] fix: set the order of the GAUSS_LEGENDRE_147 and
 LOBATTO_IIIA_127 methods

---
 irk.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index 01021c5..c429651 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -600,6 +600,8 @@ solver_coeffs get_coefficients( int method )
 		         0.0647424830844348466 };
 
 		sc.gamma = 0.100567464822504836;
+		sc.order = 14;
+		sc.order2 = 7;
 
 		sc.b2 = { sc.b(0) - 1.57466249971055050 * sc.gamma,
 		          sc.b(1) + 0.97072669650612219 * sc.gamma,
@@ -657,6 +659,8 @@ solver_coeffs get_coefficients( int method )
 		         0.0238095238095238095 };
 
 		sc.gamma = 0.5;
+		sc.order = 12;
+		sc.order2 = 7;
 
 		sc.b2 = { sc.b(0) - sc.gamma,
 		          sc.b(1),
-- 
2.43.0


From 9ab086a4b29c7c66b30510cf80b687e186834a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 09/53] fix: erk.hpp must be usable from more than one
 translation unit

---
 erk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index e7c098e..fc6d7a7 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -227,7 +227,7 @@ vec_type project_b( double theta, const erk::solver_coeffs &sc );
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void apply_fsal(mat_type &Ks, std::size_t Ns)
+inline void apply_fsal(mat_type &Ks, std::size_t Ns)
 {
 	Ks.col(0) = std::move(Ks.col(Ns-1));
 }
@@ -239,7 +239,7 @@ void apply_fsal(mat_type &Ks, std::size_t Ns)
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
+inline void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
 { }
 
 
-- 
2.43.0


From 765066f3eec099810c66fffb8d805d379fb3f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 10/53] fix: define verify_solver_options as it is declared

---
 erk.cpp | 2 +-
 irk.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index d1f6580..4c30dbc 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -228,7 +228,7 @@ solver_options default_solver_options()
 }
 
 
-bool verify_solver_options(solver_options &opts)
+bool verify_solver_options(const solver_options &opts)
 {
 	return true;
 }
diff --git a/irk.cpp b/irk.cpp
index c429651..c244549 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -701,7 +701,7 @@ solver_options default_solver_options()
 
 
 
-bool verify_solver_options( solver_options &opts )
+bool verify_solver_options( const solver_options &opts )
 {
 	if( opts.newton_opts ) return true;
 	std::cerr << "ERROR! solver_opts @" << &opts << " does not have "
-- 
2.43.0


From 665ebec4d192ea4c10037e5e5d17f5aac346d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 11/53] fix: Adams-Bashforth must evaluate past values at their
 own times

---
 multistep.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/multistep.hpp b/multistep.hpp
index fc717e6..111561c 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -82,25 +82,25 @@ void adams_bashforth_step(functor_type &func, int order,
 		break;
 	case 2:
 		Y += dt*(C[1][0]*func.fun(t, history[0]) +
-		         C[1][1]*func.fun(t, history[1]));
+		         C[1][1]*func.fun(t - dt, history[1]));
 		break;
 	case 3:
 		Y += dt*(C[2][0]*func.fun(t, history[0]) +
-		         C[2][1]*func.fun(t, history[1]) +
-		         C[2][2]*func.fun(t, history[2]));
+		         C[2][1]*func.fun(t - dt, history[1]) +
+		         C[2][2]*func.fun(t - 2*dt, history[2]));
 		break;
 	case 4:
 		Y += dt*(C[3][0]*func.fun(t, history[0]) +
-		         C[3][1]*func.fun(t, history[1]) +
-		         C[3][2]*func.fun(t, history[2]) +
-		         C[3][3]*func.fun(t, history[3]));
+		         C[3][1]*func.fun(t - dt, history[1]) +
+		         C[3][2]*func.fun(t - 2*dt, history[2]) +
+		         C[3][3]*func.fun(t - 3*dt, history[3]));
 		break;
 	case 5:
 		Y += dt*(C[4][0]*func.fun(t, history[0]) +
-		         C[4][1]*func.fun(t, history[1]) +
-		         C[4][2]*func.fun(t, history[2]) +
-		         C[4][3]*func.fun(t, history[3]) +
-		         C[4][4]*func.fun(t, history[4]));
+		         C[4][1]*func.fun(t - dt, history[1]) +
+		         C[4][2]*func.fun(t - 2*dt, history[2]) +
+		         C[4][3]*func.fun(t - 3*dt, history[3]) +
+		         C[4][4]*func.fun(t - 4*dt, history[4]));
 		break;
 
 	default:
-- 
2.43.0


From c801a317f222b2496c4ec3911259ed3c5697ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 12/53] fix: multistep start-up values must be the integrated
 solution

---
 multistep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multistep.hpp b/multistep.hpp
index 111561c..1cb0ea5 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -116,8 +116,8 @@ template <typename functor_type> inline
 basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
                                double t, double dt)
 {
+	// The last point is read from the stored solution below.
 	output_options output_opts;
-	output_opts.output_mode = output_options::NO_OUTPUT;
 
 	basic_output start;
 	start.t_vals.push_back(t);
-- 
2.43.0


From 68cc3a3ac6b63c47adda3f994e680cc6c5e58cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 13/53] fix: merging outputs must also add the evaluation
 counters

---
 irk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index c244549..444872c 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -786,6 +786,8 @@ rk_output merge_rk_output( const rk_output &sol1, const rk_output &sol2 )
 	merger.count.newton_iter_error_too_large +=
 		sol2.count.newton_iter_error_too_large;
 	merger.count.newton_maxit_exceed += sol2.count.newton_maxit_exceed;
+	merger.count.fun_evals += sol2.count.fun_evals;
+	merger.count.jac_evals += sol2.count.jac_evals;
 
 	return merger;
 }
-- 
2.43.0


From bcbbed2006fd3c296e711e8538812bc7e8202f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 14/53] fix: collocation coefficients for a single node must
 not be zero

---
 irk.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index 444872c..a4bfbb8 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -153,18 +153,15 @@ mat_type collocation_interpolate_coeffs( const vec_type& c )
 
 	std::vector<coeff_list> poly_coefficients(Ns);
 	for( std::size_t i = 0; i < Ns; ++i ){
-		coeff_list ci;
+		// The empty product, which is all there is for a single node.
+		coeff_list ci(1);
 		for( std::size_t j = 0; j < Ns; ++j ){
 			if( i == j ) continue;
 
 			int jj = j;
 			// -1 codes for x.
-			if( ci.size() == 0 ){
-				ci = {{-1}, {jj}};
-			}else{
-				coeff_list tmp = expand( ci, { {-1}, {jj} } );
-				ci = tmp;
-			}
+			coeff_list tmp = expand( ci, { {-1}, {jj} } );
+			ci = tmp;
 		}
 		poly_coefficients[i] = ci;
 	}
-- 
2.43.0


From 9969eb4798d49c7c4d8a933362c9bd5fed2fd079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 15/53] fix: do the LU decomposition outside of the assert, for
 builds with NDEBUG

---
 irk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 088164e..f96b544 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -429,8 +429,10 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			// Since we re-use the same Jacobi matrix,
 			// pre-construct the LU decomposition:
 			if (PLU_decomposition) {
-				assert(arma::lu(L,U,P, J_Y) &&
+				bool lu_success = arma::lu(L,U,P, J_Y);
+				assert(lu_success &&
 				       "LU decomposition of Jacobi matrix failed!");
+				(void) lu_success;
 			}
 			++jac_evals;
 		};
-- 
2.43.0


From 746b7c0251380a8861388559b068797cd33adc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 16/53] fix: refresh_jac = 0 must not divide by zero in the
 implicit integrator

---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index f96b544..4ffa1c6 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -484,7 +484,7 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			step = 1.0 / sqrt(1.0 + Rnorm2);
 		}
 
-		if (stats.iters % refresh_jac == 0) {
+		if (refresh_jac > 0 && stats.iters % refresh_jac == 0) {
 			refresh_jacobi_matrix();
 		}
 	}
-- 
2.43.0


From f45a2787482649ac51c579d9e407bc0d4e79f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 17/53] fix: embedded weights of RADAU_IIA_32 and
 LOBATTO_IIIC_85 must have their order

---
 irk.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index a4bfbb8..c123ad6 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -314,8 +314,8 @@ solver_coeffs get_coefficients( int method )
 		          1.0/20.0}};
 		sc.c  = {0.0, 0.5 - sqrt21/14.0, 0.5, 0.5 + sqrt21/14.0, 1.0};
 		sc.b  = {0.05, 49/180.0, 16/45.0, 49/180.0, 0.05};
-		sc.b2 = {0.05, 0.05, 49/180.0, 16/45.0, 49/180.0};
 		sc.gamma  = 0.1894964436645163;
+		sc.b2 = {0.05 - sc.gamma, 49/180.0, 16/45.0, 49/180.0, 0.05};
 		sc.order  = 8;
 		sc.order2 = 5;
 
@@ -346,7 +346,7 @@ solver_coeffs get_coefficients( int method )
 		sc.c  = { 1.0/3.0, 1.0 };
 		sc.b  = { 3.0/4.0, 1.0/4.0 };
 
-		sc.b2 = {2.0/3.0, 1.0/3.0};
+		sc.b2 = {1.0/4.0, 5.0/12.0};
 
 		sc.order = 3;
 		sc.order2 = 2;
-- 
2.43.0


From 1d47b9089216611fd8c1f8012df4b96dbf508188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 18/53] fix: implicit error estimate must not be scaled with
 the step size

---
 irk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index 4ffa1c6..a46c1be 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -723,7 +723,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		// J0 = func.jac( t, y );
 		// J was already calculated for us in newton_solve_stages:
 		mat_type solve_tmp = arma::eye(Neq,Neq) - gam*J;
-		vec_type err_8_19 = dt*arma::solve(solve_tmp, delta_delta);
+		vec_type err_8_19 = arma::solve(solve_tmp, delta_delta);
 		err_est = err_8_19;
 
 		// Alternative formula 8.20:
@@ -735,7 +735,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 			dy_alt_alt += delta_alt;
 			vec_type err_alt = dy_alt_alt - delta_y;
-			err_est = dt*arma::solve(solve_tmp, err_alt);
+			err_est = arma::solve(solve_tmp, err_alt);
 		}
 
 		double err_tot = 0.0;
-- 
2.43.0


From 94edda2fdcff0619a82007dcc16ea1659d3c4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 19/53] fix: embedded weights of LOBATTO_IIIC_43 and
 LOBATTO_IIIC_64 must have their order

---
 irk.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index c123ad6..00953e1 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -261,10 +261,12 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/6.0, 5.0/12.0, -1.0/12.0 },
 		         { 1.0/6.0, 2.0/3.0, 1.0/6.0 } };
 		sc.b  = { 1.0/6.0, 2.0/3.0, 1.0/6.0 };
-		sc.b2 = { 1.0/6.0, 1.0/6.0, 2.0/3.0, }; // -1.0/6.0, 5.0/6.0, 0. };
+		// gamma is the real eigenvalue of A.
+		sc.gamma = 0.380833877207265036;
+		sc.b2 = { 1.0/6.0 - sc.gamma, 2.0/3.0, 1.0/6.0 };
 		sc.c  = { 0.0, 0.5, 1.0 };
 		sc.order = 4;
-		sc.order2 = 2;
+		sc.order2 = 3;
 
 		break;
 
@@ -275,7 +277,9 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/12.0, (10 + 7*sqrt(5))/60., 0.25, -sqrt(5)/60.},
 		         { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 } };
 		sc.b  = { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 };
-		sc.b2 = { 1.0/12.0, 1.0/12.0, 5.0/12.0, 5.0/12.0};
+		// A has no real eigenvalue, so let gamma replace the first weight.
+		sc.gamma = 1.0/12.0;
+		sc.b2 = { 0.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 };
 		sc.c  = { 0.0, 0.5 - sqrt(5)/10., 0.5 + sqrt(5)/10., 1.0 };
 		sc.order = 6;
 		sc.order2 = 4;
-- 
2.43.0


From ff5426cccf3248d1a16c1259338104364492a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 20/53] fix: the initial step must not exceed max_dt either

---
 erk.hpp | 4 ++++
 irk.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/erk.hpp b/erk.hpp
index fc6d7a7..74ab6dc 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -272,6 +272,10 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		          << dt << "\n";
 	}
 
+	if (solver_opts.adaptive_step_size && solver_opts.max_dt > 0) {
+		dt = std::min(solver_opts.max_dt, dt);
+	}
+
 	std::cerr << "    Rehuel: Integrating over interval [ "
 	          << t0 << ", " << t1 << " ]...\n"
 	          << "            Method = " << sc.name << "\n";
diff --git a/irk.hpp b/irk.hpp
index a46c1be..24651dc 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -521,6 +521,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 	}
 
+	if (solver_opts.adaptive_step_size && solver_opts.max_dt > 0) {
+		dt = std::min(solver_opts.max_dt, dt);
+	}
+
 	output_opts.log_out << "    Rehuel: Integrating over interval [ "
 	                    << t0 << ", " << t1 << " ]...\n"
 	                    << "            Method = " << sc.name << "\n";
-- 
2.43.0


From ad46bbeef45a7e57b0bb07b152bbae413c1be55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 21/53] fix: non-finite right-hand sides must not hang, abort
 or be accepted

---
 erk.hpp | 22 +++++++++++++++++++-
 irk.hpp | 63 +++++++++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 71 insertions(+), 14 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 74ab6dc..4e607ba 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -346,6 +346,13 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			return sol;
 		}
 
+		// If the step size gets this small, t no longer changes.
+		if (t + dt == t || dt < std::numeric_limits<double>::min()) {
+			std::cerr << "    Rehuel: Time step size too small! Aborting!\n";
+			sol.status = GENERAL_ERROR;
+			return sol;
+		}
+
 		int integrator_status = 0;
 
 		// Formula for explicit stages are
@@ -383,7 +390,10 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 				err_tot += add*add;
 			}
 			err = std::sqrt(err_tot / n);
-			assert( err_tot >= 0.0 && "Error cannot be negative!" );
+			// A step that is not finite must always be rejected.
+			if (!std::isfinite(err) || !y_n.is_finite()) {
+				err = std::numeric_limits<double>::infinity();
+			}
 
 			if (err < machine_precision) {
 				err = machine_precision;
@@ -413,12 +423,22 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			// double err_rat = std::pow(err_frac, expt);
 			double min_scale = scale_27; // std::min(scale_27, scale_28);
 			new_dt = fac * dt * std::min(4.0, min_scale);
+			if (!std::isfinite(err)) {
+				new_dt = 0.1 * dt;
+			}
 
 			if (solver_opts.max_dt > 0) {
 				new_dt = std::min(solver_opts.max_dt, new_dt);
 			}
 		}
 
+		if (!solver_opts.adaptive_step_size && !y_n.is_finite()) {
+			std::cerr << "    Rehuel: Solution is not finite for constant "
+			          << "time step size! Aborting!\n";
+			sol.status = GENERAL_ERROR;
+			return sol;
+		}
+
 		// ********************* Output if user requested **************
 		if (solver_opts.out_interval > 0 &&
 		    (step % solver_opts.out_interval == 0) ) {
diff --git a/irk.hpp b/irk.hpp
index 24651dc..5b6f1a4 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -428,16 +428,18 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 
 			// Since we re-use the same Jacobi matrix,
 			// pre-construct the LU decomposition:
+			++jac_evals;
+			// Without a finite Jacobi matrix, iterating is no use.
+			if (!J_Y.is_finite()) return false;
 			if (PLU_decomposition) {
-				bool lu_success = arma::lu(L,U,P, J_Y);
-				assert(lu_success &&
-				       "LU decomposition of Jacobi matrix failed!");
-				(void) lu_success;
+				return arma::lu(L,U,P, J_Y);
 			}
-			++jac_evals;
+			return true;
 		};
 
-	refresh_jacobi_matrix();
+	stats.iters = 1;
+	stats.conv_status = newton::GENERIC_ERROR;
+	if (!refresh_jacobi_matrix()) return newton::GENERIC_ERROR;
 
 	// Start iterating:
 	double xtol2 = xtol*xtol;
@@ -458,6 +460,11 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 	int status = newton::MAXIT_EXCEEDED;
 	stats.iters = 1;
 	for ( ; stats.iters < maxit; ++stats.iters) {
+		if (!std::isfinite(Rnorm2)) {
+			status = newton::GENERIC_ERROR;
+			break;
+		}
+
 		vec_type dY;
 		if (PLU_decomposition) {
 			vec_type tmp = arma::solve(arma::trimatl(-L), P*R);
@@ -476,7 +483,7 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			status = newton::SUCCESS;
 			break;
 		}
-		if (xnorm2 < xtol2) {
+		if (xnorm2 < xtol2 && std::isfinite(Rnorm2)) {
 			status = newton::SUCCESS;
 			break;
 		}
@@ -485,7 +492,10 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 		}
 
 		if (refresh_jac > 0 && stats.iters % refresh_jac == 0) {
-			refresh_jacobi_matrix();
+			if (!refresh_jacobi_matrix()) {
+				status = newton::GENERIC_ERROR;
+				break;
+			}
 		}
 	}
 	stats.res = Rnorm2;
@@ -623,6 +633,14 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			return sol;
 		}
 
+		// If the step size gets this small, t no longer changes.
+		if (t + dt == t || dt < std::numeric_limits<double>::min()) {
+			output_opts.log_out << "    Rehuel: Time step size too small! "
+			                    << "Aborting!\n";
+			sol.status = GENERAL_ERROR;
+			return sol;
+		}
+
 		int integrator_status = 0;
 
 		// Use newton iteration to find the Ks for the next level:
@@ -727,11 +745,15 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		// J0 = func.jac( t, y );
 		// J was already calculated for us in newton_solve_stages:
 		mat_type solve_tmp = arma::eye(Neq,Neq) - gam*J;
-		vec_type err_8_19 = arma::solve(solve_tmp, delta_delta);
-		err_est = err_8_19;
+		bool finite = y_n.is_finite() && delta_delta.is_finite();
+		if (finite) {
+			vec_type err_8_19 = arma::solve(solve_tmp, delta_delta);
+			err_est = err_8_19;
+		}
 
 		// Alternative formula 8.20:
-		if( solver_opts.adaptive_step_size && alternative_error_formula ){
+		if( finite && solver_opts.adaptive_step_size &&
+		    alternative_error_formula ){
 			// Use the alternative formulation:
 			// vec_type dy_alt_alt = gamma*func.fun(t, y+err_est);
 			vec_type dy_alt_alt = gam*func.fun(t, y + err_est);
@@ -739,7 +761,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 			dy_alt_alt += delta_alt;
 			vec_type err_alt = dy_alt_alt - delta_y;
-			err_est = arma::solve(solve_tmp, err_alt);
+			finite = err_alt.is_finite();
+			if (finite) err_est = arma::solve(solve_tmp, err_alt);
 		}
 
 		double err_tot = 0.0;
@@ -757,9 +780,20 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			n += 1.0;
 		}
 
-		assert( err_tot >= 0.0 && "Error cannot be negative!" );
 		err = std::sqrt( err_tot / n );
 
+		if (!finite && !solver_opts.adaptive_step_size) {
+			output_opts.log_out << "    Rehuel: Solution is not finite "
+			                    << "for constant time step size! "
+			                    << "Aborting!\n";
+			sol.status = GENERAL_ERROR;
+			return sol;
+		}
+
+		// A step that is not finite must always be rejected.
+		if (!finite || !std::isfinite(err)) {
+			err = std::numeric_limits<double>::infinity();
+		}
 
 		if( err < machine_precision ){
 			err = machine_precision;
@@ -808,6 +842,9 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		double min_scales = std::min( scale_27, scale_28 );
 		// When growing dt, don't grow more than a factor 4:
 		new_dt = fac * dt * std::min( 8.0, min_scales );
+		if (!std::isfinite(err)) {
+			new_dt = 0.1 * dt;
+		}
 		if( solver_opts.max_dt > 0 ){
 			new_dt = std::min( solver_opts.max_dt, new_dt );
 		}
-- 
2.43.0


From acf7ede1de45b8cfc98154813123828adbbe2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 22/53] fix: Broyden steps must not exceed max_step

---
 newton.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index b1e3b8f..e50cb4f 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -310,8 +310,9 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 
 		if( max_step2 > 0 ){
 			double norm2 = dot( direction, direction );
-			if( lambda*lambda*norm2 > max_step2 ){
-				direction *= std::sqrt(max_step2/norm2)/lambda;
+			// lambda is already part of direction here.
+			if( norm2 > max_step2 ){
+				direction *= std::sqrt(max_step2/norm2);
 			}
 		}
 		incr = arma::norm(direction, "inf");
-- 
2.43.0


From a6d320f75d6d5b177d511b8842e271e0cba17480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 23/53] fix: Broyden must not report success without converging

---
 newton.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/newton.hpp b/newton.hpp
index e50cb4f..da98d12 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -346,6 +346,12 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 	}
 
 	stats.res = std::sqrt( res2 );
+	if( !terminate ){
+		stats.conv_status = MAXIT_EXCEEDED;
+	}
+	if( !std::isfinite( stats.res ) ){
+		stats.conv_status = GENERIC_ERROR;
+	}
 	return x;
 }
 
-- 
2.43.0


From 310c2dea4ead3f13a30f0352a06f80bcafa350bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 24/53] fix: Newton iteration converging in its last iteration
 is a success

---
 newton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newton.hpp b/newton.hpp
index da98d12..0734b98 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -528,7 +528,7 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 	}
 
 
-	if( stats.iters == opts.maxit ){
+	if( !terminate ){
 		stats.conv_status = MAXIT_EXCEEDED;
 	}
 	stats.res = std::sqrt( res2 );
-- 
2.43.0


From 42409704fe78d05e7458adcb947ad978769d587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 25/53] fix: cyclic_buffer must be assignable

---
 cyclic_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 680bc2f..60e78db 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -24,7 +24,7 @@ public:
 
 	cyclic_buffer &operator=( const cyclic_buffer &o )
 	{
-		if(*this != &o){
+		if(this != &o){
 			if(period_ >= o.period()){
 				// No need to resize.
 			}
-- 
2.43.0


From 64013d9dbf7f2e3a49110cd77d337e45ae8ffa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 26/53] fix: cyclic_buffer iterators must visit the contents,
 most recent first

---
 cyclic_buffer.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 60e78db..b25c8dd 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -130,7 +130,8 @@ public:
 
 	struct iterator
 	{
-		iterator(long idx, typename std::vector<T>::iterator it){}
+		iterator(long idx, typename std::vector<T>::iterator it)
+			: idx_(idx), it_(it) {}
 
 		// We iterate backwards through the vector...
 		iterator &operator++()
@@ -165,11 +166,9 @@ public:
 
 	iterator end()
 	{
-		if (current_ >= period_) {
-			return iterator(current_ = period_, storage_.begin());
-		} else {
-			return iterator(0, storage_.begin());
-		}
+		// One past the oldest element, going backwards. When empty,
+		// this is begin().
+		return iterator(current_ - size_, storage_.begin());
 	}
 
 	/**
-- 
2.43.0


From b3d61f07b7d7dce1dbd0f7662a3d3d879003393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 27/53] fix: cyclic_buffer must be usable after resize

---
 cyclic_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index b25c8dd..0f6fb18 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -179,9 +179,10 @@ public:
 	void resize(std::size_t size)
 	{
 		storage_.clear();
-		storage_.reserve(2*size);
+		storage_.resize(2*size);
 		period_  = size;
 		current_ = 0;
+		size_    = 0;
 	}
 
 	/*
-- 
2.43.0


From 1d56bfdaa1b4f6b7b2ad89fbb3b35855c25406e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 28/53] fix: timing breakdown in seconds was off by a factor
 ten

---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 5b6f1a4..2fd691b 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -344,7 +344,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
 	std::string time_unit = "ms";
 	double time_scale = 1.0;
 	if (total_t > 1000) {
-		time_scale = 0.0001;
+		time_scale = 0.001;
 		time_unit = " s";
 	}
 	total_t *= time_scale;
-- 
2.43.0


From 32cb05764737bb927227550fe524e8c60c564710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 29/53] fix: output_options must not hold an uninitialized
 stream pointer

---
 options.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/options.hpp b/options.hpp
index 951e07a..665e930 100644
--- a/options.hpp
+++ b/options.hpp
@@ -103,7 +103,7 @@ struct output_options {
 	std::size_t output_mode = STORE_IN_VECTORS;
 	std::size_t output_interval = 1;
 	std::ostream &log_out = std::cout;
-	std::ostream *output_stream;
+	std::ostream *output_stream = nullptr;
 
 	bool store_in_vectors() const
 	{
-- 
2.43.0


From 9ca263b17512b78c6a20d8f1a38891512d6d602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 30/53] fix: stability regions of explicit methods must use
 explicit coefficients

---
 stability_region/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 690f033..af1bedd 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -120,7 +120,7 @@ void stability_region(const std::string &method, bool embedded_method,
 	}
 	m = erk::name_to_method(method);
 	if (m) {
-		auto sc = irk::get_coefficients(m);
+		auto sc = erk::get_coefficients(m);
 		// std::cerr << "Coeffs:\n" << sc << "\n";
 		S = rk_to_stab_region(X, Y, sc, embedded_method);
 	} else {
-- 
2.43.0


From 9c27d4f7787137895f2b268b4a99d01cad2b6a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 31/53] fix: stability regions of methods without an embedded
 method

---
 stability_region/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index af1bedd..8d74c4d 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -35,6 +35,8 @@ std::complex<double> stability_function(std::complex<double> z,
                                         const arma::vec &b)
 {
 	std::size_t N = b.size();
+	// Not every method has an embedded method.
+	if (N == 0) return std::nan("");
 	arma::vec e = arma::ones(N);
 	arma::mat I = arma::eye(N,N);
 	arma::cx_mat M = I - z*A;
-- 
2.43.0


From e76ea3d5b95697e69e9e2fbd836f5b82f9afe97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 32/53] fix: multistep methods must report a failure to get
 started

---
 multistep.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index 1cb0ea5..876503c 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -134,6 +134,10 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	for (int i = 1; i < order; ++i) {
 		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
 		                           opts, output_opts, method);
+		if (tmp_sol.status != SUCCESS) {
+			start.status = INTERNAL_SOLVE_FAILURE;
+			return start;
+		}
 		std::size_t Nt = tmp_sol.t_vals.size();
 		t += dt;
 		start.t_vals.push_back(t);
@@ -180,6 +184,10 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 		sol.y_vals.push_back(hist.y_vals[i]);
 		history.push_back(hist.y_vals[i]);
 	}
+	if (hist.status != SUCCESS) {
+		sol.status = hist.status;
+		return sol;
+	}
 	std::size_t hist_size = sol.t_vals.size();
 	t = sol.t_vals[hist_size-1];
 	y = sol.y_vals[hist_size-1];
@@ -265,6 +273,10 @@ multistep::multistep_output bdf(functor_type &func, double t0, double t1,
 		sol.y_vals.push_back(hist.y_vals[i]);
 		history.push_back(hist.y_vals[i]);
 	}
+	if (hist.status != SUCCESS) {
+		sol.status = hist.status;
+		return sol;
+	}
 	std::size_t hist_size = sol.t_vals.size();
 	t = sol.t_vals[hist_size-1];
 	y = sol.y_vals[hist_size-1];
-- 
2.43.0


From 598d2a401bf83280894caf6808d3cdf344ee597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 33/53] fix: Adams-Bashforth must report an order it does not
 support

---
 multistep.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index 876503c..a01d440 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -168,6 +168,12 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 	multistep_output sol;
 	sol.status = SUCCESS;
 
+	if (solver_opts.order < 1 || solver_opts.order > 5) {
+		std::cerr << "Adams-Bashforth only has orders 1 to 5!\n";
+		sol.status = GENERAL_ERROR;
+		return sol;
+	}
+
 	assert(dt > 0 && "Cannot use time step size <= 0!");
 
 	my_timer timer;
-- 
2.43.0


From 5fd0dea38acac612290806e8696df5d2cfc1db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 34/53] fix: define the predicates on methods that irk.hpp
 declares

---
 irk.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index 00953e1..8bc9e1c 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -694,6 +694,24 @@ solver_coeffs get_coefficients( int method )
 }
 
 
+bool is_method_explicit( const solver_coeffs &sc )
+{
+	return arma::all( arma::vectorise( arma::trimatu( sc.A ) ) == 0.0 );
+}
+
+
+bool is_method_dirk( const solver_coeffs &sc )
+{
+	return arma::all( arma::vectorise( arma::trimatu( sc.A, 1 ) ) == 0.0 );
+}
+
+
+bool is_method_sdirk( const solver_coeffs &sc )
+{
+	return is_method_dirk( sc ) && arma::all( sc.A.diag() == sc.A(0,0) );
+}
+
+
 solver_options default_solver_options()
 {
 	solver_options s;
-- 
2.43.0


From a7ca96fce18d35f36c0d95a0de1b5c0e87733323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 35/53] fix: Adams-Bashforth must not report success for a
 non-finite solution

---
 multistep.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index a01d440..c84b0d2 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -200,6 +200,11 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 
 	while (t < t1) {
 		adams_bashforth_step(func, solver_opts.order, y, t, dt, history);
+		if (!y.is_finite()) {
+			std::cerr << "    Rehuel: Solution is not finite! Aborting!\n";
+			sol.status = GENERAL_ERROR;
+			return sol;
+		}
 		history.push_back(y);
 		t += dt;
 		++step;
-- 
2.43.0


From cdc6e88ed675e67e9bda3983d797a1272efa763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 36/53] fix: stability of embedded methods must include the
 weight gamma

---
 stability_region/main.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 8d74c4d..3c756e0 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -32,7 +32,8 @@
 
 std::complex<double> stability_function(std::complex<double> z,
                                         const arma::mat &A,
-                                        const arma::vec &b)
+                                        const arma::vec &b,
+                                        double gamma = 0.0)
 {
 	std::size_t N = b.size();
 	// Not every method has an embedded method.
@@ -42,7 +43,7 @@ std::complex<double> stability_function(std::complex<double> z,
 	arma::cx_mat M = I - z*A;
 	auto Ai = arma::inv(M);
 	std::complex<double> one(1.0,0.0);
-	return one + z*arma::dot(b, Ai*e);
+	return one + z*(gamma + arma::dot(b, Ai*e));
 }
 
 
@@ -70,7 +71,7 @@ arma::mat rk_to_stab_region(const arma::vec &X, const arma::vec &Y,
 		for (std::size_t j = 0; j < M; ++j) {
 			std::complex<double> z(X(i), Y(j));
 			if (embedded_method) {
-				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2));
+				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2, sc.gamma));
 			} else {
 				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b));
 			}
@@ -93,14 +94,14 @@ void stability_limit(const std::string &method, std::ostream &out)
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
 		}
 	} else if(int m = erk::name_to_method(method)) {
 		erk::solver_coeffs sc = erk::get_coefficients(m);
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
 		}
 	}
 }
-- 
2.43.0


From 21fcdbf7e22229c07dcaecb7a5ff0d0760f16d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 37/53] fix: stability program must report an unknown method

---
 stability_region/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 3c756e0..dbbd936 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -153,6 +153,10 @@ int main(int argc, char **argv)
 	std::cerr << "\n";
 
 	std::string method(argv[1]);
+	if (!irk::name_to_method(method) && !erk::name_to_method(method)) {
+		std::cerr << "Method " << method << " not recognized!\n";
+		return -1;
+	}
 	if (int method_enum = irk::name_to_method(method)) {
 		auto sc = irk::get_coefficients(method_enum);
 		std::cerr << "Method coeffs:\n" << sc << "\n";
-- 
2.43.0


From 11c6da4ebf74211cc171c07eedf99d09f1fb65cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 38/53] fix: stability program must survive the poles of the
 stability function

---
 stability_region/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index dbbd936..34fcdd1 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -41,7 +41,9 @@ std::complex<double> stability_function(std::complex<double> z,
 	arma::vec e = arma::ones(N);
 	arma::mat I = arma::eye(N,N);
 	arma::cx_mat M = I - z*A;
-	auto Ai = arma::inv(M);
+	arma::cx_mat Ai;
+	// The stability function has poles.
+	if (!arma::inv(Ai, M)) return std::numeric_limits<double>::infinity();
 	std::complex<double> one(1.0,0.0);
 	return one + z*(gamma + arma::dot(b, Ai*e));
 }
-- 
2.43.0


From a587cab75cdaaafdcfd26c5a9b8633befdbebbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 39/53] fix: a far too large error must not shrink the step
 size to nothing

A step size controller is only valid for small errors. After a step that was
far too large it could pick a step that no longer changes the time.
---
 erk.hpp | 2 ++
 irk.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/erk.hpp b/erk.hpp
index 4e607ba..0b9eab0 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -422,6 +422,8 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			// }
 			// double err_rat = std::pow(err_frac, expt);
 			double min_scale = scale_27; // std::min(scale_27, scale_28);
+			// An error far too large says little about the right dt:
+			min_scale = std::max(0.1, min_scale);
 			new_dt = fac * dt * std::min(4.0, min_scale);
 			if (!std::isfinite(err)) {
 				new_dt = 0.1 * dt;
diff --git a/irk.hpp b/irk.hpp
index 2fd691b..88e8c5d 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -840,6 +840,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		*/
 
 		double min_scales = std::min( scale_27, scale_28 );
+		// An error far too large says little about the right dt:
+		min_scales = std::max( 0.1, min_scales );
 		// When growing dt, don't grow more than a factor 4:
 		new_dt = fac * dt * std::min( 8.0, min_scales );
 		if (!std::isfinite(err)) {
-- 
2.43.0


From 811802babe409a6aea6a7eaec51cad63a7690721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 40/53] fix: a failing step up to the final time must not be
 retried forever

When t1 - t is a rounding error, t + dt still rounds to t1 after dt was made
smaller, so that dt was set back to t1 - t again and again.
---
 erk.hpp |  9 +++++++--
 irk.hpp | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 0b9eab0..a164b72 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -305,6 +305,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	}
 
 	double err = 0.0;
+	double dt_failed = std::numeric_limits<double>::infinity();
 	vec_type err_est = arma::zeros(Neq);
 	sol.t_vals.push_back(t);
 	sol.y_vals.push_back(y);
@@ -346,8 +347,10 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			return sol;
 		}
 
-		// If the step size gets this small, t no longer changes.
-		if (t + dt == t || dt < std::numeric_limits<double>::min()) {
+		// If the step size gets this small, t no longer changes, or the
+		// step that failed before can no longer be made smaller.
+		if (t + dt == t || dt >= dt_failed ||
+		    dt < std::numeric_limits<double>::min()) {
 			std::cerr << "    Rehuel: Time step size too small! Aborting!\n";
 			sol.status = GENERAL_ERROR;
 			return sol;
@@ -408,6 +411,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			// Error is too large to tolerate:
 			if (solver_opts.adaptive_step_size && (err >= 1.0)) {
 				integrator_status = 1;
+				dt_failed = dt;
 				sol.count.reject_err++;
 			}
 
@@ -453,6 +457,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			y  = y_n;
 			// t + (t1 - t) need not round to t1.
 			t = final_step ? t1 : t + dt;
+			dt_failed = std::numeric_limits<double>::infinity();
 			++step;
 
 			if (step % output_opts.output_interval == 0) {
diff --git a/irk.hpp b/irk.hpp
index 88e8c5d..5e0c54f 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -584,6 +584,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	double dts[3];
 	double errs[3];
 	double err = 0.0;
+	double dt_failed = std::numeric_limits<double>::infinity();
 	double new_dt = dt;
 	dts[0] = dts[1] = dts[2] = dt;
 	errs[0] = errs[1] = errs[2] = 0.9;
@@ -633,8 +634,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			return sol;
 		}
 
-		// If the step size gets this small, t no longer changes.
-		if (t + dt == t || dt < std::numeric_limits<double>::min()) {
+		// If the step size gets this small, t no longer changes, or the
+		// step that failed before can no longer be made smaller.
+		if (t + dt == t || dt >= dt_failed ||
+		    dt < std::numeric_limits<double>::min()) {
 			output_opts.log_out << "    Rehuel: Time step size too small! "
 			                    << "Aborting!\n";
 			sol.status = GENERAL_ERROR;
@@ -667,6 +670,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 				return sol;
 			}
 
+			dt_failed = dt;
 			dt *= 0.7;
 			if (step - last_maxit_relax_step > 15) {
 				newton_maxit += newton_maxit0;
@@ -808,6 +812,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			// This is bad.
 			alternative_error_formula = true;
 			integrator_status = 1;
+			dt_failed = dt;
 			sol.count.reject_err++;
 		}
 
@@ -867,6 +872,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			y  = y_n;
 			// t + (t1 - t) need not round to t1.
 			t = final_step ? t1 : t + dt;
+			dt_failed = std::numeric_limits<double>::infinity();
 			++step;
 
 			if (time_internals) {
-- 
2.43.0


From 2a9e0cac833f3b74c7b3a20cd09f0c3f2fcc5902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 41/53] fix: is_method_dirk must not throw for methods with a
 single stage

---
 irk.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index 8bc9e1c..39612c4 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -702,7 +702,9 @@ bool is_method_explicit( const solver_coeffs &sc )
 
 bool is_method_dirk( const solver_coeffs &sc )
 {
-	return arma::all( arma::vectorise( arma::trimatu( sc.A, 1 ) ) == 0.0 );
+	mat_type upper = arma::trimatu( sc.A );
+	upper.diag().zeros();
+	return arma::all( arma::vectorise( upper ) == 0.0 );
 }
 
 
-- 
2.43.0


From 9035e37f5d91353c6329edb2e228df5664da3f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 42/53] fix: coefficients of unsupported methods must not have
 indeterminate orders

---
 erk.cpp | 1 +
 irk.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/erk.cpp b/erk.cpp
index 4c30dbc..4b7fb10 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -15,6 +15,7 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = sc.order2 = 0;
 
 
 	switch(method){
diff --git a/irk.cpp b/irk.cpp
index 39612c4..48551e5 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -226,6 +226,7 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = sc.order2 = 0;
 
 	switch(method){
 	default:
-- 
2.43.0


From 3343ac068eff28d50527fbb0326e8313f1b851aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 43/53] fix: a Newton or Broyden step cut short by max_step
 must not pass for convergence

---
 newton.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index 0734b98..13f5722 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -308,6 +308,9 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 		double lambda = 1.0 / sqrt(1.0 + res2);
 		vec_type direction = -lambda*(Jaci*f0);
 
+		// Limiting the step is no convergence.
+		incr = arma::norm(direction, "inf");
+
 		if( max_step2 > 0 ){
 			double norm2 = dot( direction, direction );
 			// lambda is already part of direction here.
@@ -315,7 +318,6 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 				direction *= std::sqrt(max_step2/norm2);
 			}
 		}
-		incr = arma::norm(direction, "inf");
 
 		x = x0 + direction;
 		r = func.fun(x);
@@ -469,6 +471,10 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 		}
 		//std::cerr << "Step direction: " << direction << "\n";
 
+		// Limiting the step is no convergence.
+		incr0 = incr1;
+		incr1 = arma::norm(direction, "inf");
+
 		if( max_step2 > 0 ){
 			double norm2 = dot( direction, direction );
 			if( lambda*lambda*norm2 > max_step2 ){
@@ -494,9 +500,6 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 		f0 = r;
 		x0 = xn;
 
-		incr0 = incr1;
-		incr1 = arma::norm(direction, "inf");
-
 		++stats.iters;
 
 		/*
-- 
2.43.0


From e6bc46f9d6e470e10016c248fd98866c40a15a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 44/53] fix: Newton must not report success where a singular
 Jacobi matrix gives no direction

---
 newton.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/newton.hpp b/newton.hpp
index 13f5722..cb55c23 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -475,6 +475,11 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 		incr0 = incr1;
 		incr1 = arma::norm(direction, "inf");
 
+		// Neither is a singular Jacobi matrix that gives no direction.
+		bool stuck = incr1 < opts.dx_delta &&
+			arma::norm(r) > opts.tol &&
+			arma::norm(J*direction + r) > 0.5*arma::norm(r);
+
 		if( max_step2 > 0 ){
 			double norm2 = dot( direction, direction );
 			if( lambda*lambda*norm2 > max_step2 ){
@@ -526,7 +531,7 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 
 		if( incr1 < opts.dx_delta ){
 			terminate = true;
-			stats.conv_status = SUCCESS;
+			stats.conv_status = stuck ? GENERIC_ERROR : SUCCESS;
 		}
 	}
 
-- 
2.43.0


From d919f2ee3027d05e86bfe5e9988d7023aa3928a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 45/53] fix: a root that is not finite must not be a success

---
 newton.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index cb55c23..c914773 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -351,7 +351,7 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 	if( !terminate ){
 		stats.conv_status = MAXIT_EXCEEDED;
 	}
-	if( !std::isfinite( stats.res ) ){
+	if( !std::isfinite( stats.res ) || !x.is_finite() ){
 		stats.conv_status = GENERIC_ERROR;
 	}
 	return x;
@@ -542,7 +542,7 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 	stats.res = std::sqrt( res2 );
 	stats.eta_final = eta_k;
 	// Check whether or not res is NaN or inf or somesuch.
-	if( !std::isfinite( stats.res ) ){
+	if( !std::isfinite( stats.res ) || !xn.is_finite() ){
 		stats.conv_status = GENERIC_ERROR;
 	}
 
-- 
2.43.0


From cd3cb07ed11a389ba835cf42fbb24171c748bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 46/53] fix: inserting in a cyclic_buffer without room must not
 write out of bounds

---
 cyclic_buffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 0f6fb18..0dfbebe 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -101,6 +101,9 @@ public:
 
 	void push_back( const T &t )
 	{
+		// A buffer without room for elements stays empty.
+		if (period_ == 0) return;
+
 		// Add t to the internal buffer.
 		long next_spot = current_ + 1;
 		if (size_ == 0) {
-- 
2.43.0


From 841a0063f827d88b21a7a3e79ad16cafba4977cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 47/53] fix: elements written to a cyclic_buffer must survive
 its wrapping around

---
 cyclic_buffer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 0dfbebe..465b6d0 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -1,6 +1,7 @@
 #ifndef CYCLIC_BUFFER
 #define CYCLIC_BUFFER
 
+#include <algorithm>
 #include <cassert>
 #include <vector>
 #include <iostream>
@@ -118,6 +119,10 @@ public:
 		}
 		current_ = next_spot;
 		if (next_spot == 2*period_ - 1) {
+			// Elements may have been written to since they were
+			// added, which changed only their upper copy.
+			std::copy(storage_.begin() + period_, storage_.end(),
+			          storage_.begin());
 			current_ = period_ - 1;
 		}
 
-- 
2.43.0


From 9681a69a7fae49c607937543fb49816f84ae3ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 48/53] fix: start-up points of multistep methods must be
 solved to the accuracy asked for

---
 multistep.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index c84b0d2..fde685c 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -130,6 +130,9 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	opts.newton_opts = &n_opts;
 	opts.rel_tol = 1e-10;
 	opts.abs_tol = 1e-9;
+	// Solve for the stages accurately enough for those tolerances:
+	n_opts.tol = 0.1*(opts.abs_tol + opts.rel_tol*arma::norm(y, "inf"));
+	n_opts.dx_delta = n_opts.tol;
 
 	for (int i = 1; i < order; ++i) {
 		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
-- 
2.43.0


From c51b08709e9666aa371f5c73efa0732922a4fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 49/53] fix: merged accepted fraction must be relative to the
 attempts, and not NaN

---
 irk.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index 48551e5..e116532 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -794,11 +794,12 @@ rk_output merge_rk_output( const rk_output &sol1, const rk_output &sol2 )
 	                   sol2.err.begin(), sol2.err.end() );
 
 	merger.elapsed_time += sol2.elapsed_time;
-	double steps1 = sol1.t_vals.size();
-	double steps2 = sol2.t_vals.size();
+	// accept_frac is relative to the number of attempts:
+	double steps1 = sol1.count.attempt;
+	double steps2 = sol2.count.attempt;
 	double total_steps = steps1 + steps2;
 	merger.accept_frac = steps1*sol1.accept_frac + steps2*sol2.accept_frac;
-	merger.accept_frac /= total_steps;
+	if (total_steps > 0) merger.accept_frac /= total_steps;
 
 	merger.count.attempt += sol2.count.attempt;
 	merger.count.reject_newton += sol2.count.reject_newton;
-- 
2.43.0


From d31ff08ecc74ce7b810361f7d28ed8464a395e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 50/53] fix: printing must not change the precision of the
 stream

---
 irk.cpp | 2 ++
 irk.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index e116532..9246bcf 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -842,6 +842,7 @@ void restore_state( const rk_output &sol, double &t, vec_type &y, vec_type &K,
 std::ostream &operator<<(std::ostream &o, const irk::solver_coeffs &sc)
 {
 	const int number_width = 6;
+	const std::streamsize old_precision = o.precision();
 	o << sc.name << '\n';
 	for (std::size_t i = 0; i < sc.c.size(); ++i) {
 		o << std::setw(number_width+4) << std::setprecision(number_width) << sc.c[i] << " | ";
@@ -865,5 +866,6 @@ std::ostream &operator<<(std::ostream &o, const irk::solver_coeffs &sc)
 		}
 		o << "\n";
 	}
+	o.precision(old_precision);
 	return o;
 }
diff --git a/irk.hpp b/irk.hpp
index 5e0c54f..47dc1b4 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -330,6 +330,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
                                    const std::string &method_name = "IRK")
 {
 	double total_t = std::accumulate(timings.begin(), timings.end(), 0.0);
+	const std::streamsize old_precision = out.precision();
 
 	auto print_line = [&out](double t, double total, const char *txt)
 	{
@@ -357,6 +358,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
 	print_line(time_scale*timings[3], total_t, "Store solution:              ");
 	print_line(time_scale*timings[4], total_t, "Error estimate:              ");
 	print_line(time_scale*timings[5], total_t, "Calculate optimal step:      ");
+	out.precision(old_precision);
 }
 
 
-- 
2.43.0


From a88dc6fdafb9f9ecc46c8913a6194269a122d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 51/53] fix: counters and elapsed time must also be right when
 an integration gives up

---
 erk.hpp | 14 ++++++++------
 irk.hpp | 33 ++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index a164b72..184edc2 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -338,13 +338,11 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( final_step ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
-
 		if (solver_opts.max_steps >= 0 &&
 		    step >= solver_opts.max_steps) {
 			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
-			return sol;
+			break;
 		}
 
 		// If the step size gets this small, t no longer changes, or the
@@ -353,9 +351,10 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		    dt < std::numeric_limits<double>::min()) {
 			std::cerr << "    Rehuel: Time step size too small! Aborting!\n";
 			sol.status = GENERAL_ERROR;
-			return sol;
+			break;
 		}
 
+		sol.count.attempt++;
 		int integrator_status = 0;
 
 		// Formula for explicit stages are
@@ -441,8 +440,9 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if (!solver_opts.adaptive_step_size && !y_n.is_finite()) {
 			std::cerr << "    Rehuel: Solution is not finite for constant "
 			          << "time step size! Aborting!\n";
+			sol.count.reject_err++;
 			sol.status = GENERAL_ERROR;
-			return sol;
+			break;
 		}
 
 		// ********************* Output if user requested **************
@@ -494,7 +494,9 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	}
 	double elapsed = timer.toc();
 	sol.elapsed_time = elapsed;
-	sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	if (sol.count.attempt > 0) {
+		sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	}
 	return sol;
 }
 
diff --git a/irk.hpp b/irk.hpp
index 47dc1b4..6034e80 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -628,12 +628,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( final_step ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
-
 		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
-			return sol;
+			break;
 		}
 
 		// If the step size gets this small, t no longer changes, or the
@@ -643,9 +641,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			output_opts.log_out << "    Rehuel: Time step size too small! "
 			                    << "Aborting!\n";
 			sol.status = GENERAL_ERROR;
-			return sol;
+			break;
 		}
 
+		sol.count.attempt++;
 		int integrator_status = 0;
 
 		// Use newton iteration to find the Ks for the next level:
@@ -663,13 +662,22 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 		// *********** Verify Newton iteration convergence ************
 		if (newton_status != newton::SUCCESS){
+			sol.count.reject_newton++;
+			if (newton_status == newton::INCREMENT_DIVERGE){
+				sol.count.newton_incr_diverge++;
+			}else if (newton_status == newton::ITERATION_ERROR_TOO_LARGE){
+				sol.count.newton_iter_error_too_large++;
+			}else if (newton_status == newton::MAXIT_EXCEEDED){
+				sol.count.newton_maxit_exceed++;
+			}
+
 			if (!solver_opts.adaptive_step_size) {
 				// In this case, you can do nothing but error.
 				sol.status = GENERAL_ERROR;
 				output_opts.log_out << "   Rehuel: Newton iteration "
 				          << "failed for constant time step "
 				          << "size! Aborting!\n";
-				return sol;
+				break;
 			}
 
 			dt_failed = dt;
@@ -686,14 +694,6 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			          << ".\n        Retrying with dt = " << dt
 			          << " and maxit = " << newton_maxit << "\n";
 			*/
-			sol.count.reject_newton++;
-			if (newton_status == newton::INCREMENT_DIVERGE){
-				sol.count.newton_incr_diverge++;
-			}else if (newton_status == newton::ITERATION_ERROR_TOO_LARGE){
-				sol.count.newton_iter_error_too_large++;
-			}else if (newton_status == newton::MAXIT_EXCEEDED){
-				sol.count.newton_maxit_exceed++;
-			}
 			continue;
 		} else {
 			sol.count.newton_success++;
@@ -792,8 +792,9 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			output_opts.log_out << "    Rehuel: Solution is not finite "
 			                    << "for constant time step size! "
 			                    << "Aborting!\n";
+			sol.count.reject_err++;
 			sol.status = GENERAL_ERROR;
-			return sol;
+			break;
 		}
 
 		// A step that is not finite must always be rejected.
@@ -921,7 +922,9 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 	double elapsed = timer.get_elapsed(irk_start);
 	sol.elapsed_time = elapsed;
-	sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	if (sol.count.attempt > 0) {
+		sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	}
 
 	if (time_internals) print_timing_breakdown(timings, std::cerr, sc.name);
 
-- 
2.43.0


From 0bcc5cce6969e6f21af7cd238a3520bbb80d000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 52/53] fix: time a repeated Newton iteration from its own
 start

---
 irk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irk.hpp b/irk.hpp
index 6034e80..372c97f 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -648,6 +648,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		int integrator_status = 0;
 
 		// Use newton iteration to find the Ks for the next level:
+		if (time_internals) timer.tic();
 		int newton_status = newton_solve_stages<functor_type,
 		                                        false, true>(
 			func, y, t, dt, sc,
-- 
2.43.0


From 85c39ccd8cf3c976dcb6aea9f0a2c18906b51a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:03 +0000
Subject: [PATCH 53/53] fix: BDF calls the functor it was given, not a copy of
 it

---
 multistep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multistep.hpp b/multistep.hpp
index fde685c..f194b6d 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -327,7 +327,7 @@ multistep::multistep_output bdf(functor_type &func, double t0, double t1,
 		jac_type jac(const arma::vec &y)
 		{ return I - func_weight*func.jac(t_nplus, y); }
 
-	        functor_type func;
+	        functor_type &func;
 		double t_nplus;
 		arma::vec const_part;
 		double func_weight;
-- 
2.43.0

