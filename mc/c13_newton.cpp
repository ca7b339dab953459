// C13: the Newton iteration.  Every call of the functor is logged; the whole
// iteration is replayed from the log.
#include "systems.hpp"
using namespace mc;

static void body(Run &r)
{
	bool th = r.eng->thorough();
	int id = r.cfg(N_SYS + 1);
	if (id == N_SYS) {      // messages
		int st = r.cfg(8) - 1; r.desc = fmt("status_message(%d)", st); r.begin();
		static const char *n[] = {"SUCCESS", "INCREMENT_DIVERGE", "ITERATION_ERROR_TOO_LARGE", "MAXIT_EXCEEDED", "GENERIC_ERROR"};
		std::string m = newton::status_message(st);
		if (st >= 0 && st < 5) { if (m != n[st]) fail("message", r.desc + " is '" + m + "'"); }
		else for (auto x : n) if (m == x) fail("message", r.desc + " is '" + m + "'");
		return;
	}
	Sys s = make_sys(id);
	arma::vec x0 = r.of(s.starts);
	std::vector<arma::vec> off = {{}, {1e-3}}; if (th) { off.push_back({-0.05}); off.push_back({1e-9}); }
	if (!s.roots.empty()) {                    // also from near a root
		int k = r.cfg(1 + (off.size() - 1)*s.roots.size());
		if (k) { x0 = s.roots[(k - 1) % s.roots.size()]; for (std::size_t i = 0; i < x0.size(); ++i) x0(i) += off[1 + (k - 1)/s.roots.size()](0)*(i % 2 ? -1 : 1); }
	}
	bool near_root = false; for (auto &q : s.roots) near_root |= ninf(arma::vec(x0 - q)) < 2e-3;
	newton::options o;
	int bits = r.cfg(16);      // refresh_jac, precondition, limit_step, time_internals
	std::vector<int> refs = {1, 4, 10};
	o.refresh_jac = bits & 1 ? r.of(refs) : 0; o.precondition = bits & 2; o.limit_step = bits & 4; o.time_internals = bits & 8;
	std::vector<double> dxs = {1e-4, 1e-9}; if (th) { dxs.push_back(1e-12); dxs.push_back(0.1); }
	o.dx_delta = r.of(dxs);
	std::vector<double> tols = {1e-4}; if (th) tols.push_back(1e-12); o.tol = r.of(tols);
	std::vector<double> mst = {-1, 0.5}; if (th) { mst.push_back(0); mst.push_back(0.011); } o.max_step = r.of(mst);
	std::vector<int> mi = {200, 0, 1, 2, 3, 5}; if (th) for (int i : {4, 6, 7, 8, 10, 15}) mi.push_back(i);
	o.maxit = r.of(mi);
	bool quiet = !(bits & 8 || (o.maxit == 3 && o.max_step < 0 && o.dx_delta == 1e-4 && o.tol == 1e-4)) || !r.cfg(2);
	int via = o.maxit == 200 && bits < 8 ? r.cfg(3) : 0;
	r.desc = fmt("%s from %s: refresh=%d precondition=%d limit_step=%d dx=%g tol=%g max_step=%g maxit=%d via=%d quiet=%d", s.name, vs(x0).c_str(),
	             o.refresh_jac, o.precondition, o.limit_step, o.dx_delta, o.tol, o.max_step, o.maxit, via, quiet);
	r.begin();
	// faults: one answer of the first calls replaced
	bool faulted = false; long fault_at = -1; bool threw = false;
	s.hook = [&](long k, bool jac, arma::vec *v, arma::mat *m) {
		if (k > (th ? 11 : 6)) return;
		int f = r.dev(jac ? 4 : 4);
		if (!f) return;
		faulted = true; fault_at = k;
		double bad[] = {0, NAN, INFINITY, 1e300};
		if (v) (*v)(v->size() - 1) = bad[f]; else { if (f == 3) m->zeros(); else (*m)(0, m->n_cols - 1) = bad[f]; }
	};
	newton::status st; st.conv_status = -77; st.iters = -77; st.res = -77;
	arma::vec x = x0, got;
	newton::options ocopy = o;
	std::string printed;
	try {
		Printed cap; struct Keep { Printed &c; std::string &s; ~Keep() { s = c.text.str(); } } keep{cap, printed};
		if (via == 0) got = newton::newton_iterate(s, x, o, st, quiet);
		else if (via == 1) {
			auto F = [&s](const arma::vec &y) { return s.fun(y); }; auto G = [&s](const arma::vec &y) { return s.jac(y); };
			newton::newton_lambda_wrapper<decltype(F), decltype(G), arma::mat> w(F, G);
			got = newton::newton_iterate(w, x, o, st, quiet);
		} else {
			struct Ode : functor { Sys *s; double t = 0; bool bad = false; arma::vec fun(double tt, const arma::vec &y) override { bad |= tt != 2.5; return s->fun(y); }
				arma::mat jac(double tt, const arma::vec &y) override { bad |= tt != 2.5; return s->jac(y); } } q; q.s = &s;
			newton::newton_functor_wrapper<Ode> w(q, 2.5);
			got = newton::newton_iterate(w, x, o, st, quiet);
			if (q.bad) fail("wrapper", r.desc + ": the wrapper evaluates at another time");
		}
	} catch (std::exception &e) { fail("throws", r.desc + ": " + e.what()); }
	for (auto &c : s.log) { r.eng->state(hstate(c.jac, c.y)); }
	r.eng->transitions += s.log.size(); r.eng->validated++;
	std::string d = r.desc + fmt(" -> status %d iters %d res %.17g %s%s", st.conv_status, st.iters, st.res, vs(got).c_str(), faulted ? fmt(" (bad answer to call %ld)", fault_at).c_str() : "");
	if (ninf(arma::vec(x - x0)) != 0 && fin(x0)) fail("argument", d + ": the start was modified");
	if (std::memcmp(&ocopy.tol, &o.tol, 8) || ocopy.maxit != o.maxit) fail("argument", d + ": options modified");
	// replay
	std::vector<arma::vec> xs, fs; std::vector<int> jac_of; std::vector<arma::mat> Js; std::vector<arma::vec> Jx; int lastJ = -1;
	std::vector<int> used;      // for each evaluation of the function: Jacobi matrix known when leaving that point
	for (auto &c : s.log) {
		if (c.jac) { Js.push_back(arma::reshape(arma::mat(c.r), c.y.size(), c.y.size())); Jx.push_back(c.y); }
		else { xs.push_back(c.y); fs.push_back(c.r); }
	}
	if (xs.empty() || Js.empty()) fail("calls", d + ": the functor was not called");
	if (!arma::approx_equal(xs[0], x0, "absdiff", 0.0)) fail("start", d + ": first evaluation not at the start");
	if (!(st.iters >= 0 && st.iters <= std::max(o.maxit, 0))) fail("maxit", d + fmt(": %d iterations", st.iters));
	if ((int)xs.size() - 1 > std::max(o.maxit, 0)) fail("maxit", d + fmt(": %zu evaluations", xs.size()));
	if (st.iters != (int)xs.size() - 1) fail("iters", d + fmt(": %zu evaluations", xs.size()));
	if (o.refresh_jac == 0 && Js.size() != 1) fail("refresh", d + fmt(": %zu Jacobi matrices", Js.size()));
	for (auto &q : Jx) { bool known = false; for (auto &p : xs) known |= std::memcmp(p.memptr(), q.memptr(), 8*p.size()) == 0; if (!known && fin(q)) fail("jac-point", d + ": Jacobi matrix at " + vs(q)); }
	check_printed(printed, quiet, 0, o.maxit, xs, d);
	double lastlen = -1, lastfull = -1;
	for (std::size_t k = 0; k + 1 < xs.size(); ++k) {
		lastlen = lastfull = -1;
		if (!fin(xs[k]) || !fin(fs[k]) || !fin(xs[k + 1])) break;
		arma::vec dx = xs[k + 1] - xs[k]; double len = arma::norm(dx);
		// the Jacobi matrix in use: that of this point, or the last one before
		int j = 0; for (std::size_t i = 0; i < Jx.size(); ++i) { bool upto = false; for (std::size_t p = 0; p <= k; ++p) upto |= arma::approx_equal(Jx[i], xs[p], "absdiff", 0.0); if (upto && i <= k) j = i; }
		const arma::mat &J = Js[j];
		if (!J.is_finite() || arma::rcond(J) < 1e-9) continue;
		arma::vec full = -arma::solve(J, fs[k]); double fl = arma::norm(full);
		double slack = 1e-7*fl/std::max(arma::rcond(J)*1e6, 1e-3) + 1e-13*(1 + arma::norm(xs[k]));
		lastfull = ninf(full); lastlen = ninf(dx);
		if (o.max_step > 0 && len > o.max_step*(1 + 1e-9) + 1e-14*arma::norm(xs[k])) fail("max_step", d + fmt(": step %zu of length %.17g", k, len));
		if (len > fl + slack) fail("step", d + fmt(": step %zu of length %g, the Newton step has %g", k, len, fl));
		double lam = fl > 0 ? arma::dot(dx, full)/(fl*fl) : 1;
		if (arma::norm(dx - lam*full) > slack) fail("step", d + fmt(": step %zu is not along the Newton direction: ", k) + vs(dx) + " and " + vs(full));
		if (lam < 0 && fl > 1e-9) fail("step", d + fmt(": step %zu backwards", k));
		bool free_ = o.max_step <= 0 || fl <= o.max_step;
		if (!o.limit_step && free_ && arma::norm(dx - full) > slack) fail("step", d + fmt(": step %zu is not the Newton step: ", k) + vs(dx) + " and " + vs(full));
		if (!o.limit_step && !free_ && std::fabs(len - o.max_step) > 1e-9*o.max_step + slack) fail("step", d + fmt(": step %zu is too short: %g", k, len));
		if (o.limit_step && std::isfinite(lam) && fl > 1e-9 && arma::dot(fs[k], fs[k]) < 1e10 && !(lam > 0)) fail("step", d + fmt(": no step %zu", k));
	}
	if (st.conv_status == newton::SUCCESS) {
		if (!fin(got)) fail("success", d + ": the root is not finite");
		if (std::memcmp(got.memptr(), xs.back().memptr(), 8*got.size())) fail("success", d + ": not the last iterate");
		if (xs.size() < 2) fail("success", d + ": without any iteration");
		double rs = arma::norm(fs.back());
		if (!(std::fabs(st.res - rs) <= 1e-12*rs)) fail("residual", d + fmt(": residual is %.17g", rs));
		if (lastlen >= 0 && lastlen > o.dx_delta*(1 + 1e-9) + 1e-14*ninf(got)) fail("success", d + fmt(": last increment %g", lastlen));
		if (lastfull > o.dx_delta*(1 + 1e-6) + 1e-12*ninf(got) && !(o.limit_step && lastfull <= o.dx_delta*(1 + 1e-6)))
			fail("success", d + fmt(": last Newton increment %g", lastfull));
		if (!faulted && s.regular && !s.roots.empty() && o.refresh_jac && o.dx_delta <= 1e-4) {
			double best = INFINITY; for (auto &q : s.roots) best = std::min(best, ninf(arma::vec(got - q)));
			double C = (o.limit_step ? 50 : 1)*2.0*(1 + ninf(got));
			if (!(best <= C*o.dx_delta + 1e-9)) fail("not-a-root", d + fmt(": %g from a root", best));
		}
		if (!faulted && s.roots.empty() && (id == 5 || id == 7 || id == 11)) fail("not-a-root", d + ": there is none");
	} else {
		if (st.conv_status < 0 || st.conv_status > newton::GENERIC_ERROR) fail("status", d);
		if (!fin(got) || std::memcmp(got.memptr(), x0.memptr(), 8*got.size())) fail("failure", d + ": the start is not returned");
		if (!faulted && st.conv_status == newton::MAXIT_EXCEEDED && st.iters < o.maxit) fail("status", d + ": gave up early");
		if (!faulted && o.maxit == 200 && o.max_step <= 0 && !o.limit_step && (s.linear || (near_root && s.regular))) fail("converges", d);
		if (!faulted && o.maxit == 200 && near_root && s.regular) fail("converges", d);
	}
	// what is computed does not depend on the options that are not about it
	if (!faulted && st.conv_status == newton::SUCCESS && s.linear && !o.limit_step && o.max_step <= 0 && st.iters > 4) fail("converges", d + ": a linear system");
	bool lastbad = false; if (!fin(fs.back())) lastbad = true;
	if (lastbad && st.conv_status == newton::SUCCESS) fail("success", d + ": with a non-finite residual");
	(void)threw;
}
int main(int c, char **v) { return main_(c, v, body, 1, 1); }
