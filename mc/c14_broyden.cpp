// C14: Broyden's method.  Replayed from the log of the functor's calls.
#include "systems.hpp"
using namespace mc;

static void body(Run &r)
{
	bool th = r.eng->thorough();
	int id = r.cfg(N_SYS);
	Sys s = make_sys(id);
	arma::vec x0 = r.of(s.starts);
	std::vector<double> off = {1e-3}; if (th) { off.push_back(-0.05); off.push_back(1e-9); off.push_back(0); }
	if (!s.roots.empty()) {
		int k = r.cfg(1 + off.size()*s.roots.size());
		if (k) { x0 = s.roots[(k - 1) % s.roots.size()]; for (std::size_t i = 0; i < x0.size(); ++i) x0(i) += off[(k - 1)/s.roots.size()]*(i % 2 ? -1 : 1); }
	}
	newton::options o;
	std::vector<double> dxs = {1e-4, 1e-9, 1e-13}; if (th) dxs.push_back(0.1); o.dx_delta = r.of(dxs);
	std::vector<double> tols = {1e-4, 1e-10}; if (th) { tols.push_back(1e-2); tols.push_back(1e-13); } o.tol = r.of(tols);
	std::vector<double> mst = {-1, 0.3}; if (th) { mst.push_back(0); mst.push_back(0.011); mst.push_back(5); } o.max_step = r.of(mst);
	std::vector<int> mi = {500, 0, 1, 2, 3, 4, 6}; if (th) for (int i : {5, 7, 8, 10, 15, 20, 40}) mi.push_back(i);
	o.maxit = r.of(mi);
	o.refresh_jac = r.cfg(2)*10;                    // has no meaning here
	bool quiet = r.cfg(2);
	r.desc = fmt("%s from %s: dx=%g tol=%g max_step=%g maxit=%d quiet=%d", s.name, vs(x0).c_str(), o.dx_delta, o.tol, o.max_step, o.maxit, quiet);
	r.begin();
	bool faulted = false; long fault_at = -1;
	s.hook = [&](long k, bool, arma::vec *v, arma::mat *) {
		if (k > (th ? 12 : 6) || !v) return;
		int f = r.dev(5);
		if (!f) return;
		faulted = true; fault_at = k;
		double bad[] = {0, NAN, INFINITY, 1e300, 0};
		if (f == 4) { if (s.log.empty()) v->zeros(); else *v = s.log.back().r; }      // the same answer as before
		else (*v)(v->size() - 1) = bad[f];
	};
	newton::status st; st.conv_status = -77; st.iters = -77; st.res = -77;
	arma::vec x = x0, got;
	std::string printed;
	try { Printed cap; struct Keep { Printed &c; std::string &s; ~Keep() { s = c.text.str(); } } keep{cap, printed}; got = newton::broyden_iterate(s, x, o, st, quiet); }
	catch (std::exception &e) { fail("throws", r.desc + ": " + e.what()); }
	for (auto &c : s.log) r.eng->state(hstate(0, c.y));
	r.eng->transitions += s.log.size(); r.eng->validated++;
	std::string d = r.desc + fmt(" -> status %d iters %d res %.17g %s%s", st.conv_status, st.iters, st.res, vs(got).c_str(), faulted ? fmt(" (bad answer to call %ld)", fault_at).c_str() : "");
	if (ninf(arma::vec(x - x0)) != 0) fail("argument", d + ": the start was modified");
	std::vector<arma::vec> xs, fs; for (auto &c : s.log) if (!c.jac) { xs.push_back(c.y); fs.push_back(c.r); }
	if (xs.empty() || !arma::approx_equal(xs[0], x0, "absdiff", 0.0)) fail("start", d + ": first evaluation not at the start");
	if ((int)xs.size() > std::max(o.maxit, 1) || st.iters > std::max(o.maxit, 1)) fail("maxit", d + fmt(": %zu evaluations", xs.size()));
	if (st.iters != (int)xs.size()) fail("iters", d + fmt(": %zu evaluations", xs.size()));
	check_printed(printed, quiet, 1, o.maxit, xs, d);
	// replay with the matrix that Broyden's update gives
	std::size_t n = x0.size(); arma::mat H = arma::eye(n, n); double lastlen = -1; bool follow = true; double lastfull = -1;
	for (std::size_t k = 0; k + 1 < xs.size(); ++k) {
		lastlen = lastfull = -1;
		if (!fin(xs[k]) || !fin(fs[k]) || !fin(xs[k + 1])) { follow = false; break; }
		arma::vec dx = xs[k + 1] - xs[k]; double len = arma::norm(dx); lastlen = ninf(dx);
		if (o.max_step > 0 && len > o.max_step*(1 + 1e-9) + 1e-14*arma::norm(xs[k])) fail("max_step", d + fmt(": step %zu of length %.17g", k, len));
		double f2 = arma::norm(fs[k]); f2 *= f2;
		if (follow && f2 < 1e200) {
			arma::vec full = -H*fs[k]/std::sqrt(1 + f2); lastfull = ninf(full); double fl = arma::norm(full);
			if (o.max_step > 0 && fl > o.max_step) full *= o.max_step/fl;
			double slack = 1e-6*arma::norm(full) + 1e-12*(1 + arma::norm(xs[k]));
			if (arma::norm(dx - full) > slack && f2 > 1e-8) fail("step", d + fmt(": step %zu is ", k) + vs(dx) + ", Broyden's is " + vs(full));
			if (fin(fs[k + 1])) {
				arma::vec df = fs[k + 1] - fs[k]; double nn = arma::dot(dx, H*df);
				if (!(std::fabs(nn) > 1e-3*len*arma::norm(H*df)) || len < 1e-6) follow = false;   // the update is ill-conditioned
				else { arma::mat U = (dx - H*df)*(dx.t()*H)/nn; H += U; if (arma::cond(H) > 1e5) follow = false; }
			} else follow = false;
		} else follow = false;
	}
	double rs = arma::norm(fs.back());
	if (st.conv_status == newton::SUCCESS) {
		if (!fin(got)) fail("success", d + ": the root is not finite");
		if (std::memcmp(got.memptr(), xs.back().memptr(), 8*n)) fail("success", d + ": not the last iterate");
		if (!std::isfinite(rs)) fail("success", d + ": the residual is not finite");
		if (!(std::fabs(st.res - rs) <= 1e-12*rs)) fail("residual", d + fmt(": residual is %.17g", rs));
		bool byres = rs <= o.tol*(1 + 1e-9), bydx = lastlen >= 0 && lastlen <= o.dx_delta*(1 + 1e-9) + 1e-14*ninf(got);
		if (!byres && !bydx) fail("success", d + fmt(": last increment %g", lastlen));
		if (!byres && lastfull > o.dx_delta*(1 + 1e-6) + 1e-12*ninf(got)) fail("success", d + fmt(": last full increment %g", lastfull));
		if (!faulted && !byres && s.near_identity && !s.roots.empty() && o.dx_delta <= 1e-4) {
			double best = INFINITY; for (auto &q : s.roots) best = std::min(best, ninf(arma::vec(got - q)));
			if (!(best <= 50*(1 + ninf(got))*o.dx_delta + 1e-9)) fail("not-a-root", d + fmt(": %g from a root", best));
		}
		if (!faulted && o.dx_delta <= 1e-4 && (id == 5 || id == 11)) fail("not-a-root", d + ": there is none");
	} else {
		if (st.conv_status < 0 || st.conv_status > newton::GENERIC_ERROR) fail("status", d);
		if (!faulted && st.conv_status == newton::MAXIT_EXCEEDED && st.iters < o.maxit) fail("status", d + ": gave up early");
		if (!faulted && o.maxit == 500 && s.near_identity) fail("converges", d);
		if (std::isfinite(st.res) && fin(got) && fin(fs.back()) && !(std::fabs(st.res - rs) <= 1e-12*rs)) fail("residual", d + fmt(": residual is %.17g", rs));
	}
	if (!faulted && s.near_identity && o.maxit == 500 && o.max_step <= 0 && st.iters > 40 && o.tol >= 1e-10) fail("converges", d + ": too slowly");
}
int main(int c, char **v) { return main_(c, v, body, 1, 1); }
