// C27: other units for time or state, or the other sign, give the same
// solution in those units.  The units differ by powers of two, so "same" is
// bit for bit: both runs must take the same steps in lockstep.
#include "systems.hpp"
#include "integ.hpp"
#include "multistep.hpp"
using namespace mc;

struct Units { const char *name; double y, t; };

static Prob in_units(const Prob &p, const Units &u)
{
	Prob q = p; auto f = p.f; auto J = p.J; double a = u.y, b = u.t;
	q.f = [f, a, b](double t, const arma::vec &y) { return arma::vec((a/b)*f(t/b, y/a)); };
	q.J = [J, a, b](double t, const arma::vec &y) { return arma::mat(J(t/b, y/a)/b); };
	q.y0 = a*p.y0;
	return q;
}
static void same(const char *what, std::size_t i, const arma::vec &a, const arma::vec &b, double f)
{
	if (a.size() != b.size()) fail(what, fmt("%s of output %zu: dimension %zu and %zu", what, i, (std::size_t)a.size(), (std::size_t)b.size()));
	for (std::size_t j = 0; j < a.size(); ++j)
		if (!(f*a(j) == b(j)) && !(std::isnan(a(j)) && std::isnan(b(j))))
			fail(what, fmt("%s of output %zu are ", what, i) + vs(f*a) + " converted, but " + vs(b) + " when integrated in those units");
}
static void compare(const Sol &s, const Sol &q, const Units &u)
{
	if (s.status != q.status) fail("status", fmt("status %d, in other units %d", s.status, q.status));
	for (std::size_t i = 0; i < std::min(s.t.size(), q.t.size()); ++i) {
		if (u.t*s.t[i] != q.t[i]) fail("times", fmt("output %zu is at t=%.17g converted, but %.17g when integrated in those units", i, u.t*s.t[i], q.t[i]));
		same("states", i, s.y[i], q.y[i], u.y);
		if (i < s.stages.size()) {
			same("stages", i, s.stages[i], q.stages[i], u.y/u.t);
			same("estimates", i, s.err_est[i], q.err_est[i], u.y);
			if (s.err[i] != q.err[i]) fail("errors", fmt("error of output %zu: %.17g, in other units %.17g", i, s.err[i], q.err[i]));
		}
	}
	if (s.t.size() != q.t.size()) fail("length", fmt("%zu outputs, in other units %zu", s.t.size(), q.t.size()));
	// how often a step can be cut before it is the smallest number depends on the unit of time
	if (s.status == GENERAL_ERROR && u.t != 1) return;
	if (s.attempt != q.attempt || s.rej_err != q.rej_err || s.rej_newton != q.rej_newton || s.n_maxit != q.n_maxit || s.n_ok != q.n_ok ||
	    s.fun_evals != q.fun_evals || s.jac_evals != q.jac_evals || s.accept_frac != q.accept_frac)
		fail("counters", fmt("%zu attempts with %zu evaluations, in other units %zu with %zu", s.attempt, s.fun_evals, q.attempt, q.fun_evals));
}
static std::vector<Units> units(bool th)
{
	std::vector<Units> v = {{"2^20 y", 1048576.0, 1}, {"2^-20 y", 1/1048576.0, 1}, {"-y", -1, 1}, {"2^12 t", 1, 4096}, {"2^-12 t", 1, 1/4096.0}, {"-8 y, t/16", -8, 1/16.0}, {"2^50 y, 2^-60 t", std::ldexp(1, 50), std::ldexp(1, -60)}};
	if (th) { v.push_back({"2^-200 t", 1, std::ldexp(1, -200)}); v.push_back({"2^60 y", std::ldexp(1, 60), 1}); v.push_back({"2^-60 y", std::ldexp(1, -60), 1}); v.push_back({"2^60 t", 1, std::ldexp(1, 60)}); v.push_back({"2^-60 t", 1, std::ldexp(1, -60)}); v.push_back({"y/1024, 1024 t", 1/1024.0, 1024}); }
	return v;
}

static void rk(Run &r, bool imp)
{
	bool th = r.eng->thorough();
	Case c; c.imp = imp;
	c.method = imp ? r.of(irk_methods()) : r.of(erk_methods());
	std::vector<int> probs = {DECAY, RAMP, CHAIN3, VDP, HARM, PRINCE4, PULSE, ZERO, OSC5, CONST2};
	probs.push_back(imp ? STIFF2 : LOGISTIC); probs.push_back(imp ? ROBER : KICK);
	if (th) { probs.push_back(QUAD4); probs.push_back(WALL); probs.push_back(imp ? LOGISTIC : RICCATI); }
	int id = r.of(probs);
	Units u = r.of(units(th));
	std::vector<std::pair<double,double>> spans = {{0, 1}, {-0.7, 0.4}}; if (th) spans.push_back({100.3, 101});
	auto sp = r.of(spans); c.t0 = sp.first; c.t1 = sp.second; double L = c.t1 - c.t0;
	c.adaptive = r.cfg(2) == 0;
	std::vector<double> dts = {0.01*L, L, 1e-5*L}; if (!c.adaptive || !c.embedded()) dts = {0.1*L, L};
	c.dt = r.of(dts);
	std::vector<std::pair<double,double>> tols = {{1e-6, 1e-6}, {1e-3, 1e-5}, {0, 1e-4}, {1e-4, 0}}; if (!c.adaptive) tols.resize(1);
	auto tl = r.of(tols); c.rtol = tl.first; c.atol = tl.second;
	if (c.atol == 0 && (id == PULSE || id == ZERO || id == CONST2 || id == KICK || id == ROBER || id == OSC5 || id == VDP)) c.atol = 1e-9;   // a component is 0 at the start
	std::vector<double> md = {0, 0.07*L}; if (!c.adaptive) md.resize(1);
	c.max_dt = r.of(md);
	std::vector<long long> ms = {-1, 5}; c.max_steps = r.of(ms);
	if (imp) { std::vector<int> rf = {10, 1, 0}; c.nrefresh = r.of(rf); if (r.cfg(2)) c.nmaxit = 5; }
	bool faulty = c.dt > 0.05*L && c.max_steps < 0 && c.max_dt == 0 && c.rtol > 0 && c.atol > 0 && c.nmaxit == 50 && c.nrefresh == 10;
	Prob p = make_prob(id, c.t0 + 0.4*L, 20);
	// squares of numbers that large overflow in some units and not in others
	bool huge = false;
	{ auto f = p.f; p.f = [f, &huge](double t, const arma::vec &y) { arma::vec v = f(t, y); for (double x : v) if (!std::isnan(x) && std::fabs(x) > 1e60) huge = true; return v; }; }
	Prob q = in_units(p, u);
	r.desc = c.str(p) + ", in the units " + u.name;
	r.begin();
	long at = -1; int ans = 0; const long maxcall = th ? 60 : 25;
	if (faulty) p.hook = [&](long k, bool, double, const arma::vec &, arma::vec *v, arma::mat *m) {
		if (k > maxcall) return;
		int d = r.dev(3); if (!d) return;
		at = k; ans = d;
		if (v) { if (d == 1) v->fill(NAN); else *v *= 64; }
		if (m) { if (d == 1) m->fill(NAN); else *m *= 64; }
	};
	Sol s = integrate(c, p);
	if (at >= 0) {
		r.desc += fmt(", answer %ld %s", at, ans == 1 ? "NaN" : "times 64");
		q.hook = [&](long k, bool, double, const arma::vec &, arma::vec *v, arma::mat *m) {
			if (k != at) return;
			if (v) { if (ans == 1) v->fill(NAN); else *v *= 64; }
			if (m) { if (ans == 1) m->fill(NAN); else *m *= 64; }
		};
	}
	Case d = c; double ay = std::fabs(u.y);
	d.t0 *= u.t; d.t1 *= u.t; d.dt *= u.t; d.max_dt *= u.t; d.atol *= ay; d.ntol *= ay; d.ndx *= ay;
	Sol z = integrate(d, q);
	visit(r, s);
	r.eng->outcome(hmix(s.status, s.t.size()));
	if (huge) { r.eng->extra["overflow"] += 1; return; }
	compare(s, z, u);
}

static void ab1(Run &r)
{
	bool th = r.eng->thorough();
	std::vector<int> probs = {DECAY, RAMP, CHAIN3, VDP, HARM, PRINCE4, KICK}; int id = r.of(probs);
	Units u = r.of(units(th));
	std::vector<std::pair<double,double>> spans = {{0, 1}, {-0.7, 0.4}}; auto sp = r.of(spans); double L = sp.second - sp.first;
	std::vector<double> dts = {0.1*L, L, 2*L, 0.0137*L}; double dt = r.of(dts);
	Prob p = make_prob(id, sp.first + 0.4*L, 20), q = in_units(p, u);
	r.desc = fmt("Adams-Bashforth order 1 on %s, t=[%g,%g], dt=%g, in the units %s", p.name, sp.first, sp.second, dt, u.name);
	r.begin();
	multistep::solver_options o; o.order = 1;
	auto a = multistep::adams_bashforth(p, sp.first, sp.second, p.y0, o, dt);
	auto b = multistep::adams_bashforth(q, u.t*sp.first, u.t*sp.second, q.y0, o, u.t*dt);
	Sol s, z; s.status = a.status; s.t = a.t_vals; s.y = a.y_vals; z.status = b.status; z.t = b.t_vals; z.y = b.y_vals;
	visit(r, s);
	compare(s, z, u);
}

// unknowns and equations have units of their own here
static void newton_(Run &r)
{
	int id = r.cfg(N_SYS); Sys s = make_sys(id);
	arma::vec x = r.of(s.starts);
	std::vector<std::pair<double,double>> un = {{1024, 1}, {1/1024.0, 1}, {1, 1024}, {1, 1/1024.0}, {-1, 1}, {1, -1}, {-64, 1/8.0}};
	auto u = r.of(un);
	newton::options o; 
	std::vector<int> rf = {10, 0, 1}; o.refresh_jac = r.of(rf); o.precondition = r.cfg(2);
	std::vector<double> ms = {-1, 0.3}; o.max_step = r.of(ms);
	std::vector<double> tl = {1e-4, 1e-10}; o.tol = o.dx_delta = r.of(tl);
	std::vector<int> mi = {200, 5}; o.maxit = r.of(mi);
	if (o.refresh_jac == 0 && o.maxit > 60) o.maxit = 60;
	double a = u.first, b = u.second;
	Sys q = s; auto f = s.f; auto J = s.J;
	q.f = [f, a, b](const arma::vec &v) { return arma::vec(b*f(v/a)); };
	q.J = [J, a, b](const arma::vec &v) { return arma::mat((b/a)*J(v/a)); };
	r.desc = fmt("Newton for %s from ", s.name) + vs(x) + fmt(", unknowns times %g, equations times %g, refresh=%d precondition=%d max_step=%g tol=%g maxit=%d", a, b, o.refresh_jac, (int)o.precondition, o.max_step, o.tol, o.maxit);
	r.begin();
	newton::status st, sq;
	arma::vec x1 = newton::newton_iterate(s, x, o, st);
	newton::options p = o; p.tol *= std::fabs(b); p.dx_delta *= std::fabs(a); if (o.max_step > 0) p.max_step *= std::fabs(a);
	arma::vec x2 = newton::newton_iterate(q, a*x, p, sq);
	// preconditioned rows keep their own scale where the diagonal vanishes
	if (o.precondition) for (auto &c : s.log) if (c.jac && arma::any(arma::reshape(c.r, x.size(), x.size()).eval().diag() == 0)) { r.eng->extra["no diagonal"] += 1; return; }
	// singular matrices are solved by a decomposition that iterates
	for (auto &c : s.log) if (c.jac && !(arma::rcond(arma::reshape(c.r, x.size(), x.size())) > 1e-12)) { r.eng->extra["singular"] += 1; return; }
	r.eng->transitions += st.iters; r.eng->validated++;
	for (auto &c : s.log) r.eng->state(hstate(c.jac, c.y));
	r.eng->outcome(hmix(st.conv_status, st.iters));
	if (st.conv_status != sq.conv_status || st.iters != sq.iters) fail("newton", fmt("status %d after %d iterations, in other units %d after %d", st.conv_status, st.iters, sq.conv_status, sq.iters));
	if (!(std::fabs(b)*st.res == sq.res) && std::isfinite(st.res)) fail("newton", fmt("residual %.17g converted, %.17g in those units", std::fabs(b)*st.res, sq.res));
	for (std::size_t i = 0; i < x1.size(); ++i) if (a*x1(i) != x2(i) && !std::isnan(x1(i))) fail("newton", "ends at " + vs(a*x1) + " converted, in those units at " + vs(x2));
	if (s.fun_calls != q.fun_calls || s.jac_calls != q.jac_calls) fail("newton", "evaluates differently often in other units");
}

static void body(Run &r)
{
	int k = r.cfg(4);
	if (k < 2) rk(r, k == 1);
	else if (k == 2) ab1(r);
	else newton_(r);
}
int main(int c, char **v) { return main_(c, v, body, 1, 1); }
