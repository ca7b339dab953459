// C20: merging outputs, against a list model; associativity; pieces of real integrations.
#include "rk.hpp"
using namespace mc;
using irk::rk_output;

static rk_output piece(int kind, int salt)   // synthetic outputs: every field different
{
	rk_output s;
	int n = std::vector<int>{0, 1, 2, 3, 1, 2, 5}[kind];
	for (int i = 0; i < n; ++i) {
		s.t_vals.push_back(salt + 0.1*i); s.y_vals.push_back(arma::vec{salt + i*1.0, -0.5*i});
		s.stages.push_back(arma::vec{salt*2.0, i*3.0, 1.0}); s.err_est.push_back(arma::vec{1e-3*salt, 1e-4*i}); s.err.push_back(0.01*salt + i);
	}
	static const int st[] = {SUCCESS, SUCCESS, GENERAL_ERROR, ERROR_MAX_STEPS_EXCEEDED, INTERNAL_SOLVE_FAILURE, SUCCESS, GENERAL_ERROR};
	s.status = st[kind];
	s.elapsed_time = 1.5*salt + kind;
	std::size_t *c[] = {&s.count.attempt, &s.count.reject_newton, &s.count.reject_err, &s.count.newton_success, &s.count.newton_incr_diverge,
		&s.count.newton_iter_error_too_large, &s.count.newton_maxit_exceed, &s.count.fun_evals, &s.count.jac_evals};
	for (int i = 0; i < 9; ++i) *c[i] = kind == 0 ? 0 : salt*17 + i*5 + kind;
	s.accept_frac = s.count.attempt ? (double)(salt % 3 + n)/s.count.attempt : 0.0;
	return s;
}
static std::string text(const rk_output &s, bool frac = true)
{
	std::string o = fmt("status=%d elapsed=%.17g ", s.status, s.elapsed_time);
	if (frac) o += fmt("frac=%.12g ", s.accept_frac);
	o += fmt("counts=%zu,%zu,%zu,%zu,%zu,%zu,%zu,%zu,%zu", s.count.attempt, s.count.reject_newton, s.count.reject_err, s.count.newton_success,
		s.count.newton_incr_diverge, s.count.newton_iter_error_too_large, s.count.newton_maxit_exceed, s.count.fun_evals, s.count.jac_evals);
	o += fmt(" sizes=%zu,%zu,%zu,%zu,%zu", s.t_vals.size(), s.y_vals.size(), s.stages.size(), s.err_est.size(), s.err.size());
	for (double t : s.t_vals) o += fmt(" %.17g", t);
	o += " y"; for (auto &v : s.y_vals) o += vs(v);
	o += " K"; for (auto &v : s.stages) o += vs(v);
	o += " e"; for (auto &v : s.err_est) o += vs(v);
	o += " err"; for (double t : s.err) o += fmt(" %.17g", t);
	return o;
}
template <typename T> void cat(std::vector<T> &a, const std::vector<T> &b) { for (auto &x : b) a.push_back(x); }
static rk_output model(const rk_output &a, const rk_output &b)
{
	rk_output m; m.status = a.status | b.status;
	for (auto *x : {&a, &b}) { cat(m.t_vals, x->t_vals); cat(m.y_vals, x->y_vals); cat(m.stages, x->stages); cat(m.err_est, x->err_est); cat(m.err, x->err); }
	m.elapsed_time = a.elapsed_time + b.elapsed_time;
#define ADD(f) m.count.f = a.count.f + b.count.f
	ADD(attempt); ADD(reject_newton); ADD(reject_err); ADD(newton_success); ADD(newton_incr_diverge); ADD(newton_iter_error_too_large); ADD(newton_maxit_exceed); ADD(fun_evals); ADD(jac_evals);
	double n = a.count.attempt + b.count.attempt;
	m.accept_frac = n > 0 ? (a.count.attempt*a.accept_frac + b.count.attempt*b.accept_frac)/n : 0;
	return m;
}
static std::uint64_t hash(const rk_output &s) { return hs(3, text(s)); }

static rk_output integ(Prob &p, int m, double t0, double t1, const arma::vec &y0, double tol, double dt, bool store, long long maxs)
{
	irk::solver_options so = irk::default_solver_options(); newton::options no; no.tol = no.dx_delta = 1e-12; no.maxit = 40;
	so.newton_opts = &no; so.rel_tol = so.abs_tol = tol; so.max_steps = maxs;
	output_options oo; if (!store) oo.disable_store_in_vectors();
	return irk::odeint(p, t0, t1, y0, so, oo, m, dt);
}

static void body(Run &r)
{
	bool th = r.eng->thorough();
	int part = r.cfg(2);
	if (part == 0) {       // all sequences of synthetic pieces, folded left and right
		int n = 1 + r.cfg(th ? 6 : 5);
		std::vector<int> k; for (int i = 0; i < n; ++i) k.push_back(r.cfg(7));
		r.begin();
		r.desc = fmt("merging %d pieces:", n); for (int x : k) r.desc += fmt(" %d", x);
		std::vector<rk_output> ps; for (int i = 0; i < n; ++i) ps.push_back(piece(k[i], i + 1));
		std::vector<std::string> before; for (auto &x : ps) before.push_back(text(x));
		rk_output l = ps[0], want = ps[0];
		for (int i = 1; i < n; ++i) {
			rk_output nl = irk::merge_rk_output(l, ps[i]); want = model(want, ps[i]); l = nl;
			r.eng->transitions++; r.eng->state(hash(l));
			if (text(l) != text(want)) fail("merge", r.desc + ": " + text(l) + " instead of " + text(want));
			if (l.accept_frac < 0 || l.accept_frac > 1 + 1e-12) if (ps[0].accept_frac <= 1 && ps[i].accept_frac <= 1) fail("fraction", r.desc);
		}
		rk_output rt = ps[n - 1];
		for (int i = n - 2; i >= 0; --i) rt = irk::merge_rk_output(ps[i], rt);
		if (text(rt, false) != text(l, false)) { // elapsed: exact, small numbers
			fail("associativity", r.desc + ": " + text(rt) + " and " + text(l)); }
		if (!(std::fabs(rt.accept_frac - l.accept_frac) <= 1e-12)) fail("associativity-fraction", r.desc);
		for (int i = 0; i < n; ++i) if (text(ps[i]) != before[i]) fail("argument", r.desc);
		if (n >= 1) { rk_output dbl = irk::merge_rk_output(ps[0], ps[0]); if (text(dbl) != text(model(ps[0], ps[0]))) fail("self", r.desc); }
		r.eng->validated++;
		return;
	}
	// an integration, cut at any accepted point and continued from there
	auto ms = irk_methods(); ms.pop_back();       // without IMPLICIT_EULER
	int m = r.of(ms);
	std::vector<int> probs = {DECAY, CHAIN3, VDP, STIFF2, KICK};
	int pid = r.of(probs); double tol = std::vector<double>{1e-4, 1e-7}[r.cfg(2)];
	bool store = r.cfg(2) == 0;
	int cut = r.cfg(th ? 60 : 25), limit = r.cfg(2);
	double t0 = -0.5, t1 = 1.5;
	Prob p = make_prob(pid, 0.4, 12), q = make_prob(pid, 0.4, 12);
	r.desc = fmt("%s on %s, tol %g, cut after %d steps, %s%s", irk::method_to_name(m), p.name, tol, cut, store ? "stored" : "not stored", limit ? ", second part limited to 2 steps" : "");
	r.begin();
	rk_output whole = integ(q, m, t0, t1, p.y0, tol, 0.05, true, -1);
	if (whole.status != SUCCESS) { r.eng->extra["integration failed"] += 1; return; }
	std::size_t i = std::min<std::size_t>(cut, whole.t_vals.size() - 2);
	rk_output a = integ(p, m, t0, t1, p.y0, tol, 0.05, store, i);
	if (a.status == SUCCESS) { r.eng->extra["no cut"] += 1; return; }
	rk_output b = integ(p, m, whole.t_vals[i], t1, whole.y_vals[i], tol, whole.t_vals[i + 1] - whole.t_vals[i], store, limit ? 2 : -1);
	rk_output c = irk::merge_rk_output(a, b);
	r.eng->transitions += c.t_vals.size(); r.eng->state(hash(c)); r.eng->validated++;
	if (text(c) != text(model(a, b))) fail("merge-run", r.desc + ": " + text(c).substr(0, 400) + " instead of " + text(model(a, b)).substr(0, 400));
	if ((long)c.count.fun_evals != p.fun_calls || (long)c.count.jac_evals != p.jac_calls) fail("merge-counts", r.desc);
	if (!std::isfinite(c.accept_frac) || c.accept_frac < 0 || c.accept_frac > 1) fail("fraction", r.desc + fmt(": %.17g", c.accept_frac));
	if (c.status == SUCCESS) fail("status-lost", r.desc);
	if (store) {
		for (std::size_t k = 1; k < c.t_vals.size(); ++k) if (c.t_vals[k] < c.t_vals[k - 1]) fail("not-monotonous", r.desc);
		for (std::size_t k = 0; k <= i; ++k) if (c.t_vals[k] != whole.t_vals[k] || arma::any(c.y_vals[k] != whole.y_vals[k])) fail("first-part", r.desc);
		if (!limit && c.t_vals.back() != t1) fail("end", r.desc);
	}
}
int main(int argc, char **argv) { return main_(argc, argv, body); }
