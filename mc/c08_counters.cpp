// C08: counters against the calls the functor saw.
#include "integ.hpp"
using namespace mc;

static void body(Run &r)
{
	bool th = r.eng->thorough();
	auto im = irk_methods(); auto em = erk_methods();
	int k = r.cfg(im.size() + em.size());
	Case c; c.imp = k < (int)im.size(); c.method = c.imp ? im[k] : em[k - im.size()];
	std::vector<int> probs = {DECAY, CHAIN3, PULSE, VDP, KICK, LOGISTIC, RING19};
	if (c.imp) probs.push_back(STIFF2);
	int id = r.of(probs);
	std::vector<std::pair<double,double>> spans = {{0, 1}, {-0.3, 2}, {5, 5.5}, {0, 12}}; if (!th) spans.resize(3);
	auto sp = r.of(spans); c.t0 = sp.first; c.t1 = sp.second; double L = c.t1 - c.t0;
	c.adaptive = r.cfg(2) == 0;
	std::vector<double> dts = {0.1*L, L, 1e-3*L, L/17}; c.dt = r.of(dts);
	const bool lng = c.dt == L/17 && c.t0 == 0 && L == 1 && (id == DECAY || id == CHAIN3);    // very many steps
	if (lng) c.dt = c.max_dt = L/(!c.imp ? 70001 : th ? 9000 : 2100);
	if (!lng && !c.really_adaptive() && c.dt < L/30) c.dt = L/23;
	if (c.adaptive) { std::vector<double> tols = {1e-4, 1e-7}; c.rtol = c.atol = r.of(tols); }
	if (c.imp) {
		std::vector<int> refresh = {10, 0, 1, 2}; c.nrefresh = r.of(refresh);
		std::vector<int> maxit = {50, 5, 3}; c.nmaxit = r.of(maxit);
	}
	std::vector<long long> lim = {-1, 3, 0}; c.max_steps = r.of(lim);
	std::vector<std::size_t> ks = {1, 4}; c.interval = r.of(ks);
	c.time_internals = th && r.cfg(2);
	if (lng && c.imp && id == DECAY && !c.adaptive && c.interval == 4 && c.nmaxit == 50 && c.nrefresh < 2) c.dt = L/66001;
	if (!th && id == RING19 && c.t0 != 0) { r.desc = "only in part"; r.begin(); return; }
	Prob p = make_prob(id, c.t0 + 0.4*L, 20);
	r.desc = c.str(p);
	r.begin();
	// a functor that counts and gives wrong answers once: attempts rejected for other reasons
	long at = -1;
	p.horizon = lng ? 100000000 : 400000;
	bool dist = !lng && c.interval == 1 && c.max_steps == -1 && (id == CHAIN3 || id == DECAY) && c.dt > 0.05*L && c.nrefresh == 10;
	if (dist) p.hook = [&](long i, bool jac, double, const arma::vec &, arma::vec *v, arma::mat *m) {
		if (i > 60) return;
		int d = r.dev(3);
		if (jac) { if (d == 1) *m *= -40; else if (d == 2) m->fill(NAN); }
		else if (d == 1) *v *= 40; else if (d == 2) v->fill(NAN);
		if (d) at = i;
	};
	Sol s = integrate(c, p);
	p.hook = nullptr;
	if (at >= 0) r.desc += fmt(", disturbed call %ld", at);
	visit(r, s);
	r.eng->outcome(hmix(s.status, s.fun_evals));
	if ((long)s.fun_evals != p.fun_calls) fail("fun_evals", fmt("reported %zu evaluations, made %ld (status %d)", s.fun_evals, p.fun_calls, s.status));
	if ((long)s.jac_evals != p.jac_calls) fail("jac_evals", fmt("reported %zu Jacobi matrices, made %ld (status %d)", s.jac_evals, p.jac_calls, s.status));
	// accepted steps: as many as an integration with every step stored shows
	std::size_t acc;
	if (c.interval == 1) acc = s.t.size() - 1;
	else { Case b = c; b.interval = 1; Prob q = make_prob(id, c.t0 + 0.4*L, 20); q.horizon = p.horizon; acc = integrate(b, q).t.size() - 1; }
	if (s.attempt != acc + s.rej_err + s.rej_newton)
		fail("attempts", fmt("%zu attempts, but %zu accepted, %zu + %zu rejected", s.attempt, acc, s.rej_err, s.rej_newton));
	if (s.attempt == 0 ? s.accept_frac != 0 : !(std::fabs(s.accept_frac*s.attempt - acc) < 1e-9*(1 + acc)))
		fail("accept_frac", fmt("accepted fraction %.17g, but %zu of %zu", s.accept_frac, acc, s.attempt));
	if (!(s.elapsed >= 0 && s.elapsed < 1e6)) fail("elapsed", fmt("elapsed time %g ms", s.elapsed));
	if (!c.imp) {
		Tab tb = table(false, c.method);
		long per = tb.s - (tb.fsal ? 1 : 0), extra = tb.fsal ? 1 : 0;
		if (p.fun_calls != per*(long)s.attempt + extra) fail("attempts", fmt("%zu attempts, but %ld evaluations of %ld stages", s.attempt, p.fun_calls, per));
		return;
	}
	if (s.n_ok + s.rej_newton != s.attempt) fail("newton", fmt("%zu attempts, %zu Newton successes and %zu failures", s.attempt, s.n_ok, s.rej_newton));
	if (s.n_div + s.n_iter + s.n_maxit > s.rej_newton || (at < 0 && !p.odd && s.n_div + s.n_iter + s.n_maxit != s.rej_newton))
		fail("newton", fmt("%zu Newton failures, but %zu + %zu + %zu by kind", s.rej_newton, s.n_div, s.n_iter, s.n_maxit));
	if (c.nrefresh == 0 && p.jac_calls != (long)s.attempt) fail("attempts", fmt("%zu attempts, but %ld Jacobi matrices without refreshing", s.attempt, p.jac_calls));
	if (!c.really_adaptive() && s.rej_err + s.rej_newton > (s.status != SUCCESS)) fail("attempts", "rejections with a constant step");
}
int main(int c, char **v) { return main_(c, v, body, 1, 2); }
