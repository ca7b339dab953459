// C07: faulty answers of the right-hand side and the Jacobi matrix at every call.
#include "rk.hpp"
#include "multistep.hpp"
using namespace mc;

struct UserError { int id; };

struct Any {            // an integration of any kind
	int kind;           // 0 RK, 1 AB, 2 BDF, 3 default implicit, 4 default explicit
	Case c; int order = 0;
	std::string str(const Prob &p) const
	{
		if (kind == 0) return c.str(p);
		return fmt("%s%d on %s, t=[%g,%g], dt=%g", kind == 1 ? "Adams-Bashforth " : kind == 2 ? "BDF " : kind == 3 ? "default implicit " : "default explicit ", order, p.name, c.t0, c.t1, c.dt);
	}
};
static Sol run(const Any &a, Prob &p)
{
	if (a.kind == 0) return integrate(a.c, p);
	if (a.kind == 3) return from(irk::odeint(p, a.c.t0, a.c.t1, p.y0));
	if (a.kind == 4) return from(erk::odeint(p, a.c.t0, a.c.t1, p.y0));
	Ref f(p); multistep::solver_options so; so.order = a.order;
	basic_output o;
	if (a.kind == 1) o = multistep::adams_bashforth(f, a.c.t0, a.c.t1, p.y0, so, a.c.dt);
	else o = multistep::bdf(f, a.c.t0, a.c.t1, p.y0, so, a.c.dt);
	Sol s; s.status = o.status; s.t = o.t_vals; s.y = o.y_vals;
	return s;
}

static void body(Run &r)
{
	bool th = r.eng->thorough();
	auto im = irk_methods(); auto em = erk_methods();
	Any a; a.c.t0 = 0; a.c.t1 = 1;
	a.kind = r.cfg(5);
	std::vector<int> probs;
	if (a.kind == 0) {
		int k = r.cfg(im.size() + em.size());
		a.c.imp = k < (int)im.size(); a.c.method = a.c.imp ? im[k] : em[k - im.size()];
		a.c.adaptive = r.cfg(2) == 0;
		a.c.dt = r.of(std::vector<double>{0.15, 1.0});
		if (a.c.adaptive) a.c.rtol = a.c.atol = r.of(std::vector<double>{1e-4, 1e-2});
		if (a.c.imp && !a.c.adaptive) a.c.nrefresh = r.of(std::vector<int>{10, 0});
		probs = {DECAY, CHAIN3, LOGISTIC, VDP, WALL, ROOT, RICCATI, PULSE, OVERFLOW2};
		if (!th) probs = {DECAY, CHAIN3, WALL, ROOT, RICCATI, OVERFLOW2};
	} else if (a.kind <= 2) {
		a.order = 1 + r.cfg(a.kind == 1 ? 5 : 6);
		a.c.dt = 0.13;
		probs = {DECAY, CHAIN3, WALL, ROOT, RICCATI, OVERFLOW2}; if (!th) probs = {CHAIN3, WALL, ROOT, RICCATI, OVERFLOW2};
	} else probs = {DECAY, CHAIN3, WALL, ROOT, RICCATI, OVERFLOW2};
	int id = r.of(probs);
	// norms of such numbers overflow, which the implicit solvers cannot know
	if (id == OVERFLOW2 && !(a.kind == 4 || (a.kind == 0 && !a.c.imp) || (a.kind == 1 && a.order == 1))) id = DECAY;
	// an absolute Newton tolerance cannot be met as y grows without bound: slow, not stuck
	if (id == RICCATI && a.kind == 0 && a.c.imp) id = VDP;
	if (id == ROOT || id == RICCATI || id == OVERFLOW2) a.c.t1 = 2;
	bool ours = id != WALL && id != ROOT && id != RICCATI && id != OVERFLOW2;
	double wall = id == WALL ? r.of(std::vector<double>{0.52, 1.0, std::nextafter(1.0, 0.0), 0.6, 1e-3}) : 0.4;
	Prob p = make_prob(id, wall, 20);
	r.desc = a.str(p);
	r.begin();

	Sol clean; long calls = 0;
	if (ours) { Prob q = p; clean = run(a, q); calls = q.fun_calls + q.jac_calls; }
	// enough calls for every honest way to end
	p.horizon = 30000 + 60*calls + (ours ? 0 : 60000);
	p.keep_log = a.kind == 0;
	long first = -1; int nfaults = 0; bool persistent = false, absurd = false, jacf = false; bool at_y0 = false; int persistent_kind = 0;
	const long last = th ? 1200 : 400;
	const arma::vec y0c = p.y0;
	if (ours) p.hook = [&](long k, bool jac, double t, const arma::vec &y, arma::vec *v, arma::mat *m) {
		int d = 0;
		if (persistent) d = persistent_kind;
		else if (k < last) { d = r.dev(jac ? 6 : 8); if (d) { first = first < 0 ? k : first; ++nfaults; } }
		if (!d) return;
		if (jac) jacf = true;
		if (t == a.c.t0 && !jac && arma::all(y == y0c)) at_y0 = true;
		auto put = [&](double x, bool one) { if (m) { if (one) (*m)(m->n_rows - 1, 0) = x; else m->fill(x); } else { if (one) (*v)(v->size() - 1) = x; else v->fill(x); } };
		switch (d) {
		case 1: put(NAN, false); break;
		case 2: put(NAN, true); break;
		case 3: put(INFINITY, false); break;
		case 4: put(NAN, false); persistent = true; persistent_kind = 4; break;
		case 5: throw UserError{(int)k};
		case 6: put(1e300, false); absurd = true; break;
		case 7: put(-INFINITY, true); persistent = true; persistent_kind = 7; break;
		}
	};
	Sol s;
	try { s = run(a, p); }
	catch (UserError &u) {
		r.desc += fmt(", exception at call %ld", first);
		if (u.id != p.fun_calls + p.jac_calls - 1) fail("exception", "another exception than the last one thrown");
		r.eng->outcome(1); r.eng->validated++;
		return;
	}
	catch (Horizon &h) { r.desc += fmt(", fault at call %ld", first); fail("no-termination", fmt("still running after %ld calls (%ld without fault)", h.calls, calls)); }
	catch (std::exception &e) { r.desc += fmt(", fault at call %ld", first); fail("exception", std::string("exception from the library: ") + e.what()); }
	if (first >= 0) r.desc += fmt(", fault%s at call %ld%s%s", nfaults > 1 ? "s, first" : "", first, persistent ? " and from then on" : "", absurd ? " (1e300)" : "");
	visit(r, s);
	r.eng->outcome(hmix(s.status, s.t.size()));
	r.eng->extra[fmt("status %d", s.status)] += 1;
	if (s.status == -1) fail("status", "no status");
	if (s.t.empty()) fail("empty", "no output");
	for (std::size_t i = 0; i < s.t.size(); ++i) {
		if (!std::isfinite(s.t[i]) || !fin(s.y[i])) fail("not-finite", fmt("output %zu of %zu is t=%g y=", i, s.t.size(), s.t[i]) + vs(s.y[i]) + fmt(", status %d", s.status));
		if (i && !(s.t[i] > s.t[i-1])) fail("time", "time does not increase");
	}
	if (a.kind == 0 || a.kind >= 3) for (std::size_t i = 1; i < s.t.size(); ++i) {
		if (!fin(s.stages[i])) fail("not-finite", fmt("stages of output %zu are not finite, status %d", i, s.status));
		if ((a.c.really_adaptive() || a.kind >= 3) && (!fin(s.err_est[i]) || !(s.err[i] <= 1))) fail("not-finite", fmt("output %zu has error %g", i, s.err[i]));
	}
	if (s.status == SUCCESS) {
		if (a.kind == 1 || a.kind == 2) { if (s.t.back() < a.c.t1) fail("success", fmt("success at t=%.17g", s.t.back())); }
		else if (s.t.back() != (a.kind == 3 || a.kind == 4 ? 1.0*a.c.t1 : a.c.t1)) fail("success", fmt("success at t=%.17g", s.t.back()));
		if (id == WALL && a.kind == 0 && a.c.really_adaptive() && wall < 0.9) fail("success", "success through a right-hand side that is not finite");
		if (id == RICCATI && (a.kind == 0 && a.c.really_adaptive() && s.t.back() > 1.01) && !a.c.imp) fail("success", "success past the blow-up of the solution");
		if (persistent && nfaults == 1) {
			// the answers must not have been needed
			if (s.t.size() != clean.t.size()) fail("success", "success although the right-hand side stopped answering");
			for (std::size_t i = 0; i < s.t.size(); ++i) if (s.t[i] != clean.t[i] || arma::any(s.y[i] != clean.y[i])) fail("success", "success although the right-hand side stopped answering");
		}
		if (ours && a.kind == 0 && !a.c.imp) {
			Tab tb = table(false, a.c.method); LogIndex ix(p.log);
			for (std::size_t i = 0; i + 1 < s.t.size(); ++i) check_erk_step(tb, s, i, p, ix);
		}
	} else if (ours && !persistent && !absurd && (a.c.really_adaptive() && a.kind == 0 || a.kind >= 3) && clean.status == SUCCESS && nfaults == 1) {
		if (!at_y0) fail("recovery", fmt("status %d after a single non-finite answer", s.status));
	}
}
int main(int c, char **v) { return main_(c, v, body, 1, 2); }
