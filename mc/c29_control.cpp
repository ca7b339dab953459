// C29: step size control, attempt by attempt, from the log.
#include "integ.hpp"
#include "logs.hpp"
using namespace mc;

static void body(Run &r)
{
	bool th = r.eng->thorough();
	std::vector<int> me, mi; for (int m : erk_methods()) if (erk_embedded(m)) me.push_back(m); for (int m : irk_methods()) if (irk_embedded(m)) mi.push_back(m);
	Case c; int k = r.cfg(me.size() + mi.size()); c.imp = k >= (int)me.size(); c.method = c.imp ? mi[k - me.size()] : me[k];
	std::vector<int> probs = {DECAY, RAMP, CHAIN3, VDP, HARM, LOGISTIC, OSC5, PULSE, CONST2}; if (c.imp) { probs.push_back(STIFF2); probs.push_back(ROBER); } else { probs.push_back(KICK); probs.push_back(PRINCE4); }
	if (th) { probs.push_back(QUAD4); probs.push_back(ZERO); }
	int id = r.of(probs);
	std::vector<std::pair<double,double>> spans = {{0, 1}, {-0.7, 5.4}, {2, 42}}; if (th) { spans.push_back({100.3, 101}); spans.push_back({0, 200}); }
	auto sp = r.of(spans); c.t0 = sp.first; c.t1 = sp.second; double L = c.t1 - c.t0;
	std::vector<double> dts = {1e-6, 0.01*L, L}; c.dt = r.of(dts);
	std::vector<double> tl = {1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8}; double tol = r.of(tl);
	int kind = r.cfg(3); c.rtol = kind == 1 ? 0 : tol; c.atol = kind == 2 ? 1e-3*tol : tol;
	std::vector<double> md = {0, 0.07*L}; c.max_dt = r.of(md);
	if (c.imp) { std::vector<int> rf = {10, 1}; c.nrefresh = r.of(rf); c.ntol = c.ndx = std::max(1e-11, std::min(1e-9, 1e-2*c.atol)); }
	c.out_interval = 1;
	Prob p = make_prob(id, c.t0 + 0.4*L, 20); p.horizon = 3000000;
	r.desc = c.str(p);
	r.begin();
	// implicit attempts as the calls tell them: the matrix at the old point, then the stages
	Tab tb = table(c.imp, c.method);
	std::vector<std::pair<double,double>> tries; double tj = 0, tm = 0; int since = -1; const int ns = tb.s; const double cl = tb.c.max();
	if (c.imp) p.hook = [&](long, bool jac, double t, const arma::vec &, arma::vec *, arma::mat *) {
		if (jac) { tj = tm = t; since = 0; return; }
		tm = std::max(tm, t);
		if (since < 0 || ++since != ns) return;
		double h = (tm - tj)/cl; since = -1;
		if (!(h > 0)) return;
		if (tries.empty() || tries.back().first != tj || std::fabs(tries.back().second - h) > 1e-6*h) tries.push_back({tj, h});
	};
	Sol s; std::string text;
	{ Catch q; s = integrate(c, p); text = c.imp ? q.o.str() : q.e.str(); }
	auto A = log_lines(text);
	visit(r, s);
	if (s.status != SUCCESS || A.empty()) fail("status", fmt("status %d, %zu lines of log", s.status, A.size()));
	const double ex = 1.0/(1 + std::min(tb.order, tb.order2)), cap = c.imp ? 8 : 4, safe = s.rej_newton ? 0 : c.imp ? 0.08 : 0.45;
	double used = 0; long n = 0;
	for (std::size_t i = 0; i + 1 < A.size(); ++i) {
		double dt = A[i].v[1], e = A[i].v[2], dn = A[i+1].v[1]; bool acc = A[i+1].step > A[i].step;
		// what the estimate asks for, and with the trend of the last two steps
		double want = dt*std::min(cap, std::max(0.1, std::pow(1/e, ex))), trend = want;
		if (c.imp && i) trend = dt*std::min(cap, std::max(0.1, std::pow(1/e, ex)*std::min(1.0, dt/A[i-1].v[1]*std::pow(A[i-1].v[2]/e, ex))));
		if (!std::isfinite(trend)) trend = want;
		bool last = A[i+1].v[0] + dn >= c.t1 - 1e-12*(std::fabs(c.t1) + L), capped = c.max_dt > 0 && dn >= 0.999*c.max_dt;
		std::string which = fmt("attempt %zu (t=%.17g, dt=%.17g, error %.17g) is followed by dt=%.17g", i, A[i].v[0], dt, e, dn);
		if (!(e <= 1.0) && acc) fail("accepted", which + " of another step");
		if (!acc && !(dn < dt)) fail("retry", which + " from the same point");
		if (!(dn <= want*(1 + 1e-9))) fail("too-long", which + fmt(", but the error asks for %.17g", want));
		if (!last && !capped && !(dn >= safe*trend)) fail("too-short", which + fmt(", but the error asks for %.17g", trend));
		if (acc && !last && !capped && dn < 2*dt) { used += std::pow(e, ex); ++n; }
		if (!acc) ++n;
	}
	for (std::size_t i = 0, j = 0; i + 1 < tries.size(); ++i) {
		double h = tries[i].second, hn = tries[i+1].second; bool solved = false;
		for (std::size_t q = j; q < A.size() && q < j + 3; ++q) if (A[q].v[0] == tries[i].first && std::fabs(A[q].v[1] - h) <= 1e-5*h) { solved = true; j = q + 1; break; }
		if (tries[i+1].first != tries[i].first) continue;
		if (!(hn < h)) fail("retry", fmt("after an attempt at t=%.17g with dt=%.17g comes one with dt=%.17g", tries[i].first, h, hn));
		if (!(hn >= (solved ? 0.03 : 0.3)*h)) fail("too-short", fmt("after an attempt at t=%.17g with dt=%.17g, where the stages were %sfound, comes one with dt=%.17g", tries[i].first, h, solved ? "" : "not ", hn));
		r.eng->extra[solved ? "retries after errors" : "retries after Newton"] += 1;
	}
	if (n >= 10) r.eng->extra["integrations of 10 steps and more"] += 1;
	if (n >= 10 && id != PULSE && id != KICK && !(used >= 0.1*n)) fail("wasteful", fmt("%ld attempts were made for %g steps of the size the tolerance allows", n, used));
	r.eng->outcome(hmix(s.status, s.t.size()));
}
int main(int c, char **v) { return main_(c, v, body); }
