// C02, C03 (explicit), C04, C05 (implicit): each accepted step, with rejections
// forced by the problem or by a disturbed answer at every call.
#include "rk.hpp"
using namespace mc;
#ifndef PROP
#define PROP 2
#endif

static void body(Run &r)
{
	bool th = r.eng->thorough(), wide = th || PROP != 4;
	const bool imp = PROP == 4 || PROP == 5, err_prop = PROP == 3 || PROP == 5;
	Case c; c.imp = imp;
	auto ms = imp ? irk_methods() : erk_methods();
	c.method = r.of(ms);
	if (err_prop && !c.embedded()) { r.desc = "no embedded method"; r.begin(); return; }
	std::vector<int> probs = {DECAY, RAMP, CHAIN3, VDP, PRINCE4, HARM, LOGISTIC, ZERO, CONST2, QUAD4, OSC5};
	if (imp) { probs.push_back(STIFF2); probs.push_back(ROBER); }
	probs.push_back(PULSE); probs.push_back(RING19);
	if (!imp) probs.push_back(KICK);
	int id = r.of(probs);
	std::vector<std::pair<double,double>> spans = {{0, 1}, {-0.7, 0.4}, {2.1, 2.2}, {0, 5}};
	if (wide) { spans.push_back({100.3, 101}); spans.push_back({-3, 1}); }
	if (th) { spans.push_back({-20.7, -20}); spans.push_back({0, 23}); }
	auto sp = r.of(spans); c.t0 = sp.first; c.t1 = sp.second;
	double L = c.t1 - c.t0;
	c.adaptive = err_prop ? true : r.cfg(2) == 0;
	if (c.adaptive) {
		std::vector<double> dts = {1e-3*L, L, 0.2*L}; if (wide) { dts.push_back(1e-6*L); dts.push_back(0.05*L); } if (th) dts.push_back(7*L);
		c.dt = r.of(dts);
		std::vector<std::pair<double,double>> tols = {{1e-6, 1e-6}, {1e-3, 1e-5}, {1e-7, 1e-3}};
		if (err_prop) { tols.push_back({0.0, 1e-4}); tols.push_back({1e-4, 1e-14}); tols.push_back({1e-2, 1e-2}); }
		if (wide) { tols.push_back({1e-9, 1e-9}); tols.push_back({1e-4, 1e-2}); }
		auto tl = r.of(tols); c.rtol = tl.first; c.atol = tl.second;
		if (PROP == 3 || PROP == 5) { std::vector<double> md = {0, 0.07*L}; c.max_dt = r.of(md); }
	} else {
		std::vector<double> dts = {0.1*L, L, L/7}; if (wide) { dts.push_back(L/30); dts.push_back(0.3*L); }
		c.dt = r.of(dts);
	}
	if (id == RING19 && (!th || L > 2)) { if (sp.first != -0.7 && !(PROP == 5 && L == 5)) { r.desc = "only on some intervals"; r.begin(); return; } }
	if (!c.really_adaptive() && c.dt < L/40) c.dt = L/40;
	if (imp) {
		std::vector<int> refresh = {10, 0, 1}; if (PROP == 5) refresh.resize(1);
		c.nrefresh = r.of(refresh);
		if (PROP == 4) { std::vector<double> nt = {1e-10, 1e-6}; c.ntol = c.ndx = r.of(nt); }
		if (PROP == 4 && r.cfg(2)) c.nmaxit = 5;   // Newton fails sometimes
	}
	// where the disturbance goes, and whether any call at all is disturbed
	bool disturb = false;
	if (PROP != 5 && c.dt >= 0.1*L && L <= 1.2 && (!imp || (c.nmaxit == 50 && c.nrefresh == 10 && c.ntol < 1e-8)))
		disturb = th || id == CHAIN3 || id == VDP || id == RAMP || id == HARM || (!imp && id != ROBER);
	Prob p = make_prob(id, c.t0 + 0.4*L, id == KICK ? 40 : 30);
	p.keep_log = PROP == 2 || PROP == 4;
	r.desc = c.str(p) + (disturb ? ", disturbed answers" : "");
	r.begin();
	long at = -1;
	if (disturb) {
		std::vector<double> fac = {1, 30, -1};
		const long maxcall = th ? (PROP == 4 ? 60 : 100) : 400;
		p.hook = [&r, &at, fac, maxcall](long k, bool jac, double, const arma::vec &, arma::vec *v, arma::mat *) {
			if (jac || k > maxcall) return;
			int d = r.dev(r.eng->thorough() ? 3 : 2);
			if (d) { *v *= fac[d]; at = k; }
		};
	}
	arma::vec y0 = p.y0;
	Sol s = integrate(c, p);
	p.hook = nullptr;
	if (at >= 0) r.desc += fmt(", call %ld", at);
	visit(r, s);
	r.eng->outcome(hmix(s.status, s.t.size()));
	Tab tb = table(c.imp, c.method);
	if (s.y.empty() || arma::any(s.y[0] != y0)) fail("y0", "first state is not y0");
	for (std::size_t i = 0; i < s.t.size(); ++i)
		if (s.y[i].size() != y0.size() || s.stages[i].size() != y0.size()*tb.s || s.err_est[i].size() != y0.size()) fail("dimension", "wrong dimensions");
#if PROP == 2
	LogIndex ix(p.log);
	for (std::size_t i = 0; i + 1 < s.t.size(); ++i) check_erk_step(tb, s, i, p, ix);
#elif PROP == 3
	for (std::size_t i = 0; i + 1 < s.t.size(); ++i) { check_erk_error(c, tb, s, i); check_growth(c, s, i, 4.0); }
#elif PROP == 4
	for (std::size_t i = 0; i + 1 < s.t.size(); ++i) check_irk_step(c, tb, s, i, p, disturb ? &p.log : nullptr);
#else
	for (std::size_t i = 0; i + 1 < s.t.size(); ++i) { check_irk_error(c, tb, s, i, p, r.eng); check_growth(c, s, i, 8.0); }
#endif
}
int main(int c, char **v) { return main_(c, v, body, 1, 2); }
