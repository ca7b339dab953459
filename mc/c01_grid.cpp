// C01: the time grid of every Runge-Kutta integration.
#include "integ.hpp"
using namespace mc;

static void body(Run &r)
{
	bool th = r.eng->thorough();
	auto im = irk_methods(); auto em = erk_methods();
	int k = r.cfg(im.size() + em.size());
	Case c; c.imp = k < (int)im.size(); c.method = c.imp ? im[k] : em[k - im.size()];
	std::vector<int> probs = {DECAY, RAMP, CHAIN3, ZERO, KICK, RING19, HARM, LOGISTIC, OSC5};
	if (!th) probs.resize(6);
	if (c.imp) probs.push_back(STIFF2);
	std::vector<std::pair<double,double>> spans = {{0, 1}, {-1, 0.5}, {0.1, 0.7}, {1000.1, 1001}, {-5, -4.3}, {0, 1e-9}, {1e-3, 7}, {0.1, 0.3}, {1e6, 1e6 + 0.1}, {-1e-3, 1e-3}, {0, 3.3}, {0.3, 0.9}, {-0.1, 0.2}, {1e9, 1e9 + 1}};
	if (!th) spans.resize(8);
	std::vector<int> many = {0, 1500, 5003}; if (!c.imp) many.push_back(70001); if (th) many.push_back(c.imp ? 20011 : 270001);
	int nlong = r.of(many);       // very many steps
	if (nlong) { spans = {{0, 20}, {-11, 9.3}}; probs = {DECAY, CHAIN3, KICK}; if (th) probs.push_back(RING19); if (c.imp && nlong > 5003 && irk::get_coefficients(c.method).b.size() > 3) { r.begin(); return; } }
	auto sp = r.of(spans); c.t0 = sp.first; c.t1 = sp.second;
	double L = c.t1 - c.t0;
	c.adaptive = r.cfg(2) == 0;
	std::vector<double> dts;
	if (c.adaptive) dts = {1e-6, L, 5*L, 0.1*L, 1e-3*L, L/3};
	else dts = {0.1*L, L, 5*L, L/3, L/7, 0.3*L, L/64, 0.999999*L, L/49, L*(1 + 1e-15)};
	if (!th && c.adaptive) dts.resize(4);
	if (nlong) dts = {L/(nlong - 0.4)};
	c.dt = r.of(dts);
	// without an embedded method the step stays as it is
	if (!nlong && !c.really_adaptive() && c.dt < L/200) c.dt = L/50;
	if (c.adaptive) {
		std::vector<double> tols = {1e-6, 1e-3, 1e-9};
		if (!th) tols.resize(2);
		c.rtol = c.atol = r.of(tols);
		std::vector<double> md = {0.0, 0.11*L, 0.5*L};
		if (!th) md.resize(2);
		if (nlong) md = {L/(nlong - 0.4)};
		c.max_dt = r.of(md);
		c.ntol = c.ndx = std::max(1e-11, 1e-3*c.rtol);
	}
	int id = r.of(probs);
	// a jump cannot be resolved with steps that t + dt can no longer represent
	if (id == KICK && std::fabs(c.t0) > 10) id = PULSE;
	if ((id == STIFF2 || id == PULSE) && std::fabs(c.t0) > 1e4) id = HARM;
	// positions of the kick are chosen relative to the interval
	double kp = id == KICK || id == PULSE ? c.t0 + 0.4*L : 0, ka = 40;
	Prob p = make_prob(id, kp, ka); if (nlong) p.horizon = 100000000;
	if (id == STIFF2 && c.method == irk::LOBATTO_IIIC_43) c.ntol = c.ndx = 1e-8;
	r.desc = c.str(p);
	r.begin();

	arma::vec y0 = p.y0;
	Sol s = integrate(c, p);
	visit(r, s);
	r.eng->outcome(hmix(s.status, s.t.size()));
	if (s.status != SUCCESS) {
		r.eng->extra["not successful"] += 1;
		// Newton may fail on a fixed step; everything else must work
		if (c.really_adaptive() || (!c.imp && id != CHAIN3 && id != OSC5 && id != RING19)) fail("status", fmt("status %d for an ordinary problem", s.status));
	}
	if (s.t.empty() || s.t[0] != c.t0) fail("t0", fmt("first time %.17g is not t0", s.t.empty() ? NAN : s.t[0]));
	std::size_t n = s.t.size();
	if (s.y.size() != n || s.stages.size() != n || s.err_est.size() != n || s.err.size() != n)
		fail("lengths", fmt("%zu times, %zu states, %zu stages, %zu estimates, %zu errors", n, s.y.size(), s.stages.size(), s.err_est.size(), s.err.size()));
	if (s.y[0].size() != y0.size() || arma::any(s.y[0] != y0)) fail("y0", "first state is not y0: " + vs(s.y[0]));
	Tab tb = table(c.imp, c.method);
	for (std::size_t i = 0; i < n; ++i) {
		if (s.y[i].size() != y0.size() || s.err_est[i].size() != y0.size() || s.stages[i].size() != y0.size()*tb.s)
			fail("dimension", fmt("entry %zu has dimensions %zu, %zu, %zu", i, (std::size_t)s.y[i].size(), (std::size_t)s.err_est[i].size(), (std::size_t)s.stages[i].size()));
		if (!fin(s.y[i])) fail("finite", fmt("state %zu is not finite", i));
		if (i && !(s.t[i] > s.t[i-1])) fail("increase", fmt("t[%zu] = %.17g after %.17g", i, s.t[i], s.t[i-1]));
		if (s.t[i] > c.t1) fail("overshoot", fmt("t[%zu] = %.17g > t1", i, s.t[i]));
	}
	if (s.status == SUCCESS && s.t[n-1] != c.t1) fail("t1", fmt("last time %.17g, t1 = %.17g", s.t[n-1], c.t1));
	if (nlong && !c.really_adaptive() && s.status == SUCCESS && n != (std::size_t)nlong + 1) fail("fixed step", fmt("%zu steps, should be %d", n - 1, nlong));
	if (!c.really_adaptive() && s.status == SUCCESS) {
		double dt = std::min(c.dt, L);
		double ulp = 4e-16*(std::fabs(c.t0) + std::fabs(c.t1));
		for (std::size_t i = 1; i + 1 < n; ++i)
			if (std::fabs(s.t[i] - s.t[i-1] - dt) > 4*ulp + 1e-13*dt) fail("fixed step", fmt("step %zu is %.17g, not %.17g", i, s.t[i] - s.t[i-1], dt));
		if (s.t[n-1] - s.t[n-2] > dt + 4*ulp + 1e-13*dt) fail("fixed step", fmt("last step %.17g > %.17g", s.t[n-1] - s.t[n-2], dt));
	}
	if (c.really_adaptive() && c.max_dt > 0) {
		double ulp = 4e-16*(std::fabs(c.t0) + std::fabs(c.t1));
		for (std::size_t i = 1; i < n; ++i) if (s.t[i] - s.t[i-1] > c.max_dt*(1 + 1e-12) + 4*ulp) fail("max_dt", fmt("step %zu is %.17g > %.17g", i, s.t[i] - s.t[i-1], c.max_dt));
	}
}
int main(int c, char **v) { return main_(c, v, body); }
