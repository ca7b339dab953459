// C26: global errors against exact solutions.  Part 0: adaptive integrations,
// error against tolerance.  Part 1: fixed steps, error under halving the step.
#include "rk.hpp"
#include "multistep.hpp"
using namespace mc;
using arma::vec;

static double gerr(const vec &y, const vec &x, const vec &y0)
{ double e = 0; for (std::size_t i = 0; i < y.n_elem; ++i) e = std::max(e, std::fabs(y(i) - x(i))/(1 + std::fabs(x(i)) + std::fabs(y0(i)))); return e; }

static void adaptive(Run &r)
{
	bool th = r.eng->thorough();
	bool imp = r.cfg(2); std::vector<int> ms; for (int m : imp ? irk_methods() : erk_methods()) if (imp ? irk_embedded(m) : erk_embedded(m)) ms.push_back(m);
	Case c; c.imp = imp; c.method = r.of(ms);
	static const std::vector<int> ps = {DECAY, HARM, RAMP, LOGISTIC, STIFF2, QUAD4, ZERO, CONST2, RICCATI};
	int id = r.of(ps);
	static const std::vector<double> tols = {1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10};
	double tol = r.of(tols); int mix = r.cfg(3);          // both, absolute only, relative only
	static const std::vector<double> starts = {0, -3.25, 2.5, 40}; static const std::vector<double> lens = {1, 5, 0.01};
	c.t0 = starts[r.cfg(th ? 4 : 2)]; double len = lens[r.cfg(th ? 3 : 2)]; if (id == RICCATI) len *= 0.9/5; c.t1 = c.t0 + len;
	static const std::vector<double> dts = {7e-4, 0.5, 1e-6, 0.05}; c.dt = dts[r.cfg(th ? 4 : 2)];
	static const std::vector<double> mds = {0, 0.3}; c.max_dt = mds[r.cfg(2)];
	c.rtol = mix == 1 ? 0 : tol; c.atol = mix == 2 ? 1e-3*tol : tol; c.ntol = c.ndx = 0.01*tol;
	Prob p = make_prob(id); p.horizon = 4000000;
	r.desc = c.str(p); r.begin();
	if (imp && (c.method == irk::RADAU_IIA_32) && tol < 1e-8) return;      // very many steps
	if (!imp && (c.method == erk::BOGACKI_SHAMPINE_32) && tol < 1e-8) return;
	Sol s = integrate(c, p);
	visit(r, s);
	if (s.status != SUCCESS) { fail("status", r.desc + fmt(": status %d", s.status)); }
	double worst = 0; std::size_t at = 0;
	for (std::size_t i = 0; i < s.t.size(); ++i) { double e = gerr(s.y[i], p.exact(s.t[i], c.t0), p.y0); if (e > worst) { worst = e; at = i; } }
	double q = worst/(tol + 1e-13);
	auto &w = r.eng->extra[std::string("largest error over tolerance, ") + p.name + (getenv("MC_BYM") ? std::string(" ") + c.mname() : "")]; w = std::max(w, q);
	// about ten times what the methods reach on these problems
	double cap = c.method == erk::BOGACKI_SHAMPINE_32 && !imp ? (id == RICCATI ? 250 : 130) : !imp ? (id == RICCATI ? 130 : 60) : table(imp, c.method).order < 6 ? 40 : 10;
	if (!(q <= cap)) fail("error-over-tolerance", r.desc + fmt(": error %g at %.17g (point %zu), %g times the tolerance", worst, s.t[at], at, q));
}

static void halving(Run &r)
{
	bool th = r.eng->thorough();
	int kind = r.cfg(4);    // explicit, implicit, AB, BDF
	Case c; c.imp = kind == 1; c.adaptive = false; int order; std::string name;
	if (kind < 2) { std::vector<int> ms = kind ? irk_methods() : erk_methods(); c.method = r.of(ms); order = table(c.imp, c.method).order; name = c.mname(); }
	else { order = 1 + r.cfg(kind == 2 ? 5 : 6); name = fmt(kind == 2 ? "Adams-Bashforth %d" : "BDF %d", order); }
	static const std::vector<int> ps = {DECAY, HARM, RAMP, LOGISTIC, RICCATI, STIFF2}; int id = r.of(ps);
	static const std::vector<double> starts = {0, -1.5, 0.75, 10}; double t0 = starts[r.cfg(th ? 4 : 2)], len = id == RICCATI ? 0.5 : 2;
	static const std::vector<double> base = {1, 0.8, 0.7, 0.9}; double scale = base[r.cfg(th ? 4 : 2)];
	r.desc = name + fmt(" on problem %d from %g, steps scaled by %g", id, t0, scale); r.begin();
	if (id == STIFF2 && ((kind != 1 && kind != 3) || order > 9)) return;
	if ((id == RICCATI && order >= 5) || (id == LOGISTIC && kind >= 2 && order >= 5)) return;     // at the accuracy of the solver right away
	Prob p = make_prob(id); p.horizon = 100000000; p.y0 *= scale; 
	if (id == STIFF2 || id == LOGISTIC || id == RICCATI || id == RAMP || id == HARM) p = make_prob(id);   // exact solutions of these are for one initial state
	if (id == DECAY) { double q = scale; p.exact = [q](double t, double s) { return vec{q*std::exp(-(t - s))}; }; }
	p.horizon = 100000000;
	double prev = -1, last = -1, smallest = 1e300; std::string seq;
	bool lin = id != LOGISTIC && id != RICCATI; double floor = kind < 2 ? (lin ? 5e-12 : 5e-11) : lin ? 5e-12 : 2e-9; double before = -1;      // rounding; accuracy of the start-up
	for (int k = 0; k < (order < 3 ? 10 : 8); ++k) {
		int n = int((id == RICCATI ? 6 : 4)/scale*(1 << k)); double dt = len/n;
		std::vector<vec> y; std::vector<double> te;
		if (kind < 2) {
			c.t0 = t0; c.t1 = t0 + len; c.dt = dt; c.ntol = c.ndx = 1e-14; c.ntol = 1e-13; Sol s = integrate(c, p);
			if (s.status != SUCCESS) fail("status", r.desc + fmt(", n = %d: status %d", n, s.status));
			y = s.y; te = s.t; visit(r, s);
		} else {
			if (n < order + 2) continue;
			multistep::solver_options so; so.order = order; Ref ref(p);
			basic_output s = kind == 2 ? basic_output(multistep::adams_bashforth(ref, t0, t0 + len, p.y0, so, dt)) : basic_output(multistep::bdf(ref, t0, t0 + len, p.y0, so, dt));
			if (s.status != SUCCESS) fail("status", r.desc + fmt(", n = %d: status %d", n, s.status));
			y = s.y_vals; te = s.t_vals; r.eng->validated++; for (std::size_t i = 0; i < s.t_vals.size(); ++i) r.eng->state(hstate(s.t_vals[i], s.y_vals[i]));
		}
		double e = 0; for (std::size_t i = 0; i < y.size(); ++i) if (id != STIFF2 || te[i] >= t0 + 0.5*len) e = std::max(e, gerr(y[i], p.exact(te[i], t0), p.y0));
		seq += fmt(" %.2e", e);
		if (prev > 0 && e > 0) { double o = std::log2(prev/e); seq += fmt("(%.2f)", o); if (e > floor && prev < 0.05) { before = last; last = o; r.eng->transitions++; } }
		smallest = std::min(smallest, e);
		prev = e;
		if (e < 1e-12) break;
	}
	last = std::max(last, before);        // the better of the last two: cancellation may spoil one
	if (last < 0) r.eng->extra["no slope, error at the floor"] += 1; else { auto &w = r.eng->extra["largest loss of order"]; w = std::max(w, order - last); }
	if (last < 0 ? smallest > 5*floor : last < order - 0.5) fail("order", r.desc + fmt(": order %d, the errors under halving are", order) + seq);
	if (getenv("MC_LOUD")) std::fprintf(stderr, "%s order %d: %s\n", r.desc.c_str(), order, seq.c_str());
}
// the calls that leave everything at its default
static void defaults(Run &r)
{
	bool imp = r.cfg(2);
	static const std::vector<int> ps = {DECAY, HARM, RAMP, LOGISTIC, STIFF2, QUAD4, ZERO, CONST2, RICCATI}; int id = r.of(ps);
	static const std::vector<double> starts = {0, -3.25, 2.5, 40, -100, 1e-3}; static const std::vector<double> lens = {1, 5, 0.01, 2.5, 1e-5, 0.3};
	double t0 = r.of(starts), len = r.of(lens); if (id == RICCATI) len *= 0.9/5;
	Prob p = make_prob(id); p.horizon = 4000000;
	r.desc = std::string(imp ? "irk" : "erk") + "::odeint with defaults on " + p.name + fmt(", [%.17g, %.17g]", t0, t0 + len); r.begin();
	Sol s = imp ? from(irk::odeint(p, t0, t0 + len, p.y0)) : from(erk::odeint(p, t0, t0 + len, p.y0));
	visit(r, s);
	if (s.status != SUCCESS || s.t.back() != t0 + len) fail("status", r.desc + fmt(": status %d", s.status));
	double worst = 0; for (std::size_t i = 0; i < s.t.size(); ++i) worst = std::max(worst, gerr(s.y[i], p.exact(s.t[i], t0), p.y0));
	auto &w = r.eng->extra["largest error with defaults"]; w = std::max(w, worst);
	if (!(worst <= 2e-2)) fail("error-with-defaults", r.desc + fmt(": error %g", worst));
}
// components of very different size, each to its own tolerance
struct Mixed {
	double rate; int n;
	typedef arma::mat jac_type;
	static double speed(int i) { return 0.7 + 0.3*i; }
	arma::vec fun(double, const arma::vec &y) { arma::vec v(n); v(0) = -rate*y(0); for (int i = 1; i < n; ++i) v(i) = speed(i)*y(i)*(1 - y(i)); return v; }
	arma::mat jac(double, const arma::vec &y) { arma::mat m = arma::zeros(n, n); m(0, 0) = -rate; for (int i = 1; i < n; ++i) m(i, i) = speed(i)*(1 - 2*y(i)); return m; }
};
static void mixed(Run &r)
{
	bool imp = r.cfg(2), th = r.eng->thorough();
	static const std::vector<double> sizes = {1, 1e2, 1e4, 1e6, -1e4, 1e-4}; double size = r.of(sizes);
	static const std::vector<double> rates = {1, 0.1, 3, 0.3}; double rate = r.of(rates);
	static const std::vector<double> starts = {0, -2, 10}; double t0 = r.of(starts);
	static const std::vector<double> lens = {6, 3, 15}; double len = lens[r.cfg(th ? 3 : 2)];
	static const std::vector<double> from0 = {0.2, 0.02, 0.7}; double p0 = r.of(from0);
	int n = 2 + r.cfg(th ? 4 : 2);
	r.desc = std::string(imp ? "irk" : "erk") + fmt("::odeint with defaults on a decay from %g with rate %g beside %d logistic equations from %g, [%g, %g]", size, rate, n - 1, p0, t0, t0 + len); r.begin();
	Mixed p; p.rate = rate; p.n = n; arma::vec y0(n); y0.fill(p0); y0(0) = size;
	Sol s = imp ? from(irk::odeint(p, t0, t0 + len, y0)) : from(erk::odeint(p, t0, t0 + len, y0));
	visit(r, s);
	if (s.status != SUCCESS || s.t.back() != t0 + len) fail("status", r.desc + fmt(": status %d", s.status));
	double w0 = 0, w1 = 0;
	for (std::size_t i = 0; i < s.t.size(); ++i) {
		double x = s.t[i] - t0;
		w0 = std::max(w0, std::fabs(s.y[i](0) - size*std::exp(-rate*x))/(1e-3 + 1e-4*std::fabs(size)));
		for (int j = 1; j < n; ++j) w1 = std::max(w1, std::fabs(s.y[i](j) - p0/(p0 + (1 - p0)*std::exp(-Mixed::speed(j)*x)))/1.1e-3);
	}
	auto &a = r.eng->extra["mixed sizes, largest error over tolerance of the decay"]; a = std::max(a, w0);
	auto &b = r.eng->extra["mixed sizes, largest error over tolerance of the others"]; b = std::max(b, w1);
	if (!(w0 <= 80)) fail("error-with-defaults", r.desc + fmt(": the decay has %g times the tolerance as error", w0));
	if (!(w1 <= 80)) fail("error-with-defaults", r.desc + fmt(": the others have %g times the tolerance as error", w1));
}
static void body(Run &r) { switch (r.cfg(4)) { case 0: adaptive(r); break; case 1: halving(r); break; case 2: defaults(r); break; default: mixed(r); } }
int main(int argc, char **argv) { return main_(argc, argv, body); }
