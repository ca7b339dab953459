// PROP=18: Adams-Bashforth, PROP=19: BDF.  Every stored step is recomputed
// from the formula of its order (coefficients derived here, not copied).
#include "rk.hpp"
#include "multistep.hpp"
using namespace mc;
using arma::vec;
typedef long double ld;

// AB of order k: y_{n+1} = y_n + dt*sum_i B[i] f_{n-i}, B[i] = int_0^1 prod_{j != i} (s + j)/(j - i) ds
static std::vector<ld> ab(int k)
{
	std::vector<ld> B;
	for (int i = 0; i < k; ++i) {
		std::vector<ld> p(1, 1);
		for (int j = 0; j < k; ++j) if (j != i) {
			std::vector<ld> q(p.size() + 1, 0);
			for (std::size_t n = 0; n < p.size(); ++n) { q[n + 1] += p[n]; q[n] += p[n]*j; }
			for (auto &x : q) x /= (j - i);
			p = q;
		}
		ld s = 0; for (std::size_t n = 0; n < p.size(); ++n) s += p[n]/(n + 1);
		B.push_back(s);
	}
	return B;
}
// BDF of order k: sum_j a[j] y_{n+1-j} = dt f_{n+1} (from sum_{m=1}^k nabla^m/m)
static std::vector<ld> bdf(int k)
{
	std::vector<ld> a(k + 1, 0);
	for (int m = 1; m <= k; ++m) { ld c = 1; for (int j = 0; j <= m; ++j) { a[j] += (j % 2 ? -c : c)/m; c = c*(m - j)/(j + 1); } }
	return a;
}
static vec reference(const Prob &p, double t, double h, const vec &y, int times)
{
	int n = times*std::max(400, int(400*p.lip*h));
	double d = h/n; vec x = y;
	for (int i = 0; i < n; ++i) {
		double s = t + i*d;
		vec k1 = p.f(s, x), k2 = p.f(s + d/2, x + d/2*k1), k3 = p.f(s + d/2, x + d/2*k2), k4 = p.f(s + d, x + d*k3);
		x += d/6*(k1 + 2*k2 + 2*k3 + k4);
	}
	return x;
}

static void body(Run &r)
{
	bool th = r.eng->thorough();
	static std::vector<int> probs = {DECAY, HARM, RAMP, LOGISTIC, VDP, CHAIN3, QUAD4, ZERO, CONST2, OSC5, RICCATI, PRINCE4, STIFF2, ROBER, ROOT, WALL, RING19};
	static std::vector<double> starts = {0.0, -1.25, 3.5};
	static std::vector<double> lens = {1.0, 0.37, 2.0};
	static std::vector<double> dts = {0.05, 0.01, 0.1, 0.13, 0.25, 0.002, 0.5, 5.0};
	static std::vector<int> orders = {1, 2, 3, 4, 5, 6, 0, -1, 7, 100};
	int part = r.cfg(PROP == 18 && th ? 2 : 1);
	int pid = r.of(probs), order = r.of(orders);
	double t0 = r.of(starts), len = r.of(lens), dt = r.of(dts);
	if (pid == RING19 && (t0 != -1.25 || (PROP == 19 && dt < 0.04))) { r.desc = "only in part"; r.begin(); return; }
	const bool lng = dt == 0.5 && len == 1.0 && t0 == 0 && (pid == DECAY || pid == RAMP || pid == HARM);   // very many steps
	if (lng) dt = PROP == 18 ? 1/70000.4 : 1/9000.4;
	if (part == 1) { t0 += 0.1; len *= 1.7; dt *= 0.7; }
	int scale = r.cfg(th ? 5 : 2);                 // other initial states
	Prob p = make_prob(pid, t0 + 0.6137*len);     // (not a point of any grid)
	p.horizon = pid == RICCATI || pid == ROOT || pid == WALL ? 300000 : 100000000;
	for (int i = 0; i < scale; ++i) p.y0 *= 0.83;
	double t1 = t0 + len;
	bool is_ab = PROP == 18;
	r.desc = fmt("%s order %d on %s, y0 = %s, t = [%.17g, %.17g], dt = %.17g", is_ab ? "Adams-Bashforth" : "BDF", order, p.name, vs(p.y0).c_str(), t0, t1, dt);
	r.begin();
	multistep::solver_options so; so.order = order;
	vec y0 = p.y0;
	Ref whole(p);
	RefBase &ref = whole;
	basic_output s;
	try {
#if PROP == 18
	s = multistep::adams_bashforth(ref, t0, t1, y0, so, dt);
#else
	s = multistep::bdf(ref, t0, t1, y0, so, dt);
#endif
	} catch (Horizon &) {
		// approaching a pole takes very long, and this is not about that
		if (pid == RICCATI || pid == ROOT || pid == WALL) { r.eng->extra["too many calls"] += 1; return; }
		throw;
	}
	p.hook = nullptr;
	if (so.order != order || y0.n_elem != p.y0.n_elem || arma::any(y0 != p.y0)) fail("argument", r.desc + ": an argument was changed");
	std::size_t n = s.t_vals.size();
	if (s.y_vals.size() != n) fail("length", r.desc);
	for (std::size_t i = 0; i < n; ++i) r.eng->state(hstate(s.t_vals[i], s.y_vals[i]));
	r.eng->transitions += n ? n - 1 : 0;
	bool supported = order >= 1 && order <= (is_ab ? 5 : 6);
	if (!supported) {
		r.eng->extra["unsupported order"] += 1;
		if (s.status == SUCCESS) fail("order-not-reported", r.desc + ": success");
		if (p.fun_calls + p.jac_calls) fail("unsupported-but-running", r.desc);
		return;
	}
	if (n == 0 || s.t_vals[0] != t0 || arma::any(s.y_vals[0] != p.y0)) fail("start", r.desc);
	for (auto &y : s.y_vals) if (y.n_elem != p.y0.n_elem) fail("dimension", r.desc);
	double h = t0 + dt > t1 ? t1 - t0 : dt;
	std::size_t startup = is_ab ? order : order + 1;
	for (std::size_t i = 0; i < n; ++i) {
		double want = t0 + i*h;
		if (!(std::fabs(s.t_vals[i] - want) <= 1e-13*(n + 4)*(1 + std::fabs(t0) + std::fabs(t1)))) fail("grid", r.desc + fmt(": point %zu at %.17g instead of %.17g", i, s.t_vals[i], want));
		if (!fin(s.y_vals[i])) fail("not-finite", r.desc + fmt(": point %zu is %s", i, vs(s.y_vals[i]).c_str()));
	}
	std::size_t want_n = startup;
	if (s.status == SUCCESS) {
		if (n < startup || !(s.t_vals[n - 1] >= t1)) fail("does-not-cover", r.desc + fmt(": ends at %.17g after %zu points", s.t_vals[n - 1], n));
		if (n > startup && s.t_vals[n - 2] >= t1) fail("too-far", r.desc + fmt(": ends at %.17g", s.t_vals[n - 1]));
	}
	(void)want_n;
	// start-up points
	for (std::size_t i = 1; i < std::min(n, startup); ++i) {
		vec x = reference(p, s.t_vals[i - 1], h, s.y_vals[i - 1], 1);
		if (!fin(x)) break;
		// beside or beyond a pole there is no telling what is right
		bool certain = true;
		if (pid == RICCATI || pid == ROOT || pid == WALL) {
			vec x2 = reference(p, s.t_vals[i - 1], h, s.y_vals[i - 1]*(1 + 1e-9), 2);
			certain = fin(x2) && ninf(vec(x - x2)) <= 1e-6*(1 + ninf(x));
		}
		if (!certain) { r.eng->extra["start-up beside a pole"] += 1; break; }
		vec d = x - s.y_vals[i];
		double tol = 0; bool bad = false; double worst = 0;
		for (std::size_t j = 0; j < d.n_elem; ++j) { tol = 1e-7 + 1e-7*std::fabs(x(j)) + 1e-10*ninf(s.y_vals[i - 1]); worst = std::max(worst, std::fabs(d(j))/tol); if (!(std::fabs(d(j)) <= tol)) bad = true; }
		if (getenv("MC_LOUD")) std::fprintf(stderr, "startup %g\n", worst);
		auto &w = r.eng->extra["largest start-up error"]; if (p.smooth && worst > w) w = worst;
		if (bad && p.smooth) fail("start-up", r.desc + fmt(": start-up point %zu is %s, should be %s", i, vs(s.y_vals[i]).c_str(), vs(x).c_str()));
		r.eng->validated++;
	}
	// steps
	std::vector<ld> B = ab(order), a = bdf(order);
	for (std::size_t i = startup; i < n; ++i) {
		std::size_t d = p.y0.n_elem;
		std::vector<ld> want(d, 0), mag(d, 0);
		if (is_ab) {
			for (std::size_t j = 0; j < d; ++j) want[j] = mag[j] = s.y_vals[i - 1](j);
			for (auto &m : mag) m = std::fabs(m);
			for (int k = 0; k < order; ++k) {
				// the times of past points: t - k*dt or the stored ones, up to rounding
				vec f = p.f(s.t_vals[i - 1 - k], s.y_vals[i - 1 - k]);
				for (std::size_t j = 0; j < d; ++j) { want[j] += h*B[k]*f(j); mag[j] += std::fabs(h*B[k])*(std::fabs((ld)f(j)) + p.lip + p.lip*std::fabs((ld)s.y_vals[i - 1 - k](j))); }
			}
			for (std::size_t j = 0; j < d; ++j) {
				ld e = std::fabs(want[j] - s.y_vals[i](j));
				if (!(e <= 1e-11L*(mag[j] + 1e-30L))) fail("step", r.desc + fmt(": point %zu, component %zu is %.17g, the formula gives %.17Lg", i, j, s.y_vals[i](j), want[j]));
			}
		} else {
			vec f = p.f(s.t_vals[i], s.y_vals[i]);
			for (std::size_t j = 0; j < d; ++j) {
				ld res = -h*f(j), m = std::fabs(h*f(j));
				for (int k = 0; k <= order; ++k) { res += a[k]*s.y_vals[i - k](j); m += std::fabs(a[k]*s.y_vals[i - k](j)); }
				ld tol = 1e-10L*(1 + h*p.lip) + 1e-12L*m;
				double q = (double)(std::fabs(res)/tol);
				auto &w = r.eng->extra["largest residual of a step"]; if (q > w) w = q;
				if (!(std::fabs(res) <= tol)) fail("step", r.desc + fmt(": point %zu, component %zu: the formula is off by %.3Lg (tolerance %.3Lg)", i, j, res, tol));
			}
		}
		r.eng->validated++;
	}
	if (s.status != SUCCESS) r.eng->extra["integration given up"] += 1;
	// easy problems have to work
	double top = ninf(p.y0); for (auto &y : s.y_vals) top = std::max(top, ninf(y));
	bool roundable = is_ab || 4*2.3e-16*top < 1e-10;     // the solver's increments can get as small as it wants
	if (s.status != SUCCESS && p.smooth && h*p.lip <= 0.5 && pid != RICCATI && roundable) fail("given-up", r.desc + fmt(": status %d", s.status));
}
int main(int argc, char **argv) { return main_(argc, argv, body); }
