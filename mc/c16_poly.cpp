// C16: expand, collocation coefficients, dense output.
#include "rk.hpp"
using namespace mc;
typedef long double ld;

static ld lagrange_int(const arma::vec &c, int j, ld th)   // int_0^th l_j
{
	std::vector<ld> p(1, 1);
	for (std::size_t k = 0; k < c.size(); ++k) if ((int)k != j) {
		std::vector<ld> q(p.size() + 1, 0);
		for (std::size_t i = 0; i < p.size(); ++i) { q[i + 1] += p[i]; q[i] -= p[i]*(ld)c(k); }
		ld d = (ld)c(j) - (ld)c(k); for (auto &x : q) x /= d;
		p = q;
	}
	ld s = 0, t = th; for (std::size_t i = 0; i < p.size(); ++i) { s += p[i]*t/(i + 1); t *= th; }
	return s;
}
static double mag(const arma::vec &c, int j, double th)    // the same with all signs positive
{
	std::vector<double> p(1, 1);
	for (std::size_t k = 0; k < c.size(); ++k) if ((int)k != j) {
		std::vector<double> q(p.size() + 1, 0);
		for (std::size_t i = 0; i < p.size(); ++i) { q[i + 1] += p[i]; q[i] += p[i]*std::fabs(c(k)); }
		double d = std::fabs(c(j) - c(k)); for (auto &x : q) x /= d;
		p = q;
	}
	double s = 0, t = std::fabs(th); for (std::size_t i = 0; i < p.size(); ++i) { s += p[i]*t/(i + 1); t *= std::fabs(th); }
	return s;
}
static std::vector<irk::coeff_list> lists(int outer)
{
	std::vector<std::vector<int>> in = {{}};
	for (int a = -1; a < 2; ++a) { in.push_back({a}); for (int b = -1; b < 2; ++b) in.push_back({a, b}); }
	std::vector<irk::coeff_list> all = {{}}, last = {{}};
	for (int n = 0; n < outer; ++n) {
		std::vector<irk::coeff_list> next;
		for (auto &l : last) for (auto &x : in) { auto q = l; q.push_back(x); next.push_back(q); }
		all.insert(all.end(), next.begin(), next.end()); last = next;
	}
	return all;
}
static std::string ls(const irk::coeff_list &l) { std::ostringstream o; o << "{"; for (auto &x : l) { o << "{"; for (int i : x) o << i << " "; o << "}"; } o << "}"; return o.str(); }

static void body(Run &r)
{
	bool th = r.eng->thorough();
	int part = r.cfg(4);
	if (part == 0) {       // expand is the product of two sums of monomials
		static auto L = lists(2); static auto L1 = lists(th ? 3 : 1);
		const irk::coeff_list &a = r.of(L), &b = r.of(L1); bool swap = r.cfg(2);
		r.desc = "expand " + ls(a) + " and " + ls(b); r.begin();
		irk::coeff_list x = swap ? b : a, y = swap ? a : b, x2 = x, y2 = y;
		auto g = irk::expand(x, y);
		r.eng->validated++; r.eng->transitions++;
		std::vector<std::vector<int>> want, got(g.begin(), g.end());
		for (auto &p : x) for (auto &q : y) { auto m = p; m.insert(m.end(), q.begin(), q.end()); want.push_back(m); }
		for (auto *v : {&want, &got}) { for (auto &m : *v) std::sort(m.begin(), m.end()); std::sort(v->begin(), v->end()); }
		std::uint64_t h = 7; for (auto &m : got) { h = hmix(h, 99); for (int i : m) h = hmix(h, i + 5); } r.eng->state(h);
		if (want != got) fail("expand", r.desc + " gives " + ls(g));
		if (x != x2 || y != y2) fail("argument", r.desc);
		return;
	}
	if (part == 1 || part == 3) {
		int n; arma::vec c;
		if (part == 1) {   // all sequences of distinct nodes
			std::vector<double> al = {0, 1, 0.5, 0.25, -0.5, 0.1, 2}; if (th) al.push_back(1.0/3);
			n = 1 + r.cfg(th ? 8 : 7); c.set_size(n);
			for (int i = 0; i < n; ++i) { int k = r.cfg(al.size()); c(i) = al[k]; al.erase(al.begin() + k); }
		} else {           // more nodes than any method has: families of nodes in all rotations, forwards and backwards
			n = 8 + r.cfg(th ? 5 : 3); c.set_size(n);
			int fam = r.cfg(4), rot = r.cfg(n), back = r.cfg(2);
			for (int i = 0; i < n; ++i) {
				int k = (i + rot) % n; if (back) k = n - 1 - k;
				c(i) = fam == 0 ? (k + 0.5)/n : fam == 1 ? double(k)/(n - 1) : fam == 2 ? 0.5 - 0.5*std::cos(M_PI*(k + 0.5)/n) : 2 + 0.25*k;
			}
		}
		r.desc = "collocation nodes " + vs(c); r.begin();
		arma::vec c2 = c; arma::mat B = irk::collocation_interpolate_coeffs(c2);
		if (std::memcmp(c.memptr(), c2.memptr(), 8*n)) fail("argument", r.desc);
		r.eng->state(hstate(n, c)); r.eng->validated++;
		if ((int)B.n_rows != n || (int)B.n_cols != n) fail("size", r.desc);
		irk::solver_coeffs sc; sc.c = c; sc.b = c; sc.A = arma::mat(n, n); sc.b_interp = B;
		erk::solver_coeffs se; se.c = c; se.b = c; se.A = arma::mat(n, n); se.b_interp = B;
		for (double t : {0.0, 1.0, 0.5, 0.3, -0.7, 1.5, 1e-3}) {
			arma::vec w = irk::project_b(t, sc), w2 = erk::project_b(t, se);
			if ((int)w.size() != n || (int)w2.size() != n) fail("size", r.desc);
			for (int j = 0; j < n; ++j) {
				double e = (double)lagrange_int(c, j, t), tol = 1e-13*mag(c, j, t) + 1e-300; r.eng->transitions++;
				if (!(std::fabs(w(j) - e) <= tol)) fail("collocation", r.desc + fmt(": weight %d at %g is %.17g, not %.17g", j, t, w(j), e));
				if (!(std::fabs(w2(j) - e) <= tol)) fail("collocation-explicit", r.desc + fmt(": weight %d at %g is %.17g, not %.17g", j, t, w2(j), e));
			}
		}
		return;
	}
	// dense output of integrations
	auto ms = irk_methods(); int m = r.of(ms);
	auto sc = irk::get_coefficients(m);
	std::vector<int> ps = {DECAY, HARM, RAMP, LOGISTIC, CHAIN3, QUAD4, OSC5, VDP}; int pid = r.of(ps);
	Case c; c.imp = true; c.method = m; int mode = r.cfg(2);
	std::vector<double> hs = {0.1, 0.01, 0.3}; if (th) { hs.push_back(0.05); hs.push_back(0.003); } c.dt = r.of(hs);
	std::vector<double> t0s = {0, -1.5, 7.25}; c.t0 = r.of(t0s); c.t1 = c.t0 + (th ? 10 : 5)*c.dt; c.adaptive = mode; c.rtol = c.atol = 1e-7;
	c.ntol = c.ndx = 1e-13; c.nmaxit = 60; c.nrefresh = 1;
	if (m == irk::IMPLICIT_EULER && mode) { r.begin(); return; }
	Prob p = make_prob(pid);
	r.desc = "dense output of " + c.str(p); r.begin();
	// interpolating weights are documented for collocation methods with distinct nodes
	bool colloc = m == irk::RADAU_IIA_32 || m == irk::RADAU_IIA_53 || m == irk::RADAU_IIA_95 || m == irk::RADAU_IIA_137 || m == irk::GAUSS_LEGENDRE_147;
	if (sc.b_interp.empty()) { r.eng->extra["no dense output"] += 1; if (colloc && m != irk::RADAU_IIA_137 && m != irk::GAUSS_LEGENDRE_147) fail("missing", r.desc + ": no dense output"); return; }
	Sol s = integrate(c, p); visit(r, s);
	if (s.status != SUCCESS) { r.eng->extra["not successful"] += 1; return; }
	int ns = sc.b.size(), n = p.y0.size();
	// the error bound of the interpolation weights' rounding
	double wr = 0; for (int j = 0; j < ns; ++j) wr = std::max(wr, mag(sc.c, j, 1.0)); wr *= 1e-12;
	for (std::size_t k = 1; k < s.t.size(); ++k) {
		double h = s.t[k] - s.t[k - 1]; arma::mat K = arma::reshape(arma::mat(s.stages[k]), n, ns);
		double ksc = arma::abs(K).max() + 1e-300, ysc = ninf(s.y[k]) + ninf(s.y[k - 1]);
		auto dense = [&](double x) { return arma::vec(s.y[k - 1] + h*(K*irk::project_b(x, sc))); };
		auto tol = [&]() { return wr*h*ksc*ns + 1e-13*ysc + 1e-11*h*ksc; };
		if (!(ninf(arma::vec(dense(1) - s.y[k])) <= tol())) fail("end", r.desc + fmt(": step %zu: at its end dense output is ", k) + vs(dense(1)) + ", not " + vs(s.y[k]));
		if (!(ninf(arma::vec(dense(0) - s.y[k - 1])) == 0)) fail("begin", r.desc + fmt(": step %zu", k));
		if (colloc) for (int i = 0; i < ns; ++i) {
			arma::vec yi = dense(sc.c(i)), f = p.f(s.t[k - 1] + sc.c(i)*h, yi);
			if (!(ninf(arma::vec(f - K.col(i))) <= p.lip*(1 + ysc)*(tol() + 1e-10*(h*ksc + 1)) + 1e-9*ksc)) fail("collocation-point", r.desc + fmt(": step %zu: the derivative at node %d is ", k, i) + vs(f) + ", the stage " + vs(arma::vec(K.col(i))));
		}
		if (p.exact && !mode) for (double x : {0.1, 0.37, 0.5, 0.9}) {      // one step from the exact solution: order ns inside
			if (k != 1) break;
			double e = ninf(arma::vec(dense(x) - p.exact(c.t0 + x*h, c.t0)));
			double b = 30*std::pow(p.lip*h*1.5, ns + 1)*(1 + ysc) + 1e-10*(1 + ysc) + wr*h*ksc*ns;
			if (!(e <= b)) fail("inside", r.desc + fmt(": error %g at %g", e, x));
		}
	}
}
int main(int c, char **v) { return main_(c, v, body); }
