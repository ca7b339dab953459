// C11: one fixed step on y' = lambda y multiplies by R(z); A- and L-stability.
#include "integ.hpp"
#include <complex>
using namespace mc;
typedef std::complex<double> cd;

static cd Rz(const Tab &t, cd z)
{
	arma::cx_mat M = arma::cx_mat(arma::eye(t.s, t.s), arma::zeros(t.s, t.s)) - z*t.A;
	arma::cx_vec K = arma::solve(M, arma::cx_vec(arma::vec(t.s, arma::fill::ones), arma::vec(t.s, arma::fill::zeros)));
	return 1.0 + z*arma::dot(arma::cx_vec(t.b, arma::vec(t.s, arma::fill::zeros)), K);
}

static double sep(const Tab &t, cd z)   // distance of the stage equations from singular
{
	arma::cx_mat M = arma::cx_mat(arma::eye(t.s, t.s), arma::zeros(t.s, t.s)) - z*t.A;
	arma::vec s = arma::svd(M);
	return s(t.s - 1)/std::max(1.0, s(0));
}

static void body(Run &r)
{
	bool th = r.eng->thorough();
	auto im = irk_methods(); auto em = erk_methods();
	int k = r.cfg(im.size() + em.size());
	Case c; c.imp = k < (int)im.size(); c.method = c.imp ? im[k] : em[k - im.size()];
	std::vector<double> mag = {0, 1e-3, 0.05, 0.3, 1, 2.5, 7, 20, 100, 1e4, 1e6, 1e8};
	if (th) for (double x : {1e-6, 0.01, 0.1, 0.5, 0.75, 1.5, 2.0, 3.0, 3.5, 4.0, 5.0, 9.0, 12.0, 15.0, 30.0, 50.0, 1e3, 1e5, 1e7}) mag.push_back(x);
	std::vector<double> re; for (double x : mag) { re.push_back(-x); if (x > 0 && x <= 20) re.push_back(x); }
	double a = r.of(re); double b = r.of(mag);
	std::vector<double> hs = {1.0, 0.125}; if (th) hs.push_back(3.0);
	double h = r.of(hs);
	int n = 1 + r.cfg(th ? 4 : 2);
	std::vector<int> refr = {10, 0}; if (c.imp) c.nrefresh = r.of(refr);
	cd z1(a, b), z2(-0.4*std::abs(b) - 0.1, 0.7*a);
	r.desc = fmt("%s: %d steps with z = %g%+gi and %g%+gi, dt=%g", c.mname(), n, a, b, z2.real(), z2.imag(), h);
	r.begin();
	Tab t = table(c.imp, c.method);
	if (c.imp && ((a > 0 && sep(t, z1) < 1e-3) || sep(t, z2) < 1e-3*(z2.real() > 0))) { r.eng->extra["skipped near a pole or out of range"] += 1; return; }
	cd R1 = Rz(t, z1), R2 = Rz(t, z2);
	r.eng->state(hd(hd(c.method, a), b));
	r.eng->validated++;
	bool Lst = c.imp && c.method != irk::GAUSS_LEGENDRE_147;
	if (c.imp && a <= 0) {
		if (!(std::abs(R1) <= 1 + 1e-9)) fail("A-stability", r.desc + fmt(": |R| = %.17g", std::abs(R1)));
		if (Lst && std::abs(z1) >= 1e6 && !(std::abs(R1)*std::abs(z1) < 200)) fail("L-stability", r.desc + fmt(": |R| = %.17g", std::abs(R1)));
	}
	// rotated block system
	cd l1 = z1/h, l2 = z2/h;
	arma::mat D = {{l1.real(), -l1.imag(), 0, 0}, {l1.imag(), l1.real(), 0, 0}, {0, 0, l2.real(), -l2.imag()}, {0, 0, l2.imag(), l2.real()}};
	double w = 0.7; arma::mat Q = arma::eye(4, 4); Q(0, 0) = Q(2, 2) = std::cos(w); Q(0, 2) = std::sin(w); Q(2, 0) = -std::sin(w);
	arma::mat M = Q*D*Q.t();
	if (std::abs(z1) > 1e3 || std::abs(z2) > 1e3) { Q = arma::eye(4, 4); M = D; }     // no mixing of rounding errors
	auto poly = [&](cd z) { double s = 1, x = 1; for (int i = 1; i <= t.s; ++i) { x *= std::abs(z)/i; s += x*2; } return c.imp ? 1.0 : s; };
	double tolf = c.imp ? 1e-8 : 1e-13;
	double e1 = std::pow(std::max(std::abs(R1), 1e-3), n), e2 = std::pow(std::max(std::abs(R2), 1e-3), n);
	if (!(e1 < 1e12 && e2 < 1e12 && poly(z1) < 1e12 && poly(z2) < 1e12)) { r.eng->extra["skipped near a pole or out of range"] += 1; return; }
	arma::vec u0 = {1.0, 0.5, -0.3, 2.0};
	Prob p; p.name = "linear"; p.y0 = Q*u0;
	p.f = [M](double, const arma::vec &y) { return arma::vec(M*y); };
	p.J = [M](double, const arma::vec &) { return M; };
	c.adaptive = false; c.t0 = 0; c.dt = h; c.t1 = n*h;
	c.ntol = 1e-11; c.ndx = 1e-9; c.nmaxit = 60;
	Sol s = integrate(c, p);
	visit(r, s);
	if (s.status != SUCCESS) {
		// right half plane: the stage equations may be (nearly) singular
		if (a > 0 || z2.real() > 0) { r.eng->extra["skipped near a pole or out of range"] += 1; return; }
		fail("status", r.desc + fmt(": status %d", s.status));
	}
	if ((int)s.t.size() != n + 1) fail("steps", r.desc + fmt(": %zu outputs", s.t.size()));
	cd v1(1.0, 0.5), v2(-0.3, 2.0);
	double worst = std::abs(v1) + std::abs(v2);
	for (int i = 1; i <= n; ++i) {
		v1 *= R1; v2 *= R2;
		worst = std::max({worst*std::max({1.0, std::abs(R1), std::abs(R2)})});
		arma::vec u = Q.t()*s.y[i];
		double d1 = std::abs(cd(u(0), u(1)) - v1), d2 = std::abs(cd(u(2), u(3)) - v2);
		double rel = tolf*(poly(z1) + poly(z2))*(c.imp ? 1 + 1e-6*0 : 10)*worst;
		if (!(d1 <= rel && d2 <= rel)) fail("R", r.desc + fmt(": step %d gives %.17g%+.17gi, %.17g%+.17gi; expected %.17g%+.17gi, %.17g%+.17gi", i, u(0), u(1), u(2), u(3), v1.real(), v1.imag(), v2.real(), v2.imag()));
		if (c.imp && Lst && std::abs(z1) >= 1e6 && a < 0 && !(std::abs(cd(u(0), u(1))) < 1e-3)) fail("L-stability", r.desc + fmt(": not damped: %g%+gi", u(0), u(1)));
	}
}
int main(int c, char **v) { return main_(c, v, body); }
