// C22: the built-in equations on grids of states and parameters: right-hand
// side against its definition, Jacobi matrix against its derivative, invariants,
// known solutions, and functor::compute.
#include "mc.hpp"
#include "rehuel.hpp"
#include "functor.hpp"
#include "test_equations.hpp"
#include <memory>
using namespace mc;
using arma::vec; using arma::mat;
namespace te = test_equations;

static std::string vs(const vec &v) { std::string s = "("; for (double x : v) s += fmt(" %.17g", x); return s + " )"; }
static void near(const std::string &key, double got, double want, double tol, const std::string &what)
{ if (!(std::fabs(got - want) <= tol)) fail(key, what + fmt(": %.17g instead of %.17g", got, want)); }

struct Eq { std::string name; std::unique_ptr<functor> f; std::function<vec(const vec &)> def; std::vector<double> p; std::function<vec(double)> sol; double lip = 1; };
static const std::vector<double> PV = {1.0, 0.5, -2.0, 0.01, 30.0};
enum { EXPO, HARMO, VDPOL, BRUSS, ROBERT, DIMER, STIFF, BODY3, KIN4, LORENZ, N_EQ };
static const char *NAMES[] = {"exponential", "harmonic", "vdpol", "bruss", "rober", "dimer", "stiff_eq", "three_body", "kinetic_4", "lorenz"};
static const int DIM[] = {1, 2, 2, 2, 3, 2, 2, 12, 4, 3}, NPAR[] = {1, 1, 1, 2, 0, 1, 0, 3, 3, 3};

static vec body3(const vec &y, const double *m, bool wrong9)     // positions, then momenta
{
	vec d(12, arma::fill::zeros);
	for (int i = 0; i < 6; ++i) d(i) = y(6 + i)/m[i/2];
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) {
		double dx = y(2*j) - y(2*i), dy = y(2*j + 1) - y(2*i + 1), r = std::sqrt(dx*dx + dy*dy), c = m[i]*m[j]/(r*r*r);
		d(6 + 2*i) += c*dx; d(7 + 2*i) += c*(wrong9 && i == 1 && j == 2 ? dx : dy);
	}
	return d;
}
static mat body3_dpdx(const vec &y, const double *m)
{
	mat K(6, 6, arma::fill::zeros);
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) {
		double d[2] = {y(2*j) - y(2*i), y(2*j + 1) - y(2*i + 1)}, r2 = d[0]*d[0] + d[1]*d[1], r = std::sqrt(r2), c = m[i]*m[j];
		for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
			double k = c*((a == b)/(r2*r) - 3*d[a]*d[b]/(r2*r2*r));
			K(2*i + a, 2*j + b) += k; K(2*i + a, 2*i + b) -= k;
		}
	}
	return K;
}
static mat body3_jac(const vec &y, const double *m)
{
	mat J(12, 12, arma::fill::zeros);
	for (int i = 0; i < 6; ++i) J(i, 6 + i) = 1/m[i/2];
	J.submat(6, 0, 11, 5) = body3_dpdx(y, m);
	return J;
}
// what the code does instead (see known-findings.txt): blocks on the diagonal, sign changed, and two wrong powers of distances
static mat body3_jac_known(const vec &y, const double *m)
{
	mat J(12, 12, arma::fill::zeros);
	for (int i = 0; i < 6; ++i) J(i, i) = 1/m[i/2];
	mat K = body3_dpdx(y, m);
	auto r = [&](int i, int j) { return std::hypot(y(2*i) - y(2*j), y(2*i + 1) - y(2*j + 1)); };
	K(3, 3) += m[0]*m[1]/std::pow(r(0, 1), 3) - m[0]*m[1]/std::pow(r(0, 2), 3);
	K(5, 1) += m[0]*m[2]/std::pow(r(0, 2), 2) - m[0]*m[2]/std::pow(r(0, 2), 3); K(1, 5) = K(5, 1);
	J.submat(6, 6, 11, 11) = K;
	return -J;
}

static Eq make(int id, const std::vector<double> &p)
{
	Eq e; e.name = NAMES[id]; e.p = p;
	switch (id) {
	case EXPO: { auto *q = new te::exponential(p[0]); e.f.reset(q); e.sol = [q](double t) { return q->sol(t); }; e.def = [p](const vec &y) { return vec{p[0]*y(0)}; }; e.lip = std::fabs(p[0]); break; }
	case HARMO: { auto *q = new te::harmonic(p[0]); e.f.reset(q); e.sol = [q](double t) { return q->sol(t); }; e.def = [p](const vec &y) { return vec{p[0]*y(1), -p[0]*y(0)}; }; e.lip = std::fabs(p[0]); break; }
	case VDPOL: e.f.reset(new te::vdpol(p[0])); e.def = [p](const vec &y) { return vec{y(1), ((1 - y(0)*y(0))*y(1) - y(0))/p[0]}; }; break;
	case BRUSS: e.f.reset(new te::bruss(p[0], p[1])); e.def = [p](const vec &y) { double r = y(0)*y(0)*y(1); return vec{p[0] + r - (p[1] + 1)*y(0), p[1]*y(0) - r}; }; break;
	case ROBERT: e.f.reset(new te::rober); e.def = [](const vec &y) { double a = 0.04*y(0), b = 1e4*y(1)*y(2), c = 3e7*y(1)*y(1); return vec{b - a, a - b - c, c}; }; break;
	case DIMER: e.f.reset(new te::dimer(p[0])); e.def = [p](const vec &y) { double a = p[0]*y(0)*y(0) - y(1)/p[0]; return vec{-2*a, a}; }; break;
	case STIFF: { auto *q = new te::stiff_eq; e.f.reset(q); e.sol = [q](double t) { return q->sol(t); }; e.def = [](const vec &y) { return vec{y(1), -1000*y(0) - 1001*y(1)}; }; e.lip = 1000; break; }
	case BODY3: e.f.reset(new te::three_body(p[0], p[1], p[2])); e.def = [p](const vec &y) { return body3(y, p.data(), false); }; break;
	case KIN4: e.f.reset(new te::kinetic_4(p[0], p[1], p[2])); e.def = [p](const vec &y) {
		double a = y(0)*y(0) - p[0]*y(1), b = y(0)*y(1) - p[1]*y(2), c = y(0)*y(2) - p[2]*y(3); return vec{-2*a - b - c, a - b, b - c, c}; }; break;
	case LORENZ: e.f.reset(new te::lorenz(p[0], p[1], p[2])); e.def = [p](const vec &y) { return vec{p[0]*(y(1) - y(0)), y(0)*(p[1] - y(2)) - y(1), y(0)*y(1) - p[2]*y(2)}; }; break;
	}
	return e;
}

static void body(Run &r)
{
	bool th = r.eng->thorough();
	int id = r.cfg(N_EQ), mode = r.cfg(3);
	std::vector<double> p; for (int i = 0; i < NPAR[id]; ++i) {
		double v = PV[r.cfg(id == BODY3 ? 3 : 5)];
		if (id == BODY3) v = std::fabs(v);             // masses
		if (id == STIFF) v = 1;
		p.push_back(v);
	}
	Eq e = make(id, p);
	std::string ps; for (double v : p) ps += fmt(" %g", v);
	if (mode == 2) {           // known solutions, invariants of the flow, helpers
		int k = r.cfg(40); double t = 0.05*k;
		r.desc = fmt("%s (%s), t = %g", NAMES[id], ps.c_str(), t); r.begin();
		r.eng->state(hs(1, r.desc)); r.eng->transitions++; r.eng->validated++;
		if (e.sol) {
			double h = 1e-2/std::max(1.0, e.lip); vec y = e.sol(t);
			vec d = (45*(e.sol(t + h) - e.sol(t - h)) - 9*(e.sol(t + 2*h) - e.sol(t - 2*h)) + (e.sol(t + 3*h) - e.sol(t - 3*h)))/(60*h);
			vec f = e.f->fun(t, y); double sc = 1 + arma::norm(y, "inf");
			for (std::size_t i = 0; i < f.n_elem; ++i) near(std::string("solution-") + NAMES[id], d(i), f(i), 1e-7*sc*(1 + e.lip)*(1 + e.lip), r.desc + fmt(", component %zu", i));
			if (k == 0) {
				vec y0 = id == EXPO ? vec{1} : id == HARMO ? vec{0, 1} : vec{1, 0};
				for (std::size_t i = 0; i < y.n_elem; ++i) near(std::string("solution-start-") + NAMES[id], y(i), y0(i), 1e-14, r.desc);
			}
		}
		if (id == BODY3) {
			te::three_body b; b.set_m1(p[0] + k); b.set_m2(p[1]*2 + k); b.set_m3(p[2] + 0.1*k);
			if (b.m1 != p[0] + k || b.m2 != p[1]*2 + k || b.m3 != p[2] + 0.1*k) fail("set-mass", r.desc);
			near("mass-ratio", b.m1r, b.m1/b.m3, 1e-15*b.m1r, r.desc); near("mass-ratio", b.m2r, b.m2/b.m3, 1e-15*b.m2r, r.desc);
			te::three_body c(p[0], p[1], p[2]); near("mass-ratio", c.m1r, p[0]/p[2], 1e-15*c.m1r, r.desc); near("mass-ratio", c.m2r, p[1]/p[2], 1e-15*c.m2r, r.desc);
		}
		// default constructors
		if (te::exponential().l != 1 || te::vdpol().mu != 0.5 || te::bruss().a != 1 || te::bruss().b != 2.5 || te::lorenz().s != 10 || te::lorenz().r != 28 || te::lorenz().b != 8.0/3.0) fail("default-parameters", r.desc);
		return;
	}
	// a state
	int n = DIM[id]; vec y(n);
	std::vector<double> yv = {0.0, 1.0, -0.5, 2.5, 1e-3}; if (th) { yv.push_back(-3.0); yv.push_back(40.0); }
	if (id == BODY3) {
		int k = r.cfg(th ? 400 : 40);                 // points of a lattice: well separated bodies
		static const double base[] = {0.9, -0.2, -1.1, 0.3, 0.4, 1.5, 0.1, -0.7, 0.6, 0.2, -0.9, 0.35};
		for (int i = 0; i < 12; ++i) y(i) = base[i] + 0.02*((k*(i + 3)*(i + 3)) % 19 - 9);
	} else for (int i = 0; i < n; ++i) y(i) = yv[r.cfg((int)yv.size())];
	double t = mode == 0 ? 0.0 : -2.5;
	r.desc = fmt("%s (%s), t = %g, y = %s", NAMES[id], ps.c_str(), t, vs(y).c_str()); r.begin();
	r.eng->state(hs(2, r.desc)); r.eng->transitions++; r.eng->validated++;
	vec y0 = y;
	vec f = e.f->fun(t, y); mat J = e.f->jac(t, y);
	if (arma::any(y != y0)) fail("argument", r.desc);
	if (f.n_elem != (std::size_t)n || J.n_rows != (std::size_t)n || J.n_cols != (std::size_t)n) fail("dimension", r.desc);
	// functor::compute
	mat Jc(n, n); Jc.fill(7); vec fc = e.f->compute(t, y, Jc, false);
	if (arma::any(fc != f)) fail("compute", r.desc); for (double x : Jc) if (x != 7) fail("compute-jac", r.desc + ": the Jacobi matrix was changed");
	fc = e.f->compute(t, y, Jc, true); if (arma::any(fc != f) || arma::any(arma::vectorise(Jc) != arma::vectorise(J))) fail("compute", r.desc);
	// definition
	vec d = e.def(y); double mag = 0;
	auto scale = [&](int i) { (void)i; double s = 0; for (double x : y) s = std::max(s, std::fabs(x)); s = 1 + s; double q = 1; for (double v : p) q *= (1 + std::fabs(v) + (v ? 1/std::fabs(v) : 0)); return s*s*s*q; };
	mag = scale(0); if (id == ROBERT) mag *= 3e7; if (id == STIFF) mag *= 1e3; if (id == BODY3) mag *= 10;
	bool known9 = false;
	for (int i = 0; i < n; ++i) if (!(std::fabs(f(i) - d(i)) <= 1e-13*mag)) {
		if (id == BODY3 && i == 9 && std::fabs(f(9) - body3(y, p.data(), true)(9)) <= 1e-13*mag) { known9 = true; continue; }
		fail(fmt("definition-%s-%d", NAMES[id], i), r.desc + fmt(": component %d is %.17g instead of %.17g", i, f(i), d(i)));
	}
	// invariants of the definition
	if (id == DIMER) near("mass-dimer", f(0) + 2*f(1), 0, 1e-13*mag, r.desc);
	if (id == ROBERT) near("mass-rober", f(0) + f(1) + f(2), 0, 1e-13*mag, r.desc);
	if (id == KIN4) near("mass-kinetic_4", f(0) + 2*f(1) + 3*f(2) + 4*f(3), 0, 1e-12*mag, r.desc);
	if (id == HARMO) near("energy-harmonic", y(0)*f(0) + y(1)*f(1), 0, 1e-13*mag, r.desc);
	if (id == BODY3) {
		te::three_body b(p[0], p[1], p[2]);
		double T = 0; for (int i = 0; i < 6; ++i) T += 0.5*y(6 + i)*y(6 + i)/p[i/2];
		double V = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) V -= p[i]*p[j]/std::hypot(y(2*i) - y(2*j), y(2*i + 1) - y(2*j + 1));
		near("potential-three_body", b.pot_energy(y), V, 1e-13*mag, r.desc);
		if (mode == 1) {
			double T1 = 0; for (int i = 0; i < 6; ++i) T1 += 0.5*y(6 + i)*y(6 + i);
			double k = b.kin_energy(y);
			if (std::fabs(k - T) > 1e-13*mag) fail(std::fabs(k - T1) <= 1e-13*mag ? "kinetic-three_body-without-masses" : "kinetic-three_body", r.desc + fmt(": kinetic energy %.17g instead of %.17g", k, T));
		}
	}
	// Jacobi matrix: six-point differences, exact for polynomials up to degree six
	auto jacobian = [&]() {
		mat D(n, n);
		for (int j = 0; j < n; ++j) {
			double h = id == BODY3 ? 2e-3 : 0.125*(1 + std::fabs(y(j)));
			auto at = [&](int k) { vec z = y; z(j) += k*h; return id == BODY3 ? body3(z, p.data(), known9) : e.f->fun(t, z); };
			D.col(j) = (45*(at(1) - at(-1)) - 9*(at(2) - at(-2)) + (at(3) - at(-3)))/(60*h);
		}
		return D;
	};
	mat D = jacobian(); if (id == BODY3) D = body3_jac(y, p.data());
	double jt = id == BODY3 ? 1e-11*mag : 2e-11*mag;
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!(std::fabs(J(i, j) - D(i, j)) <= jt)) {
		if (id == BODY3 && mode == 0) {
			mat K = body3_jac_known(y, p.data()); bool same = true;
			for (int a = 0; a < 144; ++a) if (!(std::fabs(J(a) - K(a)) <= jt)) same = false;
			if (same) fail("jacobian-three_body-layout", r.desc + fmt(": entry %d %d is %.17g instead of %.17g", i, j, J(i, j), D(i, j)));
		} else if (id == BODY3) break;          // once is enough
		fail(fmt("jacobian-%s-%d-%d", NAMES[id], i, j), r.desc + fmt(": entry %d %d is %.17g instead of %.17g", i, j, J(i, j), D(i, j)));
	}
	if (known9 && mode == 1 && p[0] == p[1]) fail("definition-three_body-9-x-for-y", r.desc + fmt(": component 9 is %.17g instead of %.17g", f(9), d(9)));
	if (id == LORENZ) near("divergence-lorenz", J(0, 0) + J(1, 1) + J(2, 2), -(p[0] + 1 + p[2]), 1e-12*mag, r.desc);
}
int main(int argc, char **argv) { return main_(argc, argv, body); }
