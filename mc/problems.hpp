// The environment: right-hand sides the integrators are run on.  Every problem
// is a pure function of (t, y), has an exact Jacobi matrix, counts and logs its
// calls, and lets a hook replace an answer or give up.
#ifndef PROBLEMS_HPP
#define PROBLEMS_HPP
#include "mc.hpp"
#include "rehuel.hpp"
#include "functor.hpp"

struct Call { bool jac; double t; arma::vec y, r; };

struct Prob : public functor {
	typedef arma::mat jac_type;
	const char *name;
	arma::vec y0;
	double lip = 1;                 // rough size of the Jacobi matrix
	bool autonomous = true, stiff = false, smooth = true;
	std::function<arma::vec(double, const arma::vec &)> f;
	std::function<arma::mat(double, const arma::vec &)> J;
	std::function<arma::vec(double, double)> exact;   // (t, t0), may be empty

	long fun_calls = 0, jac_calls = 0, horizon = 200000;
	bool keep_log = false;
	bool odd = false;               // some answer was not finite, or huge
	std::vector<Call> log;
	// hook(call index among fun+jac, is_jac, t, y, answer to change)
	std::function<void(long, bool, double, const arma::vec &, arma::vec *, arma::mat *)> hook;

	arma::vec fun(double t, const arma::vec &y) override
	{
		++fun_calls;
		if (fun_calls + jac_calls > horizon) throw mc::Horizon{horizon};
		arma::vec r = f(t, y);
		if (hook) hook(fun_calls + jac_calls - 1, false, t, y, &r, nullptr);
		if (!r.is_finite() || arma::abs(r).max() > 1e100) odd = true;
		if (keep_log) log.push_back(Call{false, t, y, r});
		return r;
	}
	arma::mat jac(double t, const arma::vec &y) override
	{
		++jac_calls;
		if (fun_calls + jac_calls > horizon) throw mc::Horizon{horizon};
		arma::mat r = J(t, y);
		if (hook) hook(fun_calls + jac_calls - 1, true, t, y, nullptr, &r);
		if (!r.is_finite() || arma::abs(r).max() > 1e100) odd = true;
		if (keep_log) log.push_back(Call{true, t, y, arma::vectorise(r)});
		return r;
	}
};

// for integrators that copy the functor
// Users also pass a functor by a reference to its base class; then a copy of
// it would be another functor, one that knows no answer.
struct RefBase : public functor {
	typedef arma::mat jac_type;
	arma::vec fun(double, const arma::vec &y) override { return y*std::nan(""); }
	arma::mat jac(double, const arma::vec &y) override { return arma::mat(y.n_elem, y.n_elem, arma::fill::eye)*std::nan(""); }
};
struct Ref : public RefBase {
	Prob *p;
	explicit Ref(Prob &q) : p(&q) {}
	arma::vec fun(double t, const arma::vec &y) override { return p->fun(t, y); }
	arma::mat jac(double t, const arma::vec &y) override { return p->jac(t, y); }
};

enum ProbId { DECAY, HARM, RAMP, LOGISTIC, VDP, STIFF2, CHAIN3, QUAD4, ZERO, CONST2, PULSE, ROBER,
              RICCATI, PRINCE4, OSC5, KICK, WALL, ROOT, RING19, SIZES3, OVERFLOW2, N_PROB };

// `a`,`b`: parameters of PULSE (centre, amplitude)
inline Prob make_prob(int id, double a = 0, double b = 0)
{
	using arma::vec; using arma::mat;
	Prob p;
	switch (id) {
	case DECAY:
		p.name = "y'=-y"; p.y0 = vec{1.0};
		p.f = [](double, const vec &y) { return vec(-y); };
		p.J = [](double, const vec &) { return mat{-1.0}; };
		p.exact = [](double t, double t0) { return vec{std::exp(-(t - t0))}; };
		break;
	case HARM:
		p.name = "harmonic"; p.y0 = vec{0.3, 1.1}; p.lip = 2;
		p.f = [](double, const vec &y) { return vec{2*y(1), -2*y(0)}; };
		p.J = [](double, const vec &) { return mat{{0, 2}, {-2, 0}}; };
		p.exact = [](double t, double t0) { double s = 2*(t - t0); return vec{0.3*std::cos(s) + 1.1*std::sin(s), 1.1*std::cos(s) - 0.3*std::sin(s)}; };
		break;
	case RAMP:   // explicit time dependence
		p.name = "y'=-2y+sin(3t)"; p.y0 = vec{0.7}; p.lip = 2; p.autonomous = false;
		p.f = [](double t, const vec &y) { return vec{-2*y(0) + std::sin(3*t)}; };
		p.J = [](double, const vec &) { return mat{-2.0}; };
		p.exact = [](double t, double t0) {
			auto part = [](double s) { return (2*std::sin(3*s) - 3*std::cos(3*s))/13.0; };
			return vec{part(t) + (0.7 - part(t0))*std::exp(-2*(t - t0))}; };
		break;
	case LOGISTIC:
		p.name = "logistic"; p.y0 = vec{0.1}; p.lip = 1;
		p.f = [](double, const vec &y) { return vec{y(0)*(1 - y(0))}; };
		p.J = [](double, const vec &y) { return mat{1 - 2*y(0)}; };
		p.exact = [](double t, double t0) { return vec{1.0/(1.0 + 9.0*std::exp(-(t - t0)))}; };
		break;
	case VDP:
		p.name = "van der Pol mu=1"; p.y0 = vec{2.0, 0.0}; p.lip = 10;
		p.f = [](double, const vec &y) { return vec{y(1), (1 - y(0)*y(0))*y(1) - y(0)}; };
		p.J = [](double, const vec &y) { return mat{{0, 1}, {-2*y(0)*y(1) - 1, 1 - y(0)*y(0)}}; };
		break;
	case STIFF2:
		p.name = "stiff -1,-1000"; p.y0 = vec{1.0, 0.5}; p.lip = 1000; p.stiff = true;
		p.f = [](double, const vec &y) { return vec{y(1), -1000*y(0) - 1001*y(1)}; };
		p.J = [](double, const vec &) { return mat{{0, 1}, {-1000, -1001}}; };
		p.exact = [](double t, double t0) { double s = t - t0;
			// y = A e^{-s} + B e^{-1000 s}; A + B = 1, -A - 1000 B = 0.5
			double B = -1.5/999.0, A = 1 - B; double e1 = std::exp(-s), e2 = std::exp(-1000*s);
			return vec{A*e1 + B*e2, -A*e1 - 1000*B*e2}; };
		break;
	case CHAIN3: // non-autonomous, nonlinear, every component different
		p.name = "3D nonlinear non-autonomous"; p.y0 = vec{1.0, -0.5, 2.0}; p.lip = 4; p.autonomous = false;
		p.f = [](double t, const vec &y) { return vec{-0.7*y(0) + 0.3*y(1)*y(2) + std::cos(t), y(0) - 1.1*y(1) + 0.1*t*y(2)/(1+t*t), -0.4*y(2) - 0.2*y(0)*y(0) + 0.5*std::sin(2*t)}; };
		p.J = [](double t, const vec &y) { return mat{{-0.7, 0.3*y(2), 0.3*y(1)}, {1, -1.1, 0.1*t/(1+t*t)}, {-0.4*y(0), 0, -0.4}}; };
		break;
	case QUAD4: // pure quadrature
		p.name = "y'=4t^3-2t"; p.y0 = vec{0.25}; p.autonomous = false; p.lip = 1;
		p.f = [](double t, const vec &) { return vec{4*t*t*t - 2*t}; };
		p.J = [](double, const vec &) { return mat{0.0}; };
		p.exact = [](double t, double t0) { return vec{0.25 + (t*t*t*t - t*t) - (t0*t0*t0*t0 - t0*t0)}; };
		break;
	case ZERO:
		p.name = "y'=0"; p.y0 = vec{3.0, -4.0}; p.lip = 0;
		p.f = [](double, const vec &y) { return vec(arma::zeros(y.size())); };
		p.J = [](double, const vec &y) { return mat(arma::zeros(y.size(), y.size())); };
		p.exact = [](double, double) { return vec{3.0, -4.0}; };
		break;
	case CONST2:
		p.name = "y'=const"; p.y0 = vec{0.0, 10.0}; p.lip = 0;
		p.f = [](double, const vec &) { return vec{1.5, -2.0}; };
		p.J = [](double, const vec &) { return mat(2, 2, arma::fill::zeros); };
		p.exact = [](double t, double t0) { return vec{1.5*(t - t0), 10 - 2*(t - t0)}; };
		break;
	case PULSE: // a narrow pulse at a, height b: forces rejections there
		p.name = "pulse"; p.y0 = vec{1.0, 0.0}; p.lip = 3; p.autonomous = false;
		p.f = [a, b](double t, const vec &y) { double s = (t - a)/0.05; double g = b*std::exp(-s*s);
			return vec{-y(0) + g, 0.5*y(0) - y(1) - 0.3*g}; };
		p.J = [](double, const vec &) { return mat{{-1, 0}, {0.5, -1}}; };
		break;
	case ROBER:
		p.name = "Robertson"; p.y0 = vec{1, 0, 0}; p.lip = 1e4; p.stiff = true;
		p.f = [](double, const vec &y) { double r1 = 0.04*y(0), r2 = 1e4*y(1)*y(2), r3 = 3e7*y(1)*y(1);
			return vec{-r1 + r2, r1 - r2 - r3, r3}; };
		p.J = [](double, const vec &y) { return mat{{-0.04, 1e4*y(2), 1e4*y(1)}, {0.04, -1e4*y(2) - 6e7*y(1), -1e4*y(1)}, {0, 6e7*y(1), 0}}; };
		break;
	case RICCATI: // blows up at t0 + 1
		p.name = "y'=y^2"; p.y0 = vec{1.0}; p.lip = 2;
		p.f = [](double, const vec &y) { return vec{y(0)*y(0)}; };
		p.J = [](double, const vec &y) { return mat{2*y(0)}; };
		p.exact = [](double t, double t0) { return vec{1.0/(1.0 - (t - t0))}; };
		break;
	case PRINCE4: // components of very different size
		p.name = "scales 1e6,1,1e-6,1e3"; p.y0 = vec{1e6, 1, 1e-6, -1e3}; p.lip = 3;
		p.f = [](double, const vec &y) { return vec{-0.5*y(0) + 1e3*y(1), -y(1) + 1e-6*y(0), 1e-6*y(1) - 2*y(2), 3*y(3)*(-1 - y(3)*1e-3)}; };
		p.J = [](double, const vec &y) { return mat{{-0.5, 1e3, 0, 0}, {1e-6, -1, 0, 0}, {0, 1e-6, -2, 0}, {0, 0, 0, -3 - 6e-3*y(3)}}; };
		break;
	case OSC5: {
		p.name = "5D ring"; p.y0 = vec{1, 0, -1, 0.5, 0.25}; p.lip = 4;
		p.f = [](double, const vec &y) { vec r(5); for (int i = 0; i < 5; ++i) { double n = y((i + 1) % 5), m = y((i + 4) % 5); r(i) = (i + 1)*0.3*(n - m) - 0.1*y(i)*y(i)*y(i); } return r; };
		p.J = [](double, const vec &y) { mat A(5, 5, arma::fill::zeros); for (int i = 0; i < 5; ++i) { A(i, (i + 1) % 5) += (i + 1)*0.3; A(i, (i + 4) % 5) -= (i + 1)*0.3; A(i, i) -= 0.3*y(i)*y(i); } return A; };
		break; }
	case RING19: { // more components than any small-size optimisation holds
		const int n = 19; p.name = "19D ring, non-autonomous"; p.lip = 4; p.autonomous = false;
		p.y0 = vec(n); for (int i = 0; i < n; ++i) p.y0(i) = 0.1*(i*7 % n) - 0.8;
		p.f = [n](double t, const vec &y) { vec r(n); for (int i = 0; i < n; ++i) { double a = y((i + 1) % n), b = y((i + n - 2) % n); r(i) = (0.4 + 0.07*i)*(a - b) - 0.2*y(i)*(1 + 0.5*y(i)*y(i)) + 0.3*std::cos(t + i); } return r; };
		p.J = [n](double, const vec &y) { mat A(n, n, arma::fill::zeros); for (int i = 0; i < n; ++i) { A(i, (i + 1) % n) += 0.4 + 0.07*i; A(i, (i + n - 2) % n) -= 0.4 + 0.07*i; A(i, i) -= 0.2 + 0.3*y(i)*y(i); } return A; };
		break; }
	case WALL: // undefined from t = a on
		p.name = "undefined from a time on"; p.y0 = vec{1.0, 2.0}; p.lip = 2; p.autonomous = false; p.smooth = false;
		p.f = [a](double t, const vec &y) { if (t >= a) return vec{NAN, NAN}; return vec{-y(0), y(0) - 2*y(1)}; };
		p.J = [](double, const vec &) { return mat{{-1, 0}, {1, -2}}; };
		break;
	case ROOT: // undefined for y < 0, where the solution is heading
		p.name = "y'=-sqrt(y)"; p.y0 = vec{0.25}; p.lip = 10; p.smooth = false;
		p.f = [](double, const vec &y) { return vec{-std::sqrt(y(0))}; };
		p.J = [](double, const vec &y) { return mat{-0.5/std::sqrt(y(0))}; };
		break;
	case SIZES3: // tiny and huge numbers
		p.name = "sizes 1e-19, 3e4, 1e-7"; p.y0 = vec{1e-19, -3e4, 1e-7}; p.lip = 2;
		p.f = [](double, const vec &y) { return vec{-y(0), -2*y(1), 0.5*y(2)}; };
		p.J = [](double, const vec &) { return mat{{-1, 0, 0}, {0, -2, 0}, {0, 0, 0.5}}; };
		break;
	case OVERFLOW2: // leaves the range of double at t0 + 0.74
		p.name = "overflowing"; p.y0 = vec{1.5e308, 1.0}; p.lip = 1; p.smooth = false;
		p.f = [](double, const vec &) { return vec{4e307, 0.25}; };
		p.J = [](double, const vec &) { return mat(2, 2, arma::fill::zeros); };
		break;
	case KICK: // discontinuous in t at a: rejections right there
		p.name = "kick"; p.y0 = vec{0.5, -0.5, 1.0}; p.lip = 3; p.autonomous = false; p.smooth = false;
		p.f = [a, b](double t, const vec &y) { double g = t >= a && t < a + 0.07 ? b : 0;
			return vec{-y(0) + g, y(2) - 0.2*g, -y(1)}; };
		p.J = [](double, const vec &) { return mat{{-1, 0, 0}, {0, 0, 1}, {0, -1, 0}}; };
		break;
	}
	return p;
}

inline double ninf(const arma::vec &v) { double m = 0; for (double x : v) { if (!(std::fabs(x) <= m)) m = std::fabs(x); } return m; }
inline bool fin(const arma::vec &v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }
inline std::string vs(const arma::vec &v) { std::string s = "("; for (std::size_t i = 0; i < v.size(); ++i) s += mc::fmt(i ? " %.17g" : "%.17g", v(i)); return s + ")"; }

// IRK methods that can integrate (the others are checked by C12)
inline std::vector<int> irk_methods()
{ return {irk::RADAU_IIA_32, irk::RADAU_IIA_53, irk::RADAU_IIA_95, irk::RADAU_IIA_137,
          irk::LOBATTO_IIIC_43, irk::LOBATTO_IIIC_64, irk::LOBATTO_IIIC_85, irk::GAUSS_LEGENDRE_147, irk::IMPLICIT_EULER}; }
inline std::vector<int> erk_methods()
{ return {erk::EXPLICIT_EULER, erk::RUNGE_KUTTA_4, erk::BOGACKI_SHAMPINE_32, erk::CASH_KARP_54, erk::DORMAND_PRINCE_54, erk::FEHLBERG_54}; }
inline bool erk_embedded(int m) { return m != erk::EXPLICIT_EULER && m != erk::RUNGE_KUTTA_4; }
inline bool irk_embedded(int m) { return m != irk::IMPLICIT_EULER; }

inline std::uint64_t hstate(double t, const arma::vec &y)
{ std::uint64_t h = mc::hd(1, t); for (double x : y) h = mc::hd(h, x); return h; }

#endif
