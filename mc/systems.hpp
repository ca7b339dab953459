// Nonlinear systems for the root finders: pure functions with exact Jacobi
// matrices, logged calls, and a hook that can replace an answer.
#ifndef SYSTEMS_HPP
#define SYSTEMS_HPP
#include "problems.hpp"

struct Sys {
	typedef arma::mat jac_type;
	const char *name = "";
	std::vector<arma::vec> starts, roots;
	bool linear = false, regular = true;    // regular: nonsingular Jacobi matrix at the roots
	bool near_identity = false;             // for Broyden, which starts from the unit matrix
	std::function<arma::vec(const arma::vec &)> f;
	std::function<arma::mat(const arma::vec &)> J;

	long calls = 0, fun_calls = 0, jac_calls = 0, horizon = 100000;
	std::vector<Call> log;
	std::function<void(long, bool, arma::vec *, arma::mat *)> hook;
	arma::vec fun(const arma::vec &x)
	{
		++fun_calls; if (++calls > horizon) throw mc::Horizon{horizon};
		arma::vec r = f(x);
		if (hook) hook(calls - 1, false, &r, nullptr);
		log.push_back(Call{false, 0, x, r});
		return r;
	}
	arma::mat jac(const arma::vec &x)
	{
		++jac_calls; if (++calls > horizon) throw mc::Horizon{horizon};
		arma::mat r = J(x);
		if (hook) hook(calls - 1, true, nullptr, &r);
		log.push_back(Call{true, 0, x, arma::vectorise(r)});
		return r;
	}
};

enum { N_SYS = 19 };
inline Sys make_sys(int id)
{
	using arma::vec; using arma::mat;
	Sys s;
	switch (id) {
	case 0: s.name = "3x-6"; s.linear = true; s.starts = {vec{0.0}, vec{2.0}, vec{-1e3}}; s.roots = {vec{2.0}};
		s.f = [](const vec &x) { return vec{3*x(0) - 6}; }; s.J = [](const vec &) { return mat{3.0}; }; break;
	case 1: s.name = "3D linear"; s.linear = true; s.starts = {vec{0, 0, 0}, vec{5, -7, 11}}; s.roots = {vec{1, 2, -3}};
		s.f = [](const vec &x) { mat A = {{4, 1, -2}, {0.5, 3, 1}, {-1, 2, 6}}; return vec(A*(x - vec{1, 2, -3})); };
		s.J = [](const vec &) { return mat{{4, 1, -2}, {0.5, 3, 1}, {-1, 2, 6}}; }; break;
	case 2: s.name = "2D linear, badly scaled"; s.linear = true; s.starts = {vec{0, 0}, vec{1, 1}}; s.roots = {vec{2, 1e-3}};
		s.f = [](const vec &x) { return vec{1e-3*(x(0) - 2) + (x(1) - 1e-3), 5e2*(x(1) - 1e-3)}; };
		s.J = [](const vec &) { return mat{{1e-3, 1}, {0, 5e2}}; }; break;
	case 3: s.name = "x^2-2"; s.starts = {vec{1.4}, vec{5.0}, vec{-0.3}, vec{0.0}}; s.roots = {vec{M_SQRT2}, vec{-M_SQRT2}};
		s.f = [](const vec &x) { return vec{x(0)*x(0) - 2}; }; s.J = [](const vec &x) { return mat{2*x(0)}; }; break;
	case 4: s.name = "x^3-2x+2"; s.starts = {vec{0.0}, vec{1.0}, vec{-1.7}, vec{2.0}}; s.roots = {vec{-1.7692923542386314}};
		s.f = [](const vec &x) { return vec{x(0)*x(0)*x(0) - 2*x(0) + 2}; }; s.J = [](const vec &x) { return mat{3*x(0)*x(0) - 2}; }; break;
	case 5: s.name = "x^2+1"; s.starts = {vec{0.7}, vec{1.0}, vec{30.0}};
		s.f = [](const vec &x) { return vec{x(0)*x(0) + 1}; }; s.J = [](const vec &x) { return mat{2*x(0)}; }; break;
	case 6: s.name = "atan(x)"; s.starts = {vec{0.01}, vec{1.0}, vec{2.0}}; s.roots = {vec{0.0}}; s.near_identity = true;
		s.f = [](const vec &x) { return vec{std::atan(x(0))}; }; s.J = [](const vec &x) { return mat{1/(1 + x(0)*x(0))}; }; break;
	case 7: s.name = "exp(x)"; s.starts = {vec{0.0}, vec{3.0}};
		s.f = [](const vec &x) { return vec{std::exp(x(0))}; }; s.J = [](const vec &x) { return mat{std::exp(x(0))}; }; break;
	case 8: s.name = "circle and line"; s.starts = {vec{0.6, 0.8}, vec{3, -1}, vec{0, 0}}; s.roots = {vec{0.6, 0.8}, vec{-0.8, -0.6}};
		s.f = [](const vec &x) { return vec{x(0)*x(0) + x(1)*x(1) - 1, x(1) - x(0) - 0.2}; };
		s.J = [](const vec &x) { return mat{{2*x(0), 2*x(1)}, {-1, 1}}; }; break;
	case 9: s.name = "Rosenbrock"; s.starts = {vec{1.01, 1.0}, vec{-1.2, 1}}; s.roots = {vec{1, 1}};
		s.f = [](const vec &x) { return vec{10*(x(1) - x(0)*x(0)), 1 - x(0)}; };
		s.J = [](const vec &x) { return mat{{-20*x(0), 10}, {-1, 0}}; }; break;
	case 10: s.name = "x^2 (double root)"; s.regular = false; s.starts = {vec{1.0}, vec{-0.1}}; s.roots = {vec{0.0}};
		s.f = [](const vec &x) { return vec{x(0)*x(0)}; }; s.J = [](const vec &x) { return mat{2*x(0)}; }; break;
	case 11: s.name = "constant 1"; s.starts = {vec{0.0}, vec{2.0}};
		s.f = [](const vec &) { return vec{1.0}; }; s.J = [](const vec &) { return mat(1, 1, arma::fill::zeros); }; break;
	case 12: s.name = "sqrt(x)-0.1"; s.starts = {vec{0.0099}, vec{0.04}, vec{1.0}}; s.roots = {vec{0.01}};
		s.f = [](const vec &x) { return vec{std::sqrt(x(0)) - 0.1}; }; s.J = [](const vec &x) { return mat{0.5/std::sqrt(x(0))}; }; break;
	case 13: s.name = "tridiagonal 5D"; s.starts = {vec(5, arma::fill::value(-1.0)), vec(5, arma::fill::zeros)};
		s.f = [](const vec &x) { vec r(5); for (int i = 0; i < 5; ++i) r(i) = (3 - 2*x(i))*x(i) - (i ? x(i - 1) : 0) - (i < 4 ? 2*x(i + 1) : 0) + 1; return r; };
		s.J = [](const vec &x) { mat A(5, 5, arma::fill::zeros); for (int i = 0; i < 5; ++i) { A(i, i) = 3 - 4*x(i); if (i) A(i, i - 1) = -1; if (i < 4) A(i, i + 1) = -2; } return A; }; break;
	case 14: s.name = "weak coupling 3D"; s.near_identity = true; s.starts = {vec{0, 0, 0}, vec{1, -1, 0.5}, vec{2, 2, 2}};
		s.f = [](const vec &x) { return vec{x(0) - 0.5 + 0.1*std::sin(x(1)), x(1) + 0.3 + 0.1*x(0)*x(2)/(1 + x(2)*x(2)), x(2) - 0.2*std::cos(x(0))}; };
		s.J = [](const vec &x) { double q = 1 + x(2)*x(2); return mat{{1, 0.1*std::cos(x(1)), 0}, {0.1*x(2)/q, 1, 0.1*x(0)*(1 - x(2)*x(2))/(q*q)}, {0.2*std::sin(x(0)), 0, 1}}; }; break;
	case 15: s.name = "1.5x-0.3 and 0.7y+0.2 coupled"; s.near_identity = true; s.starts = {vec{0, 0}, vec{1, -2}, vec{0.5, 0.5}};
		s.f = [](const vec &x) { return vec{1.5*x(0) - 0.3 + 0.2*x(1), 0.7*x(1) + 0.2 - 0.1*x(0) + 0.05*x(1)*x(1)}; };
		s.J = [](const vec &x) { return mat{{1.5, 0.2}, {-0.1, 0.7 + 0.1*x(1)}}; }; break;
	case 16: s.name = "swap"; s.linear = true; s.starts = {vec{0, 0}, vec{3, 4}}; s.roots = {vec{1, 2}};   // zero diagonal
		s.f = [](const vec &x) { return vec{x(1) - 2, 2*x(0) - 2}; }; s.J = [](const vec &) { return mat{{0, 1}, {2, 0}}; }; break;
	case 17: s.name = "tridiagonal 20D"; s.starts = {vec(20, arma::fill::value(-1.0)), vec(20, arma::fill::zeros)};
		s.f = [](const vec &x) { const int n = 20; vec r(n); for (int i = 0; i < n; ++i) r(i) = (3 - 2*x(i))*x(i) - (i ? x(i - 1) : 0) - (i < n - 1 ? 2*x(i + 1) : 0) + 1; return r; };
		s.J = [](const vec &x) { const int n = 20; mat A(n, n, arma::fill::zeros); for (int i = 0; i < n; ++i) { A(i, i) = 3 - 4*x(i); if (i) A(i, i - 1) = -1; if (i < n - 1) A(i, i + 1) = -2; } return A; }; break;
	case 18: s.name = "weak coupling 18D"; s.near_identity = true; s.starts = {vec(18, arma::fill::zeros), vec(18, arma::fill::value(0.7))};
		s.f = [](const vec &x) { const int n = 18; vec r(n); for (int i = 0; i < n; ++i) r(i) = x(i) - 0.05*i + 0.1*std::sin(x((i + 5) % n) + 0.2*i); return r; };
		s.J = [](const vec &x) { const int n = 18; mat A(n, n, arma::fill::zeros); for (int i = 0; i < n; ++i) { A(i, i) = 1; A(i, (i + 5) % n) += 0.1*std::cos(x((i + 5) % n) + 0.2*i); } return A; }; break;
	}
	return s;
}
// What a root finder prints: number, limit and point of each iteration, or
// nothing of the kind if it is to be quiet.
struct Printed {
	std::ostringstream text; std::streambuf *a, *b;
	Printed() : a(std::cout.rdbuf(text.rdbuf())), b(std::cerr.rdbuf(text.rdbuf())) {}
	~Printed() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
inline void check_printed(const std::string &text, bool quiet, int first, int maxit, const std::vector<arma::vec> &xs, const std::string &d)
{
	const std::string lim = mc::fmt("/%d ", maxit);
	if (quiet) { if (text.find("x :") != std::string::npos) mc::fail("printed", d + ": is to be quiet, but printed " + text.substr(0, 200)); return; }
	std::size_t pos = 0;
	for (std::size_t k = 0; k + 1 < xs.size(); ++k) {
		std::size_t q = text.find(mc::fmt(" %d", first + (int)k) + lim, pos);
		std::size_t x = q == std::string::npos ? q : text.find("x : (", q);
		if (x == std::string::npos) mc::fail("printed", d + mc::fmt(": no report of iteration %d", first + (int)k));
		pos = x + 5;
		const char *c = text.c_str() + pos; char *e;
		for (double want : xs[k]) {
			double got = std::strtod(c, &e);
			if (e == c) mc::fail("printed", d + mc::fmt(": no point in the report of iteration %d", first + (int)k));
			if (std::isfinite(want) ? !(std::fabs(got - want) <= 1e-5*std::fabs(want)) : std::isfinite(got)) mc::fail("printed", d + mc::fmt(": iteration %d reports %g instead of %g", first + (int)k, got, want));
			c = e;
		}
	}
}
#endif
