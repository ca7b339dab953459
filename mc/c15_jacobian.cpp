// C15: the approximate Jacobi matrix, and the verification of a given one.
#include "systems.hpp"
using namespace mc;

// f_i(x) = sum_j a_ij g(x_j) + c x_i x_{i+1} + d;  third derivative along x_j known
struct Fam { const char *name; std::function<double(double)> g, g1; std::function<double(double, double)> g3max; };
static std::vector<Fam> fams()
{
	return {
		{"linear", [](double x) { return x; }, [](double) { return 1.0; }, [](double, double) { return 0.0; }},
		{"square", [](double x) { return x*x; }, [](double x) { return 2*x; }, [](double, double) { return 0.0; }},
		{"cube", [](double x) { return x*x*x; }, [](double x) { return 3*x*x; }, [](double, double) { return 6.0; }},
		{"sine", [](double x) { return std::sin(x); }, [](double x) { return std::cos(x); }, [](double, double) { return 1.0; }},
		{"exp", [](double x) { return std::exp(x); }, [](double x) { return std::exp(x); }, [](double x, double h) { return std::exp(x + h); }},
		{"rational", [](double x) { return 1/(1 + x*x); }, [](double x) { return -2*x/((1 + x*x)*(1 + x*x)); }, [](double, double) { return 5.0; }},
	};
}
static double coef(int pat, int i, int j, int n)
{
	switch (pat) {
	case 0: return i == j ? 1 : 0;
	case 1: return 0.5*(i + 1) - 0.3*j + (i == j ? 2 : 0);
	case 2: return (i + j) % 2 ? -1.5*(i + 1) : 0.25*(j + 1);
	case 3: return j == (i + 1) % n ? 100 : 0;          // every column different scale
	default: return std::pow(10.0, j - i);
	}
}
struct W { typedef arma::mat jac_type; Sys *s; int ci = -1, cj = -1; double cv = 0; int mode = 0;
	arma::vec fun(const arma::vec &x) { return s->fun(x); }
	arma::mat jac(const arma::vec &x) { arma::mat J = s->jac(x); if (ci >= 0) { if (mode == 0) J(ci, cj) = cv; else J(ci, cj) += cv; } return J; } };

static void body(Run &r)
{
	bool th = r.eng->thorough();
	auto F = fams();
	int fi = r.cfg(F.size()); const Fam &f = F[fi];
	int n = 1 + r.cfg(th ? 6 : 4), pat = r.cfg(5); double c = r.cfg(2)*0.7;
	std::vector<double> lv = {0, 1, -2.5, 1e-5, 2.3456789, -0.1, 17.25}; if (th) { lv.push_back(3.0); lv.push_back(0.6180339887); lv.push_back(-11.111); }
	arma::vec y(n);
	for (int i = 0; i < n; ++i) y(i) = i < (th ? 3 : 2) ? r.of(lv) : 0.3*i - 0.8;
	std::vector<double> hs = {1e-4, 1e-2, 1e-6}; if (th) { hs.push_back(1e-3); hs.push_back(1e-5); hs.push_back(0.5); hs.push_back(0.1); hs.push_back(1e-8); }
	double h = r.of(hs);
	Sys s; s.name = f.name;
	s.f = [=](const arma::vec &x) { arma::vec q(n); for (int i = 0; i < n; ++i) { q(i) = 0.25; for (int j = 0; j < n; ++j) q(i) += coef(pat, i, j, n)*f.g(x(j)); q(i) += c*x(i)*x((i + 1) % n); } return q; };
	s.J = [=](const arma::vec &x) { arma::mat A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = coef(pat, i, j, n)*f.g1(x(j));
		for (int i = 0; i < n; ++i) { A(i, i) += c*x((i + 1) % n); A(i, (i + 1) % n) += c*x(i); } return A; };
	bool nanpart = h == hs[0] && r.cfg(2);
	r.desc = fmt("%s, %dD, pattern %d, coupling %g, at %s, h=%g", f.name, n, pat, c, vs(y).c_str(), h);
	r.begin();
	bool faulted = false; long at = -1;
	s.hook = [&](long k, bool jac, arma::vec *v, arma::mat *) { if (jac || k > 2*n + 1) return; int d = r.dev(n <= 3 ? 3 : 2); if (d) { faulted = true; at = k; (*v)(d == 1 ? 0 : n - 1) = NAN; } };
	arma::vec y2 = y;
	W w{&s};
	arma::mat A = newton::approx_jacobi_matrix(y2, w, h);
	s.hook = nullptr;
	arma::mat J = s.J(y);
	r.eng->state(hstate(h, y)); r.eng->transitions += s.calls; r.eng->validated++;
	if (std::memcmp(y.memptr(), y2.memptr(), 8*n)) fail("argument", r.desc + ": the point was modified");
	if ((int)A.n_rows != n || (int)A.n_cols != n) fail("size", r.desc);
	for (auto &q : s.log) {
		int moved = 0; for (int i = 0; i < n; ++i) if (q.y(i) != y(i)) { ++moved; if (std::fabs(q.y(i) - y(i)) > h*(1 + 1e-6) + 1e-15*std::fabs(y(i))) fail("point", r.desc + ": evaluated at " + vs(q.y)); }
		if (moved > 1) fail("point", r.desc + ": evaluated at " + vs(q.y));
	}
	int badcols = 0;
	for (int j = 0; j < n; ++j) {
		bool finite = true; for (int i = 0; i < n; ++i) finite &= std::isfinite(A(i, j));
		if (!finite) { ++badcols; if (!faulted) fail("finite", r.desc); continue; }
		for (int i = 0; i < n; ++i) {
			double g3 = std::fabs(coef(pat, i, j, n))*f.g3max(y(j), h);
			double fs = 0.25 + std::fabs(c)*6.25; for (int k = 0; k < n; ++k) fs += std::fabs(coef(pat, i, k, n))*(std::fabs(f.g(y(k))) + std::fabs(f.g(y(k) + h)) + std::fabs(f.g(y(k) - h)) + std::fabs(f.g1(y(k)))*(h + 1e-3) + std::fabs(y(k)));
			double tol = g3*h*h/6*1.01 + 8e-15*fs/h*(1 + std::fabs(y(j)));
			if (!(std::fabs(A(i, j) - J(i, j)) <= tol)) fail("derivative", r.desc + fmt(": entry (%d,%d) is %.17g, the derivative is %.17g, tolerance %g", i, j, A(i, j), J(i, j), tol));
		}
	}
	if (badcols > 1) fail("columns", r.desc + fmt(": a bad answer to call %ld spoils %d columns", at, badcols));
	if (faulted) return;
	// verification
	if (h != hs[0]) return;
	W v{&s};
	// only where the verification's own difference formula is exact to rounding
	bool exact = fi <= 1 && pat <= 2;
	if (exact && !newton::verify_jacobi_matrix(y2, v)) fail("verify-rejects-right", r.desc + ": a correct Jacobi matrix is rejected");
	if (std::memcmp(y.memptr(), y2.memptr(), 8*n)) fail("argument", r.desc + ": the point was modified");
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int m = 0; m < 4; ++m) {
		if ((m == 2) != nanpart) continue;
		W q{&s}; q.ci = i; q.cj = j; q.mode = m < 2; q.cv = m == 0 ? J(i, j) + 1 : m == 1 ? -0.1 : m == 2 ? NAN : -2*J(i, j) - 3;
		if (m == 0 || m >= 2) q.mode = 0;
		r.eng->validated++;
		if (newton::verify_jacobi_matrix(y2, q)) fail(fmt("verify-accepts-wrong-%s", m == 2 ? "nan" : "entry"), r.desc + fmt(": entry (%d,%d) changed to %g is accepted", i, j, q.jac(y)(i, j)));
	}
}
int main(int c, char **v) { return main_(c, v, body, 1, 1); }
