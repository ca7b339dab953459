// C24: the stability program for every method: every point of its grid and of
// its limits against R(z) = det(I - zA + z e b^T)/det(I - zA), in long double.
#include "rk.hpp"
#include "spawn.hpp"
#include <complex>
#include <dirent.h>
#include <algorithm>
using namespace mc;
typedef std::complex<long double> cx;

static cx det(std::vector<std::vector<cx>> m, long double &cond)
{
	cx d = 1; std::size_t n = m.size(); long double lo = 1e300L, hi = 0;
	for (std::size_t k = 0; k < n; ++k) {
		std::size_t p = k; for (std::size_t i = k; i < n; ++i) if (std::abs(m[i][k]) > std::abs(m[p][k])) p = i;
		if (p != k) { std::swap(m[p], m[k]); d = -d; }
		long double a = std::abs(m[k][k]); lo = std::min(lo, a); hi = std::max(hi, a);
		d *= m[k][k]; if (a == 0) { cond = INFINITY; return 0; }
		for (std::size_t i = k + 1; i < n; ++i) { cx f = m[i][k]/m[k][k]; for (std::size_t j = k; j < n; ++j) m[i][j] -= f*m[k][j]; }
	}
	cond = n ? hi/lo : 1;
	return d;
}
struct Val { double v; double slack; bool pole; };
// |R(z)| and how much rounding in double may change it
static Val R(cx z, const arma::mat &A, const arma::vec &b, double gamma)
{
	std::size_t s = b.size();
	if (!s) return Val{std::nan(""), 0, false};
	std::vector<std::vector<cx>> M(s, std::vector<cx>(s)), N;
	long double big = 0;
	for (std::size_t i = 0; i < s; ++i) for (std::size_t j = 0; j < s; ++j) { M[i][j] = (i == j ? 1.0L : 0.0L) - z*(long double)A(i, j); big = std::max(big, std::abs(M[i][j])); }
	N = M; for (std::size_t i = 0; i < s; ++i) for (std::size_t j = 0; j < s; ++j) N[i][j] += z*(long double)b(j);
	long double c1, c2; cx dm = det(M, c1), dn = det(N, c2);
	if (std::abs(dm) == 0 || c1 > 1e13L) return Val{INFINITY, 0, true};
	cx r = dn/dm + z*(long double)gamma;
	// 1 + z b^T inv(I - zA) e, evaluated in double: the terms may be much larger than their sum
	long double sb = 0; for (std::size_t i = 0; i < s; ++i) sb += std::abs((long double)b(i));
	return Val{(double)std::abs(r), (double)(1e-15L*c1*(1 + std::abs(z)*sb)*(1 + std::abs(r))), false};
}
static void check(Run &r, const std::string &where, const std::string &got, cx z, const Tab &t, bool emb)
{
	Val w = R(z, t.A, emb ? t.b2 : t.b, emb ? t.gamma : 0.0);
	r.eng->transitions++;
	char *end; double g = std::strtod(got.c_str(), &end);
	if (got.empty() || *end) fail("format", where + ": '" + got + "' is no number");
	if (w.v != w.v) { if (g == g) fail("value-without-method", where + ": " + got + " for a method without weights"); return; }
	if (w.pole) { if (!(g > 1e6)) fail("pole", where + ": " + got + " at a pole"); return; }
	if (!(std::fabs(g - w.v) <= 1e-5*w.v + 1e3*w.slack + 1e-300)) fail(emb ? "embedded-value" : "value", where + fmt(": %s instead of %.9g (slack %g)", got.c_str(), w.v, w.slack));
	if (1e3*w.slack <= 1e-3*w.v) r.eng->extra["sharp points"] += 1;
}
static std::vector<std::string> listing()
{ std::vector<std::string> v; DIR *d = opendir("."); while (dirent *e = readdir(d)) if (std::strncmp(e->d_name, "stability", 9) == 0) v.push_back(e->d_name); closedir(d); std::sort(v.begin(), v.end()); return v; }

static void body(Run &r)
{
	for (auto &f : listing()) remove(f.c_str());
	if (r.cfg(2)) {       // wrong use
		static const std::vector<std::vector<std::string>> bad = {{}, {""}, {"NO_SUCH_METHOD"}, {"radau_iia_53"}, {"RADAU_IIA_5"}, {"RADAU_IIA_532"}, {" RADAU_IIA_53"}, {"RADAU_IIA_53 "}, {"0"}, {"100"}, {"-h"}, {"--help"}, {"*"}, {"NO_SUCH", "RADAU_IIA_53"}};
		std::vector<std::string> a = r.of(bad); r.desc = "stability_region"; for (auto &x : a) r.desc += " '" + x + "'"; r.begin();
		Ran g = spawn(driver("REGION"), a, ""); r.eng->validated++; r.eng->state(hs(3, r.desc));
		if (g.crashed) fail("crash", r.desc);
		if (g.status == 0) fail("unknown-is-success", r.desc + ": status 0");
		if (g.err.size() < 10) fail("no-message", r.desc);
		if (!listing().empty() || !g.out.empty()) fail("unknown-prints", r.desc + ": printed for an unknown method");
		return;
	}
	static std::vector<int> im, em; if (im.empty()) { for (auto &s : irk::all_method_names()) im.push_back(irk::name_to_method(s)); for (auto &s : erk::all_method_names()) em.push_back(erk::name_to_method(s)); std::sort(im.begin(), im.end()); std::sort(em.begin(), em.end()); }
	bool imp = r.cfg(2); int m = r.of(imp ? im : em); std::string name = imp ? irk::method_to_name(m) : erk::method_to_name(m);
	bool more = r.cfg(2); r.desc = "stability_region " + name + (more ? " EXPLICIT_EULER" : ""); r.begin();
	Ran g = spawn(driver("REGION"), more ? std::vector<std::string>{name, "EXPLICIT_EULER"} : std::vector<std::string>{name}, "", 100);
	r.eng->validated++;
	if (g.crashed || g.status != 0) fail("crash", r.desc + fmt(": status %d signal %d ", g.status, g.sig) + g.err.substr(0, 300));
	std::string p = "stability_" + name;
	if (listing() != std::vector<std::string>{p + "_embedded_region.dat", p + "_limit.dat", p + "_region.dat"}) fail("files", r.desc);
	Tab t = table(imp, m);
	static const std::vector<double> xs = {-1e8, -1e7, -1e6, -1e5, -1e4, -1e3, -1e2, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1.5, -1, -0.9, -0.8, -0.7, -0.6, -0.5, -0.4, -0.3, -0.2, -0.1, 0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.5, 1};
	for (int emb = 0; emb < 2; ++emb) {
		std::istringstream in(slurp(p + (emb ? "_embedded_region.dat" : "_region.dat")));
		std::string line;
		for (int j = 0; j < 80; ++j) {
			for (int i = 0; i < 400; ++i) {
				if (!std::getline(in, line)) fail("grid", r.desc + fmt(": ends at row %d, column %d", j, i));
				std::istringstream l(line); double x, y; std::string v, rest;
				double wx = -190 + i*(200.0/399), wy = -20 + j*(40.0/79);
				if (!(l >> x >> y >> v) || (l >> rest)) fail("format", r.desc + ": line " + line);
				if (std::fabs(x - wx) > 1e-5*std::fabs(wx) + 1e-5 || std::fabs(y - wy) > 1e-5*std::fabs(wy) + 1e-5) fail("grid", r.desc + fmt(": (%g, %g) instead of (%g, %g)", x, y, wx, wy));
				check(r, r.desc + fmt(" %s at (%g, %g)", emb ? "embedded" : "main", wx, wy), v, cx(wx, wy), t, emb);
			}
			if (!std::getline(in, line) || !line.empty()) fail("format", r.desc + ": no empty line after a row");
		}
		if (std::getline(in, line)) fail("grid", r.desc + ": more lines");
	}
	std::istringstream in(slurp(p + "_limit.dat")); std::string line; std::getline(in, line);
	if (line.empty() || line[0] != '#') fail("format", r.desc + ": " + line);
	for (double x : xs) {
		double gx; std::string v, e, rest;
		if (!std::getline(in, line)) fail("grid", r.desc + ": limits end early");
		std::istringstream l(line); if (!(l >> gx >> v >> e) || (l >> rest)) fail("format", r.desc + ": " + line);
		if (std::fabs(gx - x) > 1e-5*std::fabs(x)) fail("grid", r.desc + fmt(": %g instead of %g", gx, x));
		check(r, r.desc + fmt(" limit at %g", x), v, cx(x, 0), t, false);
		check(r, r.desc + fmt(" embedded limit at %g", x), e, cx(x, 0), t, true);
	}
	if (std::getline(in, line)) fail("grid", r.desc + ": more limits");
	r.eng->state(hs(2, r.desc));
}
int main(int argc, char **argv) { return main_(argc, argv, body); }
