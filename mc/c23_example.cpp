// C23: the example program against the library, over equations, methods,
// settings, all orders of the options, and all ways to leave something out.
#include "rk.hpp"
#include "spawn.hpp"
#include "test_equations.hpp"
#include <algorithm>
using namespace mc;
namespace te = test_equations;

struct Set { std::string eq = "exponential", method = "LOBATTO_IIIC_85", in; double t0 = 0, t1 = 10, dt = 1e-2, rtol = 1e-5, atol = 1e-4; };

template <typename F> static std::string run(F &f, const Set &s, const arma::vec &y0, int &status)
{
	std::ostringstream o; output_options oo; oo.set_output_stream(o); oo.disable_store_in_vectors();
	int m = irk::name_to_method(s.method);
	if (m) {
		irk::solver_options so = irk::default_solver_options(); newton::options no; so.newton_opts = &no; so.rel_tol = s.rtol; so.abs_tol = s.atol;
		no.tol = 0.1*std::min(s.rtol, s.atol);
		status = irk::odeint(f, s.t0, s.t1, y0, so, oo, m, s.dt).status;
	} else {
		erk::solver_options so = erk::default_solver_options(); so.rel_tol = s.rtol; so.abs_tol = s.atol;
		status = erk::odeint(f, s.t0, s.t1, y0, so, oo, erk::name_to_method(s.method), s.dt).status;
	}
	return o.str();
}
static std::string library(const Set &s, int &status)
{
	std::istringstream in(s.in); double a = 0, b = 0, c = 0;
	if (s.eq == "exponential") { in >> a; te::exponential f(a); return run(f, s, {1.0}, status); }
	if (s.eq == "stiff-equation") { te::stiff_eq f; return run(f, s, {1.0, 1.0}, status); }
	if (s.eq == "robertson") { te::rober f; return run(f, s, {1.0, 0.0, 0.0}, status); }
	if (s.eq == "three-body") { in >> a >> b >> c; te::three_body f(a, b, c); return run(f, s, {1.0, 0.0, 3.0, 2.0, 0.0, 3.0, 0.0, 2.0, -1.0, 0.0, -1.0, 0.0}, status); }
	if (s.eq == "three-body-resume") { in >> a >> b >> c; te::three_body f(a, b, c); return run(f, s, {-161.263, 195.287, -161.26, 195.316, -1940.43, -2519.87, 21.0719, -1.56866, -21.7366, 2.36384, -1.33533, -1.73402}, status); }
	if (s.eq == "van-der-pol") { in >> a; te::vdpol f(a); return run(f, s, {2.0, 0.0}, status); }
	if (s.eq == "brusselator") { in >> a >> b; te::bruss f(a, b); return run(f, s, {2.5, 2.5}, status); }
	if (s.eq == "lorenz") { in >> a >> b >> c; te::lorenz f(b, a, c); return run(f, s, {1.0, 1.0, 1.0}, status); }
	status = -99; return "";
}
struct EqIn { const char *eq; std::vector<std::string> in; double t1; };
static const std::vector<EqIn> EQS = {{"exponential", {"-0.5\n", "0.25\n", "-3\n"}, 2}, {"stiff-equation", {""}, 0.5}, {"robertson", {"y\n", "Yes\n"}, 0.5}, {"three-body", {"1\n1\n1\n", "2\n1\n0.5\n"}, 0.5},
	{"three-body-resume", {"1\n1\n1\n"}, 0.25}, {"van-der-pol", {"0.5\n", "0.125\n"}, 2}, {"brusselator", {"1\n2.5\n", "0.5\n2\n"}, 2}, {"lorenz", {"28\n10\n2.5\n", "14\n8\n3\n"}, 0.5}};
static std::vector<std::string> methods()
{ std::vector<std::string> v; for (int m : irk_methods()) v.push_back(irk::method_to_name(m)); for (int m : erk_methods()) v.push_back(erk::method_to_name(m)); return v; }
static std::string num(double x) { return fmt("%.17g", x); }

static void compare(Run &r, const Set &s, const std::vector<std::string> &args, bool printed = false)
{
	remove("o.dat");
	Ran g = spawn(driver("EXAMPLE"), args, s.in);
	int st = 0; std::string want = library(s, st), got = slurp("o.dat");
	r.eng->transitions++; r.eng->validated++; r.eng->state(hs(hs(1, r.desc), got));
	if (g.crashed) fail("crash", r.desc + fmt(": signal %d, ", g.sig) + g.err.substr(0, 300));
	if (g.status != (st == SUCCESS ? 0 : 2)) fail("status", r.desc + fmt(": status %d, the library's is %d", g.status, st));
	if (got != want) {
		Set f = s; f.t0 = (float)s.t0; f.t1 = (float)s.t1; f.dt = (float)s.dt; f.rtol = (float)s.rtol; f.atol = (float)s.atol;
		int st2; bool isf = got == library(f, st2);
		fail(isf ? "options-rounded-to-float" : "output", r.desc + ": the output is not that of the library: " + got.substr(0, 200) + " ... instead of " + want.substr(0, 200));
	}
	if (printed != (g.err.find("Calculate optimal step") != std::string::npos) && irk::name_to_method(s.method) && st == SUCCESS)
		fail(printed ? "timing-not-printed" : "timing-unasked", r.desc);
}

static void body(Run &r)
{
	bool th = r.eng->thorough();
	int part = r.cfg(4);
	static std::vector<std::string> ms = methods();
	if (part == 0) {      // equations, methods, settings
		const EqIn &e = r.of(EQS); Set s; s.eq = e.eq; s.in = r.of(e.in); s.method = r.of(ms);
		int k = r.cfg(th ? 6 : 3); s.t0 = k % 3 == 1 ? 0.125 : 0; s.t1 = s.t0 + e.t1; s.dt = k == 2 ? 0.0625 : 0.0009765625;
		s.rtol = std::vector<double>{0.0009765625, 0.03125, 0.0001220703125, 0.0078125, 6.103515625e-05, 0.00390625}[k]; s.atol = std::vector<double>{0.00048828125, 0.015625, 0.000244140625, 0.0001220703125, 0.0078125, 0.001953125}[k];
		bool internals = r.cfg(2);
		if (s.eq == std::string("robertson") && s.method[0] != 'R' && s.method[0] != 'L') s.t1 = s.t0 + 0.0625;
		if (s.method == "EXPLICIT_EULER" || s.method == "IMPLICIT_EULER" || s.method == "RUNGE_KUTTA_4") s.dt = 0.0009765625;
		r.desc = fmt("%s with %s, [%g, %g], dt %g, tolerances %g %g, internals %d, input ", s.eq.c_str(), s.method.c_str(), s.t0, s.t1, s.dt, s.rtol, s.atol, internals) + s.in; r.begin();
		compare(r, s, {"--equation", s.eq, "--method", s.method, "--time-span", num(s.t0), num(s.t1), "--dt", num(s.dt), "--rel-tol", num(s.rtol), "--abs-tol", num(s.atol),
			"--out-interval", k == 2 ? "1" : "0", "--time-internals", internals ? "1" : "0", "--output-file", "o.dat"}, internals);
		return;
	}
	if (part == 1) {      // every subset of the options, in every order
		std::vector<std::vector<std::string>> o = {{"--equation", "van-der-pol"}, {"--method", "DORMAND_PRINCE_54"}, {"--time-span", "0.25", "1.5"}, {"--dt", "0.0625"}, {"--rel-tol", "0.0078125"}, {"--abs-tol", "0.0009765625"}};
		int mask = r.cfg(64); std::vector<int> left; for (int i = 0; i < 6; ++i) if (mask >> i & 1) left.push_back(i);
		bool file_first = r.cfg(2);
		if (!th && left.size() == 6) { mask = 63; }
		std::vector<int> order; int n = (int)left.size();
		for (int i = 0; i < n; ++i) { int c = (!th && i < n - 4) ? 0 : r.cfg((int)left.size()); order.push_back(left[c]); left.erase(left.begin() + c); }
		Set s; s.in = "0.5\n"; std::vector<std::string> args = {"--output-file", "o.dat", "--time-internals", "0"}, opt;
		r.desc = "options"; for (int i : order) { r.desc += " " + o[i][0]; opt.insert(opt.end(), o[i].begin(), o[i].end()); }
		if (file_first) args.insert(args.end(), opt.begin(), opt.end()); else args.insert(args.begin(), opt.begin(), opt.end());
		r.begin();
		for (int i : order) switch (i) { case 0: s.eq = o[0][1]; break; case 1: s.method = o[1][1]; break; case 2: s.t0 = 0.25; s.t1 = 1.5; break; case 3: s.dt = 0.0625; break; case 4: s.rtol = 0.0078125; break; case 5: s.atol = 0.0009765625; break; }
		compare(r, s, args);
		return;
	}
	if (part == 2) {      // numbers that floats do not hold; a repeated option: the last one counts; defaults
		int k = r.cfg(9); Set s; s.in = "-1\n"; std::vector<std::string> a = {"--time-internals", "0", "--output-file", "o.dat"};
		auto add = [&](std::vector<std::string> v) { a.insert(a.end(), v.begin(), v.end()); };
		s.method = "DORMAND_PRINCE_54"; add({"--method", s.method});
		switch (k) {
		case 0: s.t0 = 0.1; s.t1 = 1.3; add({"--time-span", "0.1", "1.3"}); break;
		case 1: s.dt = 0.03; add({"--dt", "0.03"}); break;
		case 2: s.rtol = 1e-3; s.atol = 1e-4; add({"--rel-tol", "1e-3"}); break;
		case 3: s.atol = 1e-6; add({"--abs-tol", "1e-6"}); break;
		case 4: s.dt = 0.5; add({"--dt", "0.25", "--dt", "0.5"}); break;
		case 5: s.method = "FEHLBERG_54"; add({"--method", s.method}); break;
		case 8: s.t1 = 1.000005; add({"--time-span", "0", "1.000005"}); break;
		case 6: add({"--out-interval", "2"}); break;
		case 7: a.erase(a.begin(), a.begin() + 2); s.method = "RADAU_IIA_53"; add({"--method", s.method}); break;   // --time-internals left out
		}
		r.desc = "example"; for (auto &x : a) r.desc += " " + x; r.begin();
		if (k == 7) { try { compare(r, s, a); } catch (Violation &v) { if (v.key == "timing-unasked") v.key = "time-internals-indeterminate"; throw; } } else compare(r, s, a);
		return;
	}
	// wrong use
	std::vector<std::string> opts = {"--equation", "--method", "--time-span", "--dt", "--rel-tol", "--abs-tol", "--out-interval", "--time-internals", "--output-file"};
	std::vector<std::string> good = {"lorenz", "RADAU_IIA_53", "0", "0.5", "0.5", "0.5", "1", "0", "o.dat"};
	int kind = r.cfg(6), which = 0; std::vector<std::string> a; std::string in = "1\n1\n1\n"; int want = 255;
	auto front = [&](int upto) { for (int i = 0; i < upto; ++i) { a.push_back(opts[i]); a.push_back(good[i]); if (opts[i] == "--time-span") a.push_back("1"); } };
	std::string key;
	switch (kind) {
	case 0: which = r.cfg(9); front(r.cfg(2) ? which : 0); a.push_back(opts[which]); key = "no-value-" + opts[which].substr(2); break;          // last option without its value
	case 1: which = r.cfg(2) + 2; a = {"--time-span"}; if (which == 3) a.push_back("1"); key = "no-value-time-span"; break;
	case 2: { which = r.cfg(9); static const std::vector<std::string> bad = {"--nonsense", "-x", "equation", "", "--", "--dtt", "-", "help", "--Method"}; front(r.cfg(3)); a.push_back(bad[which]); key = "unknown-option"; break; }
	case 3: { which = r.cfg(2 + 2); static const std::vector<std::vector<std::string>> bad = {{"--equation", "no-such"}, {"--method", "NO_SUCH"}, {"--method", ""}, {"--time-internals", "2"}}; a = bad[which]; if (which != 0) { a.push_back("--equation"); a.push_back("lorenz"); } key = "unknown-name"; if (which == 3) want = 255; break; }
	case 4: { which = r.cfg(6); a = {std::vector<std::string>{"--dt", "--rel-tol", "--abs-tol", "--out-interval", "--time-internals", "--time-span"}[which], r.cfg(2) ? "abc" : ""}; if (which == 5) a.push_back("1"); key = "not-a-number-" + a[0].substr(2); break; }
	case 5: { which = r.cfg(5); want = which == 0 ? 3 : which < 3 ? 0 : 1; if (which == 1) a = {"-h"}; if (which == 2) a = {"--method", "RADAU_IIA_53", "--help"}; if (which >= 3) { a = {"--equation", "robertson"}; in = which == 3 ? "n\n" : ""; } key = "usage"; break; }
	}
	r.desc = "example"; for (auto &x : a) r.desc += " '" + x + "'"; r.begin();
	remove("o.dat");
	Ran g = spawn(driver("EXAMPLE"), a, in);
	r.eng->transitions++; r.eng->validated++; r.eng->state(hs(9, r.desc));
	if (g.crashed) fail(key, r.desc + fmt(": signal %d, ", g.sig) + g.err.substr(0, 300));
	if (g.status != want) fail("wrong-use-status", r.desc + fmt(": status %d instead of %d", g.status, want));
	if (g.err.size() < 40) fail("no-message", r.desc);
	if (!slurp("o.dat").empty()) fail("default-run", r.desc);
}
int main(int argc, char **argv) { return main_(argc, argv, body); }
