// C28: what the library says about coefficients, options and states is true:
// all shapes of coefficients, all options, all printed tableaux, all codes.
#include "systems.hpp"
#include "integ.hpp"
using namespace mc;

// the lower triangle is not zero anywhere
template <typename SC> static SC shape(int b, int c, int rows, int cols)
{
	SC s; s.name = "test"; s.b = arma::vec(b, arma::fill::ones); s.c = arma::vec(c, arma::fill::ones); s.A = arma::mat(rows, cols, arma::fill::zeros);
	for (int i = 0; i < rows; ++i) for (int j = 0; j < i && j < cols; ++j) s.A(i, j) = 0.5;
	s.order = 1; s.order2 = 0; s.FSAL = false; s.gamma = 0;
	return s;
}

static void shapes(Run &r)
{
	bool th = r.eng->thorough(); int n = th ? 7 : 6;
	bool imp = r.cfg(2); int b = r.cfg(n), c = r.cfg(n), ro = r.cfg(n), co = r.cfg(n);
	r.desc = fmt("%s coefficients with %d weights, %d nodes and a %d x %d matrix", imp ? "implicit" : "explicit", b, c, ro, co);
	r.begin();
	bool want = b > 0 && c == b && ro == b && co == b;
	bool got = imp ? irk::verify_solver_coeffs(shape<irk::solver_coeffs>(b, c, ro, co)) : erk::verify_solver_coeffs(shape<erk::solver_coeffs>(b, c, ro, co));
	r.eng->validated++; r.eng->transitions++; r.eng->state(hmix(hmix(b, c), hmix(ro, co))); r.eng->outcome(got);
	if (got != want) fail("shape", r.desc + (got ? " are accepted" : " are rejected"));
}
// every set of up to two (three) entries that are not zero
static void entries(Run &r)
{
	bool th = r.eng->thorough();
	int n = 1 + r.cfg(th ? 7 : 6), k = 1 + r.cfg(th ? 3 : 2);
	std::vector<double> vals = {1, -1, 0.25, 1e-300, -1e-9, 1e300, INFINITY, NAN}; double v = r.of(vals);
	std::vector<int> at; for (int i = 0; i < k; ++i) at.push_back(r.cfg(n*n));
	r.desc = fmt("%d stages, %g at", n, v); for (int a : at) r.desc += fmt(" (%d,%d)", a/n, a%n);
	r.begin();
	erk::solver_coeffs e = shape<erk::solver_coeffs>(n, n, n, n); irk::solver_coeffs m = shape<irk::solver_coeffs>(n, n, n, n);
	bool upper = false, lower_bad = false;
	for (int a : at) { e.A(a/n, a%n) = v; m.A(a/n, a%n) = v; if (a%n >= a/n) upper = true; else if (!std::isfinite(v)) lower_bad = true; }
	r.eng->validated++; r.eng->transitions += 2; r.eng->state(hmix(n, hs(1, r.desc)));
	bool ge = erk::verify_solver_coeffs(e);
	r.eng->outcome(ge);
	if (upper && ge) fail("not-explicit", r.desc + ": accepted for an explicit method");
	if (!upper && !lower_bad && !ge) fail("explicit", r.desc + ": rejected for an explicit method");
	if (std::isfinite(v)) {
		if (!irk::verify_solver_coeffs(m)) fail("implicit", r.desc + ": rejected for an implicit method");
		bool strict = !upper, diag_only = true; for (int a : at) if (a%n > a/n) diag_only = false;
		if (irk::is_method_explicit(m) != strict) fail("predicate", r.desc + fmt(": is_method_explicit says %d", !strict));
		if (irk::is_method_dirk(m) != diag_only) fail("predicate", r.desc + fmt(": is_method_dirk says %d", !diag_only));
		bool same = diag_only; for (int i = 0; i < n; ++i) if (m.A(i, i) != m.A(0, 0)) same = false;
		if (irk::is_method_sdirk(m) != same) fail("predicate", r.desc + fmt(": is_method_sdirk says %d", !same));
	}
}
// every method, whole and with something missing
static void methods(Run &r)
{
	std::vector<std::pair<bool, std::string>> all;
	for (auto &n : irk::all_method_names()) all.push_back({true, n});
	for (auto &n : erk::all_method_names()) all.push_back({false, n});
	all.push_back({true, ""}); all.push_back({false, ""}); all.push_back({true, "DORMAND_PRINCE_54"}); all.push_back({false, "RADAU_IIA_53"});
	auto mm = r.of(all); bool imp = mm.first;
	int what = r.cfg(8);
	r.desc = (imp ? "implicit " : "explicit ") + mm.second + fmt(", change %d", what);
	r.begin();
	irk::solver_coeffs m; erk::solver_coeffs e;
	if (imp) m = irk::get_coefficients(irk::name_to_method(mm.second)); else e = erk::get_coefficients(erk::name_to_method(mm.second));
	arma::vec &b = imp ? m.b : e.b, &c = imp ? m.c : e.c; arma::mat &A = imp ? m.A : e.A;
	bool known = imp ? irk::method_to_name(irk::name_to_method(mm.second)) == mm.second && mm.second != "" : erk::method_to_name(erk::name_to_method(mm.second)) == mm.second && mm.second != "";
	int n = b.size(); bool want = n > 0;
	if (what && !n) return;
	switch (what) {
	case 1: b.resize(n - 1); want = false; break;
	case 2: c.resize(n - 1); want = false; break;
	case 3: A.resize(n - 1, n); want = false; break;
	case 4: A.resize(n, n - 1); want = false; break;
	case 5: b.resize(n + 1); want = false; break;
	case 6: c.resize(n + 1); want = false; break;
	case 7: A.resize(n + 1, n + 1); want = false; break;
	}
	bool got = imp ? irk::verify_solver_coeffs(m) : erk::verify_solver_coeffs(e);
	r.eng->validated++; r.eng->transitions++; r.eng->state(hs(what, mm.second)); r.eng->outcome(got);
	if (!known && got) fail("unknown", r.desc + ": coefficients of a method that does not exist are accepted");
	if (got != want) fail("method", r.desc + (got ? " is accepted" : " is rejected"));
}
static void options(Run &r)
{
	bool imp = r.cfg(2), newt = r.cfg(2), adapt = r.cfg(2), ext = r.cfg(2), time = r.cfg(2); int solver = r.cfg(2);
	std::vector<double> tl = {1e-4, 0, 1e-12}; double rt = r.of(tl), at = r.of(tl), md = r.of(tl);
	std::vector<long long> ms = {-1, 0, 7}; long long mx = r.of(ms); std::vector<int> li = {0, 3}; int lo = r.cfg(2);
	r.desc = fmt("%s options, newton_opts %s, adaptive %d, rel_tol %g, abs_tol %g, max_dt %g, max_steps %lld", imp ? "implicit" : "explicit", newt ? "set" : "not set", (int)adapt, rt, at, md, mx);
	r.begin();
	newton::options no; bool got, def = true;
	auto set = [&](common_solver_options &o) {
		if (o.newton_opts || o.max_dt > 0 || o.max_steps >= 0 || o.out_interval > 0 || o.time_internals || !(o.rel_tol > 0) || !(o.abs_tol > 0) || !(o.rel_tol <= 1e-3) || !(o.abs_tol <= 1e-2)) def = false;
		o.newton_opts = newt ? &no : nullptr; o.rel_tol = rt; o.abs_tol = at; o.max_dt = md; o.max_steps = mx; o.out_interval = li[lo]; o.time_internals = time;
		o.internal_solver = solver ? common_solver_options::NEWTON : common_solver_options::BROYDEN;
	};
	if (imp) { auto o = irk::default_solver_options(); if (!o.adaptive_step_size) def = false; set(o); o.adaptive_step_size = adapt; o.extrapolate_stage = ext; got = irk::verify_solver_options(o);
		if (o.newton_opts != (newt ? &no : nullptr) || o.rel_tol != rt || o.adaptive_step_size != adapt) fail("options", r.desc + ": the check changes the options"); }
	else { auto o = erk::default_solver_options(); if (!o.adaptive_step_size) def = false; set(o); o.adaptive_step_size = adapt; o.extrapolate_stage = ext; got = erk::verify_solver_options(o); }
	r.eng->validated++; r.eng->transitions++; r.eng->state(hs(1, r.desc)); r.eng->outcome(got);
	if (!def) fail("defaults", r.desc + ": the default options are not those of a plain adaptive integration without limits");
	if (got != (!imp || newt)) fail("options", r.desc + (got ? ": accepted" : ": rejected"));
}
// printed tableaux
static void tableaux(Run &r)
{
	auto names = irk::all_method_names(); std::vector<std::string> use; for (auto &n : names) use.push_back(n);
	std::string n = r.of(use);
	std::vector<int> pr = {6, 0, 3, 10, 17}; int prec = r.of(pr); int fl = r.cfg(4); int extra = r.cfg(3);
	r.desc = "printing " + n + fmt(", precision %d, format %d, variant %d", prec, fl, extra);
	r.begin();
	irk::solver_coeffs sc = irk::get_coefficients(irk::name_to_method(n));
	int N = sc.b.size(); if (N == 0 || !irk::verify_solver_coeffs(sc)) return;
	if (extra == 1) sc.b2.reset();
	if (extra == 2) { sc.A *= -1e5/3; sc.c *= 1e-7/3; }
	std::ostringstream o; o.precision(prec);
	if (fl == 1) o << std::fixed; if (fl == 2) o << std::scientific; if (fl == 3) o << std::showpos;
	auto before = o.flags();
	o << sc;
	r.eng->validated++; r.eng->transitions++; r.eng->state(hs(1, o.str())); r.eng->outcome(hs(2, o.str()));
	if (o.precision() != prec) fail("stream", r.desc + fmt(": leaves the precision at %d", (int)o.precision()));
	if (o.flags() != before) fail("stream", r.desc + ": leaves other format flags");
	std::vector<double> want; std::vector<std::vector<double>> got; std::stringstream ss(o.str()); std::string l;
	std::getline(ss, l);
	if (l != sc.name) fail("printed", r.desc + ": the first line is \"" + l + "\"");
	while (std::getline(ss, l)) {
		std::vector<double> v; bool rule = true; for (char ch : l) if (ch != '-' && ch != '+' && ch != '=' && ch != ' ' && ch != '|') rule = false;
		if (rule) continue;
		for (char &ch : l) if (ch == '|') ch = ' ';
		std::stringstream ls(l); std::string w;
		while (ls >> w) { char *e; double x = std::strtod(w.c_str(), &e); if (*e) fail("printed", r.desc + ": \"" + w + "\" is no number in the line \"" + l + "\""); v.push_back(x); }
		got.push_back(v);
	}
	std::vector<std::vector<double>> exp;
	for (int i = 0; i < N; ++i) { std::vector<double> v = {sc.c(i)}; for (int j = 0; j < N; ++j) v.push_back(sc.A(i, j)); exp.push_back(v); }
	exp.push_back(arma::conv_to<std::vector<double>>::from(sc.b));
	if (sc.b2.size()) exp.push_back(arma::conv_to<std::vector<double>>::from(sc.b2));
	if (got.size() != exp.size()) fail("printed", r.desc + fmt(": %zu rows of numbers, expected %zu", got.size(), exp.size()));
	for (std::size_t i = 0; i < exp.size(); ++i) {
		if (got[i].size() != exp[i].size()) fail("printed", r.desc + fmt(": row %zu has %zu numbers, expected %zu", i, got[i].size(), exp[i].size()));
		for (std::size_t j = 0; j < exp[i].size(); ++j) {
			double x = exp[i][j], tol = fl == 1 ? 0.6e-5 : 0.6e-4*std::fabs(x);      // at least 5 digits
			if (!(std::fabs(got[i][j] - x) <= tol)) fail("printed", r.desc + fmt(": row %zu, column %zu is %.17g, not %.17g", i, j, got[i][j], x));
		}
	}
}
// printed coefficient lists can be read back
static void lists(Run &r)
{
	bool th = r.eng->thorough();
	std::vector<int> alpha = {1, -2, 30}; int n = r.cfg(th ? 5 : 4);
	irk::coeff_list L(n); 
	for (int i = 0; i < n; ++i) { int k = r.cfg(n > 2 ? 3 : 4); for (int j = 0; j < k; ++j) L[i].push_back(n > 2 ? alpha[(i + j) % 3] : r.of(alpha)); }
	r.begin();
	std::ostringstream o; irk::operator<<(o, L); std::string s = o.str(); r.desc = "printing the list " + s;
	r.eng->validated++; r.eng->transitions++; r.eng->state(hs(1, s)); r.eng->outcome(hs(1, s));
	irk::coeff_list M; int depth = 0; std::string num;
	auto flush = [&]() { if (!num.empty()) { if (depth != 2 || M.empty()) fail("list", r.desc + ": a number outside of a list"); M.back().push_back(std::stoi(num)); num.clear(); } };
	for (char c : s) {
		if (c == '{') { flush(); ++depth; if (depth == 2) M.emplace_back(); if (depth > 2) fail("list", r.desc + ": braces"); }
		else if (c == '}') { flush(); --depth; if (depth < 0) fail("list", r.desc + ": braces"); }
		else if (c == ' ' || c == ',') flush();
		else num += c;
	}
	if (depth) fail("list", r.desc + ": braces do not match");
	if (M != L) fail("list", r.desc + ": is not the list");
}
static void words(Run &r)
{
	int k = r.cfg(3);
	if (k == 0) {                                        // names of states
		int code = r.cfg(40) - 10; r.desc = fmt("status %d", code); r.begin();
		std::string m = newton::status_message(code); r.eng->state(hs(1, m)); r.eng->validated++; r.eng->transitions++; r.eng->outcome(hs(1, m));
		static const std::map<int, std::string> want = {{newton::SUCCESS, "SUCCESS"}, {newton::INCREMENT_DIVERGE, "INCREMENT_DIVERGE"}, {newton::ITERATION_ERROR_TOO_LARGE, "ITERATION_ERROR_TOO_LARGE"}, {newton::MAXIT_EXCEEDED, "MAXIT_EXCEEDED"}, {newton::GENERIC_ERROR, "GENERIC_ERROR"}};
		auto it = want.find(code);
		if (it != want.end() ? m != it->second : m.empty()) fail("status", r.desc + ": called \"" + m + "\"");
		if (it == want.end()) for (auto &p : want) if (p.second == m) fail("status", r.desc + ": called \"" + m + "\"");
	} else if (k == 1) {                                 // padded numbers
		std::vector<double> v = {0, 1, -1, 3.14159265358979, -2.5e-7, 6.02e23, 1e300, -1e-300, INFINITY, NAN}; double x = r.of(v);
		int w = r.cfg(30); std::vector<char> pad = {' ', '.', '0'}; char c = r.of(pad);
		r.desc = fmt("%g printed %d wide, padded with '%c'", x, w, c); r.begin();
		std::string s = newton::to_fixed_w_string(x, w, c); r.eng->state(hs(1, s)); r.eng->validated++; r.eng->transitions++; r.eng->outcome(hs(1, s));
		std::ostringstream o; o << std::scientific << x;
		if (s.size() != std::max<std::size_t>(w, o.str().size())) fail("padded", r.desc + ": \"" + s + "\" has another width");
		if (s.find(o.str()) == std::string::npos) fail("padded", r.desc + ": \"" + s + "\" is not that number");
	} else {                                             // wrappers for the root finders hand everything on
		std::vector<int> ps = {DECAY, RAMP, CHAIN3, VDP, QUAD4, PULSE, OSC5, PRINCE4, ROBER}; int id = r.of(ps);
		std::vector<double> ts = {0, 1, -3.7, 1e6}; double t = r.of(ts); int j = r.cfg(4);
		r.desc = "wrapper"; r.begin();
		Prob p = make_prob(id, 0.4, 20); p.keep_log = true; arma::vec y = p.y0; for (std::size_t i = 0; i < y.size(); ++i) y(i) = j == 0 ? y(i) : j == 1 ? -0.3*(i + 1) : j == 2 ? 1e3/(i + 1) : 0;
		r.desc = fmt("wrapped %s at t=%g, y=", p.name, t) + vs(y);
		arma::vec keep = y, f; arma::mat J; newton::newton_functor_wrapper<Prob> w(p, t);
		f = w.fun(y); J = w.jac(y); f = w.fun(y);
		r.eng->state(hstate(t, y)); r.eng->validated++; r.eng->transitions += 3;
		if (arma::any(f != p.f(t, y)) || arma::any(arma::vectorise(J != p.J(t, y)))) fail("wrapper", r.desc + ": another answer");
		if (p.fun_calls != 2 || p.jac_calls != 1 || arma::any(y != keep)) fail("wrapper", r.desc + fmt(": %ld and %ld calls", p.fun_calls, p.jac_calls));
		long a = 0, b = 0; auto ff = [&](const arma::vec &q) { ++a; return p.f(t, q); }; auto fj = [&](const arma::vec &q) { ++b; return p.J(t, q); };
		newton::newton_lambda_wrapper<decltype(ff), decltype(fj), arma::mat> lw(ff, fj);
		f = lw.fun(y); J = lw.jac(y); f = lw.fun(y);
		if (arma::any(f != p.f(t, y)) || arma::any(arma::vectorise(J != p.J(t, y))) || a != 2 || b != 1) fail("wrapper", r.desc + ": another answer of the wrapped functions");
	}
}
static void body(Run &r)
{
	switch (r.cfg(7)) {
	case 0: shapes(r); break; case 1: entries(r); break; case 2: methods(r); break; case 3: options(r); break;
	case 4: tableaux(r); break; case 5: lists(r); break; case 6: words(r); break;
	}
}
int main(int c, char **v) { return main_(c, v, body); }
