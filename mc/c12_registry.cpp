// C12: look-ups never change each other's answers; every listed method works.
#include "integ.hpp"
using namespace mc;

struct Op { int kind; std::string name; int num; std::string str() const {
	static const char *k[] = {"irk::name_to_method", "erk::name_to_method", "irk::method_to_name", "erk::method_to_name",
	                          "irk::get_coefficients", "erk::get_coefficients", "irk::all_method_names", "erk::all_method_names"};
	return kind < 2 ? fmt("%s(\"%s\")", k[kind], name.c_str()) : kind < 6 ? fmt("%s(%d)", k[kind], num) : std::string(k[kind]) + "()"; } };

// what is documented: enums.hpp
static const std::map<std::string, int> IRK = { FOREACH_IRK_METHOD(GENERATE_MAP) };
static const std::map<std::string, int> ERK = { FOREACH_ERK_METHOD(GENERATE_MAP) };
static std::string name_of(const std::map<std::string, int> &m, int k) { for (auto &p : m) if (p.second == k) return p.first; return ""; }

static std::uint64_t hmat(std::uint64_t h, const arma::mat &m) { h = hmix(hmix(h, m.n_rows), m.n_cols); for (double x : m) h = hd(h, x); return h; }
template <typename C> std::uint64_t hco(const C &c)
{ return hd(hmix(hmix(hmix(hmat(hmat(hmat(hmat(hmat(1, c.A), c.b), c.c), c.b2), c.b_interp), c.order), c.order2), c.FSAL), c.gamma); }

static std::map<std::pair<int, int>, std::uint64_t> first_co;
static void answer(const Op &o, const std::string &d)
{
	auto bad = [&](const std::string &k, const std::string &m) { fail(k, d + ": " + o.str() + " " + m); };
	const auto &M = o.kind % 2 ? ERK : IRK;
	if (o.kind < 2) {
		int got = o.kind ? erk::name_to_method(o.name) : irk::name_to_method(o.name);
		auto it = M.find(o.name); int want = it == M.end() ? 0 : it->second;
		if (got != want) bad("name-to-method", fmt("is %d, not %d", got, want));
	} else if (o.kind < 4) {
		std::string got = o.kind == 3 ? erk::method_to_name(o.num) : irk::method_to_name(o.num), want = name_of(M, o.num);
		if (got != want) bad("method-to-name", "is '" + got + "', not '" + want + "'");
	} else if (o.kind < 6) {
		std::uint64_t h; bool ok; std::string n; int s;
		if (o.kind == 5) { auto c = erk::get_coefficients(o.num); h = hco(c); ok = erk::verify_solver_coeffs(c); n = c.name; s = c.b.size(); }
		else { auto c = irk::get_coefficients(o.num); h = hco(c); ok = irk::verify_solver_coeffs(c); n = c.name; s = c.b.size(); }
		if (n != name_of(M, o.num)) bad("coefficients-name", "calls itself '" + n + "'");
		auto k = std::make_pair(o.kind, o.num);
		if (!first_co.count(k)) first_co[k] = h;
		if (first_co[k] != h) bad("coefficients-change", "differs from the first time");
		if (name_of(M, o.num).empty() && ok) bad("unknown-usable", "of an unknown method passes verification");
	} else {
		auto v = o.kind == 7 ? erk::all_method_names() : irk::all_method_names();
		std::multiset<std::string> a(v.begin(), v.end()), b; for (auto &p : M) b.insert(p.first);
		if (a != b) bad("list", fmt("has %zu names, not %zu", a.size(), b.size()));
	}
}

static void body(Run &r)
{
	bool th = r.eng->thorough();
	std::vector<std::string> unknown = {"", "NO_SUCH_METHOD", "RADAU_IIA_5", "radau_iia_53", "RADAU_IIA_53 "};
	std::vector<int> odd = {0, -1, 1, 99, 199, 209, 1000000};
	int part = r.cfg(2);
	if (part == 0) {       // sequences of look-ups
		static std::vector<Op> alpha;
		if (alpha.empty()) for (int imp = 1; imp >= 0; --imp) {
			const auto &M = imp ? IRK : ERK; int e = !imp;
			for (auto &p : IRK) alpha.push_back(Op{0 + e, p.first, 0});
			for (auto &p : ERK) alpha.push_back(Op{0 + e, p.first, 0});
			for (auto &u : unknown) alpha.push_back(Op{0 + e, u, 0});
			for (auto &p : M) { alpha.push_back(Op{2 + e, "", p.second}); alpha.push_back(Op{4 + e, "", p.second}); }
			for (int o : odd) { alpha.push_back(Op{2 + e, "", o}); alpha.push_back(Op{4 + e, "", o}); }
			for (int k : {e ? 200 : 100}) { alpha.push_back(Op{2 + e, "", k}); alpha.push_back(Op{4 + e, "", k}); }   // of the other family
			alpha.push_back(Op{6 + e, "", 0});
		}
		int depth = th ? 3 : 2;
		std::vector<int> seq; r.desc = "";
		for (int i = 0; i < depth; ++i) { seq.push_back(r.cfg(alpha.size())); r.desc += (i ? ", " : "") + alpha[seq.back()].str(); }
		r.begin();
		std::uint64_t st = 0;
		for (int i : seq) { answer(alpha[i], r.desc); r.eng->transitions++; st = hmix(st, i); }
		// the whole table afterwards (coefficients cost more: only those of the methods touched are compared above)
		for (auto &o : alpha) if (o.kind / 2 != 2) answer(o, "after " + r.desc);
		if (!th || seq[0] == seq[1]) for (auto &o : alpha) if (o.kind / 2 == 2 && o.num == 211) answer(o, "after " + r.desc);
		r.eng->state(st); r.eng->validated++;
		return;
	}
	// every listed method integrates
	std::vector<std::pair<bool, std::string>> all;
	for (auto &n : irk::all_method_names()) all.push_back({true, n});
	for (auto &n : erk::all_method_names()) all.push_back({false, n});
	auto mm = r.of(all);
	std::vector<int> probs = {DECAY, HARM, RAMP, LOGISTIC, CHAIN3}; int pi = r.of(probs);
	int mode = r.cfg(2);
	std::vector<double> tol = {1e-4, 1e-7}; double tl = mode ? r.of(tol) : 0;
	int over = r.cfg(3);
	Case c; c.imp = mm.first; c.method = c.imp ? irk::name_to_method(mm.second) : erk::name_to_method(mm.second);
	Prob p = make_prob(pi);
	c.t1 = 0.5; c.adaptive = mode; c.dt = 0.01; c.rtol = tl; c.atol = tl;
	r.desc = c.str(p);
	r.begin();
	const std::string &n = mm.second;
	bool ok = c.imp ? irk::verify_solver_coeffs(irk::get_coefficients(c.method)) : erk::verify_solver_coeffs(erk::get_coefficients(c.method));
	if (!ok) fail("no-coefficients-" + n, r.desc + ": listed, but there are no usable coefficients");
	Tab t = table(c.imp, c.method);
	p.horizon = 100000;
	Sol s;
	try {
		if (over == 0) s = integrate(c, p);
		else if (over == 1) {           // with room for too large a step: it must be reduced
			c.dt = 10; if (!mode) c.dt = 0.5; if (mode) c.dt = 0.01; s = integrate(c, p); if (!mode) return;
		} else {                        // the default call, for one method of each family
			if ((c.imp && c.method != irk::RADAU_IIA_53) || (!c.imp && c.method != erk::DORMAND_PRINCE_54) || !mode) return;
			if (c.imp) s = from(irk::odeint(p, 0.0, c.t1, p.y0)); else s = from(erk::odeint(p, 0.0, c.t1, p.y0));
			tl = 1e-3;
		}
	} catch (std::exception &e) { fail((std::string(e.what()).find("singular") != std::string::npos ? "singular-matrix-" : "throws-") + n, r.desc + ": throws " + e.what());
	} catch (Horizon &) { fail("cannot-integrate-" + n, r.desc + ": no end after 100000 evaluations"); }
	visit(r, s);
	if (s.status != SUCCESS) fail("cannot-integrate-" + n, r.desc + fmt(": status %d", s.status));
	if (s.t.back() != c.t1) fail("cannot-integrate-" + n, r.desc + fmt(": ended at %g", s.t.back()));
	if (p.exact) {
		double e = ninf(arma::vec(s.y.back() - p.exact(c.t1, 0)));
		if (!(e < (t.order == 1 ? 0.02 : mode ? 100*tl : 1e-4))) fail("cannot-integrate-" + n, r.desc + fmt(": error %g", e));
	}
}
int main(int c, char **v) { return main_(c, v, body); }
