// C10: order conditions of every tableau on all rooted trees.
#include "rk.hpp"
using namespace mc;

struct Tree { int order; double gamma; std::vector<int> kids; };
static std::vector<Tree> trees;
static std::vector<std::pair<int,int>> range;   // [first, last) of order n
static void add_trees(int n, int left, int maxid, std::vector<int> &kids)
{
	if (left == 0) {
		double g = n; for (int k : kids) g *= trees[k].gamma;
		trees.push_back(Tree{n, g, kids});
		return;
	}
	for (int id = std::min(maxid, range[left].second - 1); id >= 0; --id) {
		if (trees[id].order > left) continue;
		kids.push_back(id); add_trees(n, left - trees[id].order, id, kids); kids.pop_back();
	}
}
static void make_trees(int upto)
{
	range.assign(1, {0, 0});
	for (int n = 1; n <= upto; ++n) {
		int a = trees.size();
		std::vector<int> kids;
		if (n == 1) trees.push_back(Tree{1, 1.0, {}});
		else add_trees(n, n - 1, a - 1, kids);
		range.push_back({a, (int)trees.size()});
	}
}
static std::string tstr(int i) { std::string s = "["; for (int k : trees[i].kids) s += tstr(k); return s + "]"; }

static void body(Run &r)
{
	bool imp = r.cfg(2) == 0;
	auto names = imp ? irk::all_method_names() : erk::all_method_names();
	std::string nm = r.of(names);
	int m = imp ? irk::name_to_method(nm) : erk::name_to_method(nm);
	int part = r.cfg(6);
	static const char *parts[] = {"main weights", "embedded weights", "nodes", "structure", "main weights have no higher order", "pair is not degenerate"};
	r.desc = nm + ", " + parts[part];
	r.begin();
	irk::solver_coeffs sc; 
	if (imp) sc = irk::get_coefficients(m);
	else { auto q = erk::get_coefficients(m); sc.name = q.name; sc.b = q.b; sc.c = q.c; sc.A = q.A; sc.b2 = q.b2; sc.order = q.order; sc.order2 = q.order2; sc.FSAL = q.FSAL; sc.gamma = 0; sc.b_interp = q.b_interp; }
	if (sc.b.size() == 0) { r.eng->extra["methods without coefficients"] += 1; return; }   // C12
	int s = sc.b.size();
	if ((int)sc.c.size() != s || (int)sc.A.n_rows != s || (int)sc.A.n_cols != s || (sc.b2.size() && (int)sc.b2.size() != s)) fail("size", nm + ": sizes of the coefficients do not match");
	auto key = [&](const char *k) { return std::string(k) + "-" + nm; };
	// elementary weights
	auto weights = [&](const arma::vec &w, double g, int from, int to, double &worst, std::string &which) {
		worst = 0;
		std::vector<arma::vec> phi(range[to].second), Aphi(range[to].second);
		for (int i = 0; i < range[to].second; ++i) {
			arma::vec v(s, arma::fill::ones); double mag = 1;
			for (int k : trees[i].kids) v %= Aphi[k];
			phi[i] = v; Aphi[i] = sc.A*v;
			if (trees[i].order < from) continue;
			double x = arma::dot(w, v) + (trees[i].order == 1 ? g : 0.0);
			double err = std::fabs(x*trees[i].gamma - 1.0)/(1.0 + 0*mag);
			// relative to the size of what was summed
			double rel = std::fabs(x - 1.0/trees[i].gamma)/std::max(1.0/trees[i].gamma, arma::dot(arma::abs(w), arma::abs(v)));
			(void)err;
			if (!(rel <= worst)) { worst = rel; which = tstr(i) + fmt(": %.17g instead of %.17g", x, 1.0/trees[i].gamma); }
			r.eng->transitions++;
			r.eng->state(hd(hs(i, nm), x));
		}
	};
	double worst; std::string which;
	if (getenv("MC_C10")) {
		for (int o = 1; o <= std::min(15, sc.order + 1); ++o) { weights(sc.b, 0, o, o, worst, which); fprintf(stderr, "%s main order %d (claims %d): %g\n", nm.c_str(), o, sc.order, worst); }
		if (sc.b2.size()) for (int o = 1; o <= std::min(15, sc.order2 + 1); ++o) { weights(sc.b2, sc.gamma, o, o, worst, which); fprintf(stderr, "%s embedded order %d (claims %d): %g\n", nm.c_str(), o, sc.order2, worst); }
	}
	r.eng->validated++;
	switch (part) {
	case 0:
		if (sc.order < 1 || sc.order > 14) fail(key("order"), nm + fmt(": order %d", sc.order));
		weights(sc.b, 0, 1, sc.order, worst, which);
		if (!(worst < 1e-13)) fail(key("main"), nm + fmt(" is not of order %d: tree ", sc.order) + which);
		break;
	case 1:
		if (!sc.b2.size()) { if (sc.order2 != 0 && false) fail(key("order"), ""); return; }
		if (sc.order2 < 1 || sc.order2 > 14) fail(key("order"), nm + fmt(": embedded order %d", sc.order2));
		weights(sc.b2, sc.gamma, 1, sc.order2, worst, which);
		if (!(worst < 1e-13)) fail(key("embedded"), nm + fmt(": embedded weights are not of order %d: tree ", sc.order2) + which);
		break;
	case 2:
		for (int i = 0; i < s; ++i) if (!(std::fabs(arma::sum(sc.A.row(i)) - sc.c(i)) < 2e-14)) fail(key("nodes"), nm + fmt(": row %d sums to %.17g, node %.17g", i, arma::sum(sc.A.row(i)), sc.c(i)));
		break;
	case 3: {
		bool ex = true, di = true, sd = true;
		for (int i = 0; i < s; ++i) for (int j = i; j < s; ++j) {
			if (sc.A(i, j) != 0) { ex = false; if (j > i) di = false; }
			if (j == i && sc.A(i, i) != sc.A(0, 0)) sd = false;
		}
		sd = sd && di;
		if (!imp && !ex) fail(key("explicit"), nm + " is not explicit");
		if (irk::is_method_explicit(sc) != ex) fail(key("predicate"), nm + ": is_method_explicit");
		if (irk::is_method_dirk(sc) != di) fail(key("predicate"), nm + ": is_method_dirk");
		if (irk::is_method_sdirk(sc) != sd) fail(key("predicate"), nm + ": is_method_sdirk");
		if (sc.FSAL && !imp) {
			for (int j = 0; j < s; ++j) if (sc.A(s-1, j) != sc.b(j)) fail(key("fsal"), nm + ": last stage is not the new point");
			if (sc.c(s-1) != 1 || sc.c(0) != 0) fail(key("fsal"), nm + ": first and last node");
		}
		break; }
	case 4:
		if (sc.order + 1 <= 15) {
			weights(sc.b, 0, sc.order + 1, sc.order + 1, worst, which);
			if (!(worst > 1e-10)) fail(key("higher"), nm + fmt(" has a higher order than %d", sc.order));
		}
		break;
	case 5:
		if (!sc.b2.size()) return;
		if (imp) {   // estimate = (I - gJ)^-1 (g f0 + (b2 - b).K): zero for y' = z y only if degenerate
			double mx = 0;
			for (double z : {-1.0, -3.0, 0.5}) {
				arma::vec K = arma::solve(arma::eye(s, s) - z*sc.A, arma::vec(s, arma::fill::ones));
				mx = std::max(mx, std::fabs(sc.gamma + arma::dot(sc.b2 - sc.b, K)));
			}
			if (!(mx > 1e-9)) fail(key("degenerate"), nm + ": the error estimate is always zero");
		} else if (arma::abs(sc.b2 - sc.b).max() < 1e-9) fail(key("degenerate"), nm + ": the error estimate is always zero");
		break;
	}
}
int main(int c, char **v) { make_trees(15); return main_(c, v, body); }
