// C17: all operation sequences up to a depth on two cyclic buffers, against std::deque.
#include "mc.hpp"
#include <algorithm>
#include <deque>
#include <armadillo>
#include "cyclic_buffer.hpp"
using namespace mc;

template <typename T> struct Val;
template <> struct Val<int> { static int make(int k) { return 1000 + k; } static bool eq(int a, int b) { return a == b; } static const char *name() { return "int"; } };
template <> struct Val<std::string> { static std::string make(int k) { return "a string that is long enough not to be stored inline " + std::to_string(k); }
	static bool eq(const std::string &a, const std::string &b) { return a == b; } static const char *name() { return "string"; } };
template <> struct Val<arma::vec> { static arma::vec make(int k) { return arma::vec{double(k), -1.0*k, 0.5*k}; }
	static bool eq(const arma::vec &a, const arma::vec &b) { return a.n_elem == b.n_elem && (a.n_elem == 0 || arma::approx_equal(a, b, "absdiff", 0.0)); } static const char *name() { return "vec"; } };

template <typename T> struct Model { std::deque<T> q; std::size_t cap = 0; };   // front = most recent

static const char *OPS[] = {"push", "push", "push-newest", "push-oldest", "write[0]", "write[last]", "write-begin", "a=b", "b=a", "a=a", "resize", "copy", "swap", "resize-smaller", "assign-fresh"};
enum { PUSH, PUSHX, PUSHNEW, PUSHOLD, W0, WLAST, WIT, AB, BA, AA, RESIZE, COPY, SWAP, RESIZE1, FRESH };

template <typename T>
static void check(const cyclic_buffer<T> &cb, cyclic_buffer<T> &b, const Model<T> &m, const std::vector<int> &ops, int upto, int first, const char *which)
{
	typedef Val<T> V;
	auto at = [&]() { std::string s = fmt("%d pushes", first); for (int i = 0; i <= upto; ++i) s += std::string(", ") + OPS[ops[i]]; return s + which; };
	if (b.size() != m.q.size()) fail("size", at() + fmt(": size %zu instead of %zu", b.size(), m.q.size()));
	if (b.period() != m.cap) fail("period", at() + fmt(": period %zu instead of %zu", b.period(), m.cap));
	if (b.empty() != m.q.empty()) fail("empty", at());
	if (b.storage().size() < b.size()) fail("storage", at());
	for (std::size_t i = 0; i < m.q.size(); ++i) {
		if (!V::eq(b[i], m.q[i])) fail("index", at() + fmt(": element %zu is wrong", i));
		if (!V::eq(cb[i], m.q[i])) fail("const-index", at() + fmt(": element %zu is wrong", i));
	}
	std::size_t n = 0;
	for (auto it = b.begin(); it != b.end(); ++it, ++n) {
		if (n >= m.q.size()) fail("iterate-too-far", at());
		if (!V::eq(*it, m.q[n])) fail("iterate", at() + fmt(": element %zu is wrong", n));
		if (it == b.end()) fail("iterator-equal", at());
		const auto cit = it;
		if (!V::eq(*cit, m.q[n])) fail("const-iterator", at());
	}
	if (n != m.q.size()) fail("iterate-too-short", at() + fmt(": %zu of %zu", n, m.q.size()));
	n = 0;
	for (auto &x : b) { if (n >= m.q.size() || !V::eq(x, m.q[n])) fail("range-for", at()); ++n; }
	if (n != m.q.size()) fail("range-for", at());
}

template <typename T>
static void run(Run &r, int capa, int capb, const std::vector<int> &ops, int first)
{
	typedef Val<T> V;
	int next = 0;
	cyclic_buffer<T> a0(capa), b0;
	if (capb >= 0) b0 = cyclic_buffer<T>(capb);
	cyclic_buffer<T> *a = &a0, *b = &b0; cyclic_buffer<T> c;
	Model<T> ma, mb; ma.cap = capa; mb.cap = capb < 0 ? 0 : capb;
	auto push = [&](cyclic_buffer<T> &x, Model<T> &m, const T &v) {
		T keep = v;                       // v may refer to an element
		x.push_back(v); m.q.push_front(keep); if (m.q.size() > m.cap) m.q.pop_back();
	};
	for (int i = 0; i < first; ++i) push(*a, ma, V::make(next++));
	check(*a, *a, ma, ops, -1, first, " [a]");
	for (int k = 0; k < (int)ops.size(); ++k) {
		int op = ops[k];
		switch (op) {
		case PUSH: push(*a, ma, V::make(next++)); break;
		case PUSHX: push(*b, mb, V::make(next++)); break;
		case PUSHNEW: if (!ma.q.empty()) push(*a, ma, (*a)[0]); break;
		case PUSHOLD: if (!ma.q.empty()) push(*a, ma, (*a)[ma.q.size() - 1]); break;
		// A write goes to the element that is read: it lasts until it is overwritten by the next push
		case W0: if (!ma.q.empty()) { T v = V::make(next++); (*a)[0] = v; ma.q[0] = v; } break;
		case WLAST: if (!ma.q.empty()) { T v = V::make(next++); (*a)[ma.q.size() - 1] = v; ma.q.back() = v; } break;
		case WIT: if (!ma.q.empty()) { T v = V::make(next++); auto it = a->begin(); *it = v; ma.q[0] = v; } break;
		case AB: *a = *b; ma = mb; break;
		case BA: *b = *a; mb = ma; break;
		case AA: { auto &s = *a; *a = s; break; }
		case RESIZE: a->resize(ma.cap + 2); ma.cap += 2; ma.q.clear(); break;
		case RESIZE1: { std::size_t n = ma.cap > 1 ? ma.cap - 1 : 1; a->resize(n); ma.cap = n; ma.q.clear(); break; }
		case COPY: { cyclic_buffer<T> d(*a); Model<T> md = ma; check(d, d, md, ops, k, first, " [copy]");
			push(d, md, V::make(next++)); push(d, md, V::make(next++)); check(d, d, md, ops, k, first, " [copy after pushes]"); break; }
		case SWAP: std::swap(a, b); std::swap(ma, mb); break;
		case FRESH: { cyclic_buffer<T> d(2); Model<T> md; md.cap = 2; push(d, md, V::make(next++)); *b = d; mb = md; break; }
		}
		check(*a, *a, ma, ops, k, first, " [a]");
		check(*b, *b, mb, ops, k, first, " [b]");
		r.eng->transitions++;
		std::uint64_t h = hmix(hmix(ma.cap, a->current()), ma.q.size()); h = hmix(hmix(hmix(h, mb.cap), b->current()), mb.q.size());
		for (std::size_t i = 0; i < ma.q.size(); ++i) for (std::size_t j = 0; j < i; ++j) h = hmix(h, V::eq(ma.q[i], ma.q[j]));
		for (std::size_t i = 0; i < ma.q.size(); ++i) for (std::size_t j = 0; j < mb.q.size(); ++j) h = hmix(h, V::eq(ma.q[i], mb.q[j]));
		r.eng->state(h);
	}
	r.eng->validated++;
}

static void body(Run &r)
{
	bool th = r.eng->thorough();
	int type = r.cfg(3), mode = r.cfg(2);
	int depth = mode ? 1 : (type == 0 ? (th ? 5 : 4) : (th ? 4 : 3));
	static std::vector<int> alphabet = {PUSH, PUSHX, PUSHNEW, PUSHOLD, W0, WLAST, WIT, AB, BA, AA, RESIZE, RESIZE1, COPY, SWAP, FRESH};
	int capa, capb, first = 0; std::vector<int> ops;
	if (mode) {       // long runs: every capacity, every number of insertions
		capa = 1 + r.cfg(th ? 40 : 16); capb = r.cfg(4);
		first = r.cfg(5*capa + 2);
	} else {
		capa = 1 + r.cfg(3); capb = r.cfg(4) - 1;
		first = r.cfg(2)*(capa + 1);
	}
	ops.push_back(alphabet[r.cfg((int)alphabet.size())]);
	r.begin();          // the rest: all sequences (no bound on deviations), explored within the shard
	for (int i = 1; i < depth; ++i) ops.push_back(alphabet[r.dev((int)alphabet.size())]);
	r.desc = fmt("two buffers, capacities %d and %d, %d pushes, then:", capa, capb, first);
	for (int o : ops) r.desc += std::string(" ") + OPS[o];
	if (type == 0) run<int>(r, capa, capb, ops, first);
	else if (type == 1) run<std::string>(r, capa, capb, ops, first);
	else run<arma::vec>(r, capa, capb, ops, first);
}
int main(int argc, char **argv) { return main_(argc, argv, body, 99, 99); }
