// C25: the timer under a clock the explorer owns.  Part 0: every sequence of
// operations on two timers and of clock increments up to a depth, against a
// reference.  Part 1: the timing breakdown for every combination of timings.
// Part 2: integrations whose right-hand side makes the clock advance.
#include "rk.hpp"
#include <sys/syscall.h>
#include <sys/time.h>
using namespace mc;

static bool fake = false;
static long long us = 0;          // the fake clock
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
	if (fake) { tv->tv_sec = us/1000000; tv->tv_usec = us % 1000000; return 0; }
	return (int)syscall(SYS_gettimeofday, tv, nullptr);
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
	if (fake) { ts->tv_sec = us/1000000; ts->tv_nsec = 1000*(us % 1000000); return 0; }
	return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" time_t time(time_t *t) noexcept { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
struct Fake { Fake() { fake = true; } ~Fake() { fake = false; } };

static bool close_(double got, double want, double rel = 1e-9) { return std::fabs(got - want) <= rel*std::fabs(want) + 1e-6; }

static void timers(Run &r)
{
	static const std::vector<long long> starts = {1700000000400000LL, 999999LL, 1999999LL};
	static const std::vector<long long> incs = {1, 600000, 999999, 1000000, 86400000000LL + 7, -1300001};
	static const char *ops[] = {"A.tic", "B.tic", "A.toc()", "A.toc(m)", "A.toc(m,p)", "B.toc()", "save A", "A.elapsed(saved)", "B.elapsed(saved)", "A.output(other)", "A.output off", "B.output on"};
	int depth = r.eng->thorough() ? 6 : 5;
	long long start = r.of(starts);
	std::vector<int> seq; r.desc = fmt("clock %lld us:", start);
	int n = 12 + (int)incs.size();
	for (int i = 0; i < depth; ++i) { int k = r.cfg(n); seq.push_back(k); r.desc += k < 12 ? fmt(" %s", ops[k]) : fmt(" +%lld", incs[k - 12]); }
	r.begin();
	Fake f; us = start;
	std::ostringstream o1, o2, b1; std::ostringstream *oa = &o1, *ob = nullptr;
	my_timer A(o1), B;
	long long ta = us, tb = us, ts = us; timeval saved = A.get_tic();
	std::uint64_t h = hmix(7, start);
	auto toc = [&](my_timer &T, long long t, std::ostringstream *o, int how) {
		std::string before1 = o1.str(), before2 = o2.str(), before3 = b1.str(), was = o ? o->str() : "";
		double want = 1e-3*(us - t), got = how == 0 ? T.toc() : how == 1 ? T.toc("Some message") : T.toc("Some message", "and more");
		if (!close_(got, want)) fail("toc", r.desc + fmt(": %.17g ms instead of %.17g", got, want));
		for (auto *q : {&o1, &o2, &b1}) if (q != o) { if (q->str() != (q == &o1 ? before1 : q == &o2 ? before2 : before3)) fail("printed", r.desc + ": printed to another stream: " + q->str()); }
		if (o) {
			std::string line = o->str().substr(was.size());
			if (o->str().compare(0, was.size(), was) != 0 || line.empty() || line.back() != '\n') fail("printed", r.desc + ": printed '" + line + "'");
			std::string p = how ? "Some message: " : "";
			double ms = -1, s = -1; int used = 0;
			if (line.compare(0, p.size(), p) != 0 || std::sscanf(line.c_str() + p.size(), "%lf ms elapsed (%lf s).%n", &ms, &s, &used) != 2 || !used) fail("printed", r.desc + ": printed '" + line + "'");
			std::string rest = line.substr(p.size() + used);
			if (rest != (how == 2 ? " and more\n" : "\n")) fail("printed", r.desc + ": printed '" + line + "'");
			if (!close_(ms, want, 1e-5) || !close_(s, 1e-3*want, 1e-5)) fail("printed", r.desc + fmt(": printed '%s' for %.17g ms", line.c_str(), want));
		}
		h = hd(h, got);
	};
	auto elapsed = [&](my_timer &T) { double g = T.get_elapsed(saved), w = 1e-3*(us - ts); if (!close_(g, w)) fail("elapsed", r.desc + fmt(": %.17g ms instead of %.17g", g, w)); h = hd(h, g); };
	for (int k : seq) {
		switch (k) {
		case 0: A.tic(); ta = us; break;
		case 1: B.tic(); tb = us; break;
		case 2: case 3: case 4: toc(A, ta, oa, k - 2); break;
		case 5: toc(B, tb, ob, 0); break;
		case 6: saved = A.get_tic(); ts = ta; break;
		case 7: elapsed(A); break;
		case 8: elapsed(B); break;
		case 9: A.enable_output(o2); oa = &o2; break;
		case 10: A.disable_output(); oa = nullptr; break;
		case 11: B.enable_output(b1); ob = &b1; break;
		default: us += incs[k - 12]; break;
		}
		h = hmix(h, k); r.eng->state(hmix(hmix(hmix(us, ta), hmix(tb, ts)), (oa == &o2) + 2*(oa == nullptr) + 4*(ob != nullptr)));
		r.eng->transitions++;
	}
	elapsed(A); toc(A, ta, oa, 1); toc(B, tb, ob, 2);
	timeval q = B.get_tic(); if (q.tv_sec*1000000LL + q.tv_usec != tb) fail("get_tic", r.desc);
	r.eng->validated++;
}

struct Line { std::string label; double t, pct; };
static std::vector<Line> parse(const std::string &s, std::string &head, const std::string &where)
{
	std::istringstream in(s); std::string l; std::vector<Line> v;
	std::getline(in, head);
	while (std::getline(in, l)) {
		std::size_t c = l.find(':'), b = l.find('|'); if (c == std::string::npos || b == std::string::npos || b < c) fail("format", where + ": line '" + l + "'");
		std::size_t a = l.find_first_not_of(' ');
		Line x; x.label = l.substr(a, c - a); char *e; std::string num = l.substr(c + 1, b - c - 1), pc = l.substr(b + 1);
		x.t = std::strtod(num.c_str(), &e); if (e == num.c_str()) fail("format", where + ": line '" + l + "'");
		x.pct = std::strtod(pc.c_str(), &e); if (e == pc.c_str()) fail("format", where + ": line '" + l + "'");
		v.push_back(x);
	}
	return v;
}
static void breakdown(Run &r)
{
	static const std::vector<double> all = {0, 0.25, 3, 160, 999, 1234.5, 7.5e6};
	std::vector<double> al(all.begin(), all.begin() + (r.eng->thorough() ? 7 : 6));
	std::vector<double> t; for (int i = 0; i < 6; ++i) t.push_back(r.of(al));
	static const std::vector<int> precs = {6, 17, 3}; static const std::vector<const char *> names = {"RADAU_IIA_53", ""};
	int prec = r.of(precs); const char *name = r.of(names);
	r.desc = fmt("breakdown of %g %g %g %g %g %g, precision %d, name '%s'", t[0], t[1], t[2], t[3], t[4], t[5], prec, name); r.begin();
	std::ostringstream o; o.precision(prec);
	std::vector<double> keep = t;
	irk::print_timing_breakdown(t, o, name);
	r.eng->transitions++; r.eng->validated++; r.eng->state(hs(5, r.desc));
	if (keep != t) fail("argument", r.desc + ": timings changed");
	double total = 0; for (double x : t) total += x;
	std::string text = o.str(), head; std::vector<Line> v = parse(text, head, r.desc);
	double scale = total > 1000 ? 1e-3 : 1;
	if (head.find(name) == std::string::npos || head.find(total > 1000 ? "( s |" : "(ms |") == std::string::npos) fail("unit", r.desc + ": header '" + head + "'");
	static const char *labels[] = {"Total time", "Vector setup", "Stages update", "Solution update", "Store solution", "Error estimate", "Calculate optimal step"};
	if (v.size() != 7) fail("format", r.desc + fmt(": %zu lines", v.size()));
	for (int i = 0; i < 7; ++i) {
		double want = i ? t[i - 1] : total;
		if (v[i].label != labels[i]) fail("format", r.desc + ": label " + v[i].label);
		if (std::fabs(v[i].t - scale*want) > 6e-3*scale*want) fail("time", r.desc + ": " + labels[i] + fmt(" %g instead of %g", v[i].t, scale*want));
		if (total > 0 && std::fabs(v[i].pct - 100*want/total) > 0.6e-2*100*want/total) fail("percentage", r.desc + ": " + labels[i] + fmt(" %g instead of %g", v[i].pct, 100*want/total));
	}
	if (o.precision() != prec) fail("precision-changed", r.desc);
	o << 1.23456789; std::ostringstream p; p.precision(prec); p << 1.23456789;
	if (o.str() != text + p.str()) fail("stream-state", r.desc + ": later output is formatted differently");
}
static void integrations(Run &r)
{
	static const std::vector<long long> per = {1, 999, 1000, 333333, 1000001};
	bool imp = r.cfg(2); std::vector<int> ms = imp ? irk_methods() : erk_methods(); Case c; c.imp = imp; c.method = r.of(ms);
	static const std::vector<int> ps = {HARM, CHAIN3, PULSE, VDP}; int id = r.of(ps); long long inc = r.of(per); c.adaptive = r.cfg(2); c.time_internals = r.cfg(2); c.dt = c.adaptive ? 0.2 : 0.05; c.rtol = c.atol = 1e-5;
	long long start = r.of(std::vector<long long>{0, 1700000000999999LL}); c.interval = 1 + r.cfg(2);
	int gives_up = r.cfg(3);         // reaches the end, stops at its limit, gets no more answers
	if (gives_up == 1) c.max_steps = 4;
	Prob p = make_prob(id, 0.43, 50.0);
	r.desc = c.str(p) + fmt(", %lld us per call, clock %lld, internals %d", inc, start, c.time_internals); r.begin();
	us = start;
	p.hook = [&](long k, bool, double, const arma::vec &, arma::vec *v, arma::mat *) { us += inc; if (v && gives_up == 2 && k > 25) v->fill(NAN); };
	std::ostringstream err; auto *old = std::cerr.rdbuf(err.rdbuf());
	Sol s; { Fake f; try { s = integrate(c, p); } catch (...) { std::cerr.rdbuf(old); fake = false; throw; } }
	std::cerr.rdbuf(old);
	r.eng->transitions++; r.eng->validated++; r.eng->state(hd(hs(6, r.desc), s.elapsed));
	if (gives_up == 0 && s.status != SUCCESS) fail("status", r.desc);
	double want = 1e-3*(us - start);
	if (!close_(s.elapsed, want)) fail("elapsed-time", r.desc + fmt(": elapsed time %.17g, the calls took %.17g ms", s.elapsed, want));
	std::string e = err.str(); std::size_t k = e.find("timings (");
	if (c.imp != true || !c.time_internals) { if (k != std::string::npos) fail("unasked", r.desc); return; }
	if (k == std::string::npos) fail("no-breakdown", r.desc);
	k = e.rfind('\n', k); k = k == std::string::npos ? 0 : k + 1;
	std::string head; std::vector<Line> v = parse(e.substr(k), head, r.desc);
	double sc = want > 1000 ? 1e-3 : 1, sum = 0;
	if (v.size() != 7) fail("format", r.desc);
	for (std::size_t i = 1; i < v.size(); ++i) sum += v[i].t;
	if (std::fabs(v[0].t - sc*want) > 1e-2*sc*want) fail("breakdown-total", r.desc + fmt(": total %g, the calls took %g", v[0].t, sc*want));
	if (std::fabs(sum - sc*want) > 2e-2*sc*want) fail("breakdown-sum", r.desc + fmt(": parts %g, the calls took %g", sum, sc*want));
}
static void body(Run &r) { switch (r.cfg(3)) { case 0: timers(r); break; case 1: breakdown(r); break; default: integrations(r); } }
int main(int argc, char **argv) { return main_(argc, argv, body); }
