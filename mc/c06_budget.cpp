// C06: a limit of M steps gives the first M steps.
#include "integ.hpp"
using namespace mc;

static void body(Run &r)
{
	bool th = r.eng->thorough();
	auto im = irk_methods(); auto em = erk_methods();
	int k = r.cfg(im.size() + em.size());
	Case c; c.imp = k < (int)im.size(); c.method = c.imp ? im[k] : em[k - im.size()];
	std::vector<int> probs = {DECAY, CHAIN3, PULSE, VDP, RAMP, RING19, HARM, STIFF2};
	if (!th) probs.resize(6);
	int id = r.of(probs);
	if (id == STIFF2 && !c.imp) id = OSC5;
	std::vector<std::pair<double,double>> spans = {{0, 1}, {-0.3, 2}, {5, 5.5}, {0, 9}}; if (!th) spans.resize(3);
	auto sp = r.of(spans); c.t0 = sp.first; c.t1 = sp.second; double L = c.t1 - c.t0;
	c.adaptive = r.cfg(2) == 0;
	std::vector<double> dts = {0.1*L, L, 1e-3*L, L/17}; c.dt = r.of(dts);
	const bool lng = c.dt == L/17 && c.t0 == 0 && L == 1 && (id == DECAY || id == CHAIN3);    // very many steps
	if (lng && !c.adaptive) c.dt = c.imp ? 1/2049.5 : 1/(th ? 70000.5 : 9000.5);
	if (lng && c.adaptive) { c.max_dt = c.dt = c.imp ? 1/1030.5 : 1/4100.5; }
	if (!lng && !c.really_adaptive() && c.dt < L/30) c.dt = L/23;
	if (c.adaptive) { std::vector<double> tols = {1e-4, 1e-6}; c.rtol = c.atol = r.of(tols); }
	std::vector<std::size_t> ks = {1, 3}; c.interval = r.of(ks);
	bool slow = c.imp && r.cfg(2) == 1; if (slow) c.nmaxit = 5;   // Newton rejections
	if (!th && id == RING19 && (c.t0 != 0 || slow)) { r.desc = "only in part"; r.begin(); return; }
	// more steps than a narrow counter holds
	const bool vlng = lng && !c.adaptive && id == DECAY && c.interval == 3 && !slow;
	if (vlng) c.dt = 1/66000.5;
	Prob p = make_prob(id, c.t0 + 0.4*L, 20); p.horizon = 100000000;
	r.desc = c.str(p);
	r.begin();
	Case b = c; b.interval = 1;
	Sol s = integrate(b, p);
	long N = (long)s.t.size() - 1;
	std::vector<long> Ms; for (long i = -1; i <= std::min(N, 150L) + 1; ++i) Ms.push_back(i);
	if (lng) Ms = {-1, 0, 1, 127, 128, 255, 256, 257, 999, 1000, 1001, 1023, 1024, N - 1, N, N + 1};
	if (vlng) Ms = {-1, 32767, 32768, 32800, 65535, 65536, 65600, N - 1};
	// limits that are not what they seem to a narrower integer
	if (c.dt == 0.1*L && c.t0 == 0 && !slow && c.interval == 1) for (long i : {2147483647L, 2147483648L, 4294967295L, 4294967296L, 4294967299L, LONG_MAX, -2L, -4294967293L, LONG_MIN}) Ms.push_back(i);
	// the limit: 0 = none, then 0 .. N+1
	long M = Ms[r.dev((int)Ms.size())];
	c.max_steps = M;
	Sol q = integrate(c, p);
	r.desc = c.str(p);
	visit(r, q);
	r.eng->outcome(hmix(q.status, q.t.size()));
	long full = (long)s.t.size() - 1;
	long want = M < 0 ? full : std::min(M, full);
	int st = s.status;
	if (M >= 0 && M < full) st = ERROR_MAX_STEPS_EXCEEDED;
	if (q.status != st && !(M == full && s.status != SUCCESS && q.status == ERROR_MAX_STEPS_EXCEEDED))
		fail("status", fmt("limit %ld, %ld steps without: status %d, expected %d", M, full, q.status, st));
	std::vector<std::size_t> idx;
	for (long i = 0; i <= want; ++i) if (i % (long)c.interval == 0) idx.push_back(i);
	if (q.t.size() != idx.size() || q.y.size() != idx.size() || q.stages.size() != idx.size() || q.err.size() != idx.size() || q.err_est.size() != idx.size())
		fail("steps", fmt("limit %ld, %ld steps without: %ld outputs, expected %zu", M, full, (long)q.t.size(), idx.size()));
	for (std::size_t j = 0; j < idx.size(); ++j) {
		std::size_t i = idx[j];
		if (q.t[j] != s.t[i] || arma::any(q.y[j] != s.y[i]) || q.err[j] != s.err[i])
			fail("prefix", fmt("limit %ld: output %zu is t=%.17g ", M, j, q.t[j]) + vs(q.y[j]) + fmt(", without limit t=%.17g ", s.t[i]) + vs(s.y[i]));
	}
}
int main(int c, char **v) { return main_(c, v, body, 1, 1); }
