// C09: output options.
#include "integ.hpp"
#include "logs.hpp"
#include <memory>
using namespace mc;

// the log of q must tell of the steps s (all of them) with every n-th of them
static void check_log(const Case &c, const Sol &s, const Sol &q, const std::string &text, int n)
{
	auto L = log_lines(text);
	if (n <= 0) { if (!L.empty()) fail("log", "log was not asked for, but has the line \"" + L[0].text + "\""); return; }
	std::size_t pos = 0, rejected = 0;
	const double top = 1.0;
	for (std::size_t i = 0; i + 1 < s.t.size() + (s.status != 0); i += n) {
		bool done = false;
		double h = i + 1 < s.t.size() ? s.t[i+1] - s.t[i] : 0, dh = 4.6e-16*(std::fabs(s.t[i]) + h);
		while (pos < L.size() && L[pos].step == (long)i && !done) {
			const Line &l = L[pos++];
			if (!(std::fabs(l.v[0] - s.t[i]) <= 1e-15*std::fabs(s.t[i]))) fail("log", "line \"" + l.text + fmt("\", but step %zu starts at %.17g", i, s.t[i]));
			bool acc = !c.really_adaptive() || l.v[2] < top;
			if (!acc) { ++rejected; continue; }
			done = true;
			if (i + 1 >= s.t.size()) fail("log", "line \"" + l.text + "\" is of a step that was not taken");
			if (!(std::fabs(l.v[1] - h) <= dh)) fail("log", "line \"" + l.text + fmt("\", but step %zu is %.17g long", i, h));
			if (!(std::fabs(l.v[2] - s.err[i+1]) <= 1e-15*s.err[i+1])) fail("log", "line \"" + l.text + fmt("\", but the error of step %zu is %.17g", i, s.err[i+1]));
			if (c.imp && !(l.v.size() > 3 && l.v[3] >= 1)) fail("log", "line \"" + l.text + "\" has no number of iterations");
		}
		if (!done && i + 1 < s.t.size()) fail("log", fmt("no line for step %zu in ", i) + text.substr(0, 300));
	}
	if (pos != L.size()) fail("log", "line \"" + L[pos].text + fmt("\" is not due with an interval of %d", n));
	if (n == 1 && rejected != q.rej_err) fail("log", fmt("log tells of %zu rejected steps, counted are %zu", rejected, q.rej_err));
}

// part 2: every sequence of calls on the output options, against two flags
static void options(Run &r)
{
	bool th = r.eng->thorough();
	Case c; c.imp = r.cfg(2); c.method = c.imp ? (int)irk::RADAU_IIA_53 : (int)erk::BOGACKI_SHAMPINE_32; c.dt = 0.4;
	std::vector<int> ops; std::string names;
	for (int d = 0; d < (th ? 6 : 5); ++d) {
		int o = r.cfg(6); if (!o) break;
		ops.push_back(o); names += std::string(1, ".ABvVc"[o]);
	}
	r.desc = "output options after " + names + (c.imp ? " (implicit)" : " (explicit)");
	r.begin();
	Prob p = make_prob(HARM), p2 = p;
	Sol s = integrate(c, p);
	std::ostringstream a, b, ref; a.precision(17); b.precision(17); ref.precision(17);
	output_options oo; std::vector<std::unique_ptr<output_options>> copies; output_options *o = &oo;
	bool store = true; int to = 0;
	for (int k : ops) {
		if (k == 1) { o->set_output_stream(a); to = 1; }
		if (k == 2) { o->set_output_stream(b); to = 2; }
		if (k == 3) { o->disable_store_in_vectors(); store = false; }
		if (k == 4) { o->enable_store_in_vectors(); store = true; }
		if (k == 5) { copies.emplace_back(new output_options(*o)); o = copies.back().get(); }
		r.eng->transitions++;
		r.eng->state(hmix(store, to));
		if (o->store_in_vectors() != store) fail("options", fmt("storing in memory is %d, expected %d", (int)o->store_in_vectors(), (int)store));
		if (o->write_to_file() != (to != 0)) fail("options", fmt("writing to the stream is %d, expected %d", (int)o->write_to_file(), (int)(to != 0)));
	}
	Sol q;
	if (c.imp) {
		irk::solver_options so = irk::default_solver_options(); newton::options no; no.tol = c.ntol; no.dx_delta = c.ndx; no.maxit = c.nmaxit; no.refresh_jac = c.nrefresh;
		so.newton_opts = &no; so.rel_tol = c.rtol; so.abs_tol = c.atol;
		q = from(irk::odeint(p2, c.t0, c.t1, p2.y0, so, *o, c.method, c.dt));
	} else {
		erk::solver_options so = erk::default_solver_options(); so.rel_tol = c.rtol; so.abs_tol = c.atol;
		q = from(erk::odeint(p2, c.t0, c.t1, p2.y0, so, *o, c.method, c.dt));
	}
	r.eng->validated++;
	for (std::size_t i = 1; i < s.t.size(); ++i) { ref << s.t[i]; for (double v : s.y[i]) ref << " " << v; ref << "\n"; }
	if (a.str() != (to == 1 ? ref.str() : "")) fail("options", "stream A holds \"" + a.str().substr(0, 200) + "\"");
	if (b.str() != (to == 2 ? ref.str() : "")) fail("options", "stream B holds \"" + b.str().substr(0, 200) + "\"");
	if (q.t.size() != (store ? s.t.size() : 1) || q.y.size() != q.t.size()) fail("options", fmt("%zu states in memory, the integration has %zu", q.t.size(), s.t.size()));
	for (std::size_t i = 0; i < q.t.size(); ++i) if (q.t[i] != s.t[i] || arma::any(q.y[i] != s.y[i])) fail("options", fmt("state %zu differs", i));
	r.eng->outcome(hmix(hs(store, a.str()), hs(to, b.str())));
}

static void body(Run &r)
{
	if (r.cfg(2)) { options(r); return; }
	bool th = r.eng->thorough();
	auto im = irk_methods(); auto em = erk_methods();
	int k = r.cfg(im.size() + em.size());
	Case c; c.imp = k < (int)im.size(); c.method = c.imp ? im[k] : em[k - im.size()];
	std::vector<int> probs = {DECAY, CHAIN3, PULSE, RING19, SIZES3, VDP}; if (!th) probs.resize(5);
	int id = r.of(probs);
	std::vector<std::pair<double,double>> spans = {{0, 1}, {-0.3, 2.2}}; 
	auto sp = r.of(spans); c.t0 = sp.first; c.t1 = sp.second; double L = c.t1 - c.t0;
	c.adaptive = r.cfg(2) == 0;
	std::vector<double> dts = {0.1*L, L, 1e-3*L}; c.dt = r.of(dts);
	const bool lng = c.dt == L && id == DECAY;      // very many steps
	if (lng) c.dt = c.max_dt = L/(c.imp ? 1300 : 6007);
	if (!lng && !c.really_adaptive() && c.dt < L/30) c.dt = L/23;
	std::vector<long long> lim = {-1, 7}; c.max_steps = r.of(lim);
	Case b = c;
	std::vector<std::size_t> ks = {1, 2, 3, 5, 7, 100000}; if (lng) ks = {1, 97, 1000, 256}; c.interval = r.of(ks);
	bool stream = r.cfg(2); c.store = r.cfg(2) == 0;
	std::vector<int> li = {0, 1, 3, 10}; if (lng) li = {0, 100, 256}; c.out_interval = r.of(li);
	c.time_internals = r.cfg(2);
	std::vector<int> precs = {17, 6}; int prec = stream ? r.of(precs) : 17;
	bool sci = stream && th ? r.cfg(2) : 0;
	if (!th && (((id == RING19 || id == SIZES3) && (c.t0 != 0 || c.dt != L)) || (lng && prec != 17) || (lng && c.t0 != 0))) { r.desc = "only in part"; r.begin(); return; }
	Prob p = make_prob(id, c.t0 + 0.4*L, 20), p2 = p;
	r.desc = c.str(p) + fmt(" stream=%d store=%d log=%d time=%d prec=%d sci=%d", stream, c.store, c.out_interval, c.time_internals, prec, sci);
	r.begin();
	std::ostringstream os, ref; os.precision(prec); ref.precision(prec);
	if (sci) { os << std::scientific; ref << std::scientific; }
	os << "# head\n";
	ref << "# head\n";
	if (stream) c.stream = &os;
	Sol s = integrate(b, p), q; std::string log;
	{ Catch k; q = integrate(c, p2); log = c.imp ? k.o.str() : k.e.str(); }
	visit(r, q);
	r.eng->outcome(hmix(q.t.size(), hs(1, os.str())));
	if (s.status != q.status) fail("status", fmt("status %d, without these options %d", q.status, s.status));
	if (s.fun_evals != q.fun_evals || s.jac_evals != q.jac_evals || s.attempt != q.attempt || s.rej_err != q.rej_err || s.rej_newton != q.rej_newton || s.accept_frac != q.accept_frac)
		fail("counters", fmt("%zu evaluations in %zu attempts, without these options %zu in %zu", q.fun_evals, q.attempt, s.fun_evals, s.attempt));
	check_log(c, s, q, log, c.out_interval);
	std::vector<std::size_t> idx = {0};
	for (std::size_t i = c.interval; i < s.t.size(); i += c.interval) idx.push_back(i);
	if (stream) {
		for (std::size_t j = 1; j < idx.size(); ++j) {
			ref << s.t[idx[j]];
			for (double v : s.y[idx[j]]) ref << " " << v;
			ref << "\n";
		}
	}
	if (os.str() != ref.str()) fail("stream", "stream holds \"" + os.str().substr(0, 300) + "\", expected \"" + ref.str().substr(0, 300) + "\"");
	if (!c.store) idx.resize(1);
	if (q.t.size() != idx.size() || q.y.size() != idx.size() || q.stages.size() != idx.size() || q.err.size() != idx.size() || q.err_est.size() != idx.size())
		fail("selection", fmt("%zu outputs (%zu states, %zu stages), expected %zu of %zu", q.t.size(), q.y.size(), q.stages.size(), idx.size(), s.t.size()));
	for (std::size_t j = 0; j < idx.size(); ++j) {
		std::size_t i = idx[j];
		if (q.t[j] != s.t[i] || arma::any(q.y[j] != s.y[i]) || q.err[j] != s.err[i] || arma::any(q.err_est[j] != s.err_est[i]))
			fail("solution", fmt("output %zu is t=%.17g ", j, q.t[j]) + vs(q.y[j]) + fmt(", expected t=%.17g ", s.t[i]) + vs(s.y[i]));
		if (i && arma::any(q.stages[j] != s.stages[i])) fail("solution", fmt("stages of output %zu (t=%.17g) differ", j, q.t[j]));
	}
}
int main(int c, char **v) { return main_(c, v, body); }
