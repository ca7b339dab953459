// C21: the result of a call depends on its arguments alone.  A table of calls
// ("tasks") is run after every history of other calls, inside a right-hand
// side of every other call, and interleaved with every other call at the
// user's functor (coroutines under a controlled scheduler); the digest of
// everything a task returns must be that of the task alone in a new process.
#include "rk.hpp"
#include "systems.hpp"
#include "multistep.hpp"
#include <memory>
#include <sys/wait.h>
#include <ucontext.h>
using namespace mc;
using arma::vec; using arma::mat;

typedef std::function<void()> At;      // called at every call of a functor
struct UserError { int n; };

static std::uint64_t hv(std::uint64_t h, const vec &v) { h = hmix(h, v.n_elem); for (double x : v) h = hd(h, x); return h; }
static std::uint64_t hsol(const Sol &s)
{
	std::uint64_t h = hmix(11, s.status);
	for (double t : s.t) h = hd(h, t);
	for (auto *l : {&s.y, &s.stages, &s.err_est}) { h = hmix(h, l->size()); for (auto &v : *l) h = hv(h, v); }
	for (double e : s.err) h = hd(h, e);
	h = hd(h, s.accept_frac);
	for (std::size_t c : {s.attempt, s.rej_newton, s.rej_err, s.n_ok, s.n_div, s.n_iter, s.n_maxit, s.fun_evals, s.jac_evals}) h = hmix(h, c);
	return h;
}
static std::uint64_t hstream(std::ostream &o) { return hmix(hmix(o.precision(), o.width()), o.flags()); }

enum { T_RADAU53, T_LOB85, T_GAUSS, T_DOPRI, T_RK4, T_BS32_STREAM, T_AB4, T_BDF3, T_NEWTON, T_BROYDEN, T_WALL, T_THROW_ERK, T_THROW_IRK, T_MAXSTEPS, T_LOOKUP, T_JACOBI,
       T_AB_UNSUPPORTED, T_TIMED, T_NEWTON_FAIL, T_CASH_REJECT, T_EULER_FAIL, T_FEHLBERG, T_RADAU137, T_BDF6, T_RELAX, T_PLAIN_RK4, T_PLAIN_COEF, N_TASKS };
static const char *TN[] = {"radau53", "lobatto85", "gauss147 fixed", "dopri", "rk4", "bs32 to stream", "ab4", "bdf3", "newton", "broyden", "radau undefined", "erk throwing", "irk throwing",
	"max steps", "look-ups", "jacobi", "ab unsupported", "radau32 timed", "newton failing", "cash-karp rejecting", "implicit euler failing", "fehlberg", "radau137", "bdf6", "radau53 with few iterations", "rk4 asked to adapt", "coefficients of the methods without a pair"};

static std::uint64_t task(int id, const At &at)
{
	std::uint64_t h = id;
	Case c; c.rtol = c.atol = 1e-4; c.dt = 0.05; c.t0 = 0.25; c.t1 = 0.75;
	int prob = -1, throw_at = -1; double a = 0.4, b = 15;
	std::ostringstream so; std::ostream *stream = nullptr;
	switch (id) {
	case T_RADAU53: c.imp = true; c.method = irk::RADAU_IIA_53; prob = VDP; break;
	case T_LOB85: c.imp = true; c.method = irk::LOBATTO_IIIC_85; prob = CHAIN3; c.nrefresh = 1; break;
	case T_GAUSS: c.imp = true; c.method = irk::GAUSS_LEGENDRE_147; prob = LOGISTIC; c.adaptive = false; c.dt = 0.2; break;
	case T_DOPRI: c.method = erk::DORMAND_PRINCE_54; prob = CHAIN3; c.rtol = c.atol = 1e-7; break;
	case T_RK4: c.method = erk::RUNGE_KUTTA_4; prob = HARM; c.adaptive = false; c.dt = 0.08; break;
	case T_BS32_STREAM: c.method = erk::BOGACKI_SHAMPINE_32; prob = RAMP; stream = &so; c.interval = 2; break;
	case T_WALL: c.imp = true; c.method = irk::RADAU_IIA_32; prob = WALL; c.nmaxit = 5; a = 0.5; c.max_steps = 6; break;
	case T_THROW_ERK: c.method = erk::DORMAND_PRINCE_54; prob = HARM; throw_at = 12; break;
	case T_THROW_IRK: c.imp = true; c.method = irk::RADAU_IIA_53; prob = VDP; throw_at = 9; break;
	case T_MAXSTEPS: c.imp = true; c.method = irk::LOBATTO_IIIC_43 == -1 ? 0 : irk::RADAU_IIA_53; prob = CHAIN3; c.max_steps = 2; break;
	case T_TIMED: c.imp = true; c.method = irk::RADAU_IIA_32; prob = RAMP; c.time_internals = true; c.out_interval = 1; break;
	case T_CASH_REJECT: c.method = erk::CASH_KARP_54; prob = KICK; c.rtol = c.atol = 1e-5; c.dt = 0.3; break;
	case T_EULER_FAIL: c.imp = true; c.method = irk::IMPLICIT_EULER; prob = VDP; c.adaptive = false; c.dt = 0.1; c.nmaxit = 2; break;
	case T_RELAX: c.imp = true; c.method = irk::RADAU_IIA_53; prob = VDP; c.nmaxit = 3; c.t1 = 3.25; c.ntol = c.ndx = 1e-7; break;
	case T_PLAIN_RK4: c.method = erk::RUNGE_KUTTA_4; prob = CHAIN3; c.dt = 0.1; break;
	case T_FEHLBERG: c.method = erk::FEHLBERG_54; prob = OSC5; break;
	case T_RADAU137: c.imp = true; c.method = irk::RADAU_IIA_137; prob = STIFF2; c.dt = 0.2; break;
	}
	if (prob >= 0) {
		Prob p = make_prob(prob, a, b);
		p.hook = [&](long i, bool, double, const vec &, vec *, mat *) { at(); if (i == throw_at) throw UserError{(int)i}; };
		vec y0 = p.y0;
		c.stream = stream;
		if (id == T_MAXSTEPS) c.interval = 1;
		try { Sol s = integrate(c, p); h = hmix(h, hsol(s)); }
		catch (UserError &e) { h = hmix(h, 1000 + e.n); }
		h = hv(h, p.y0); if (arma::any(y0 != p.y0)) h = hmix(h, 666);
		h = hs(h, so.str()); h = hmix(h, hstream(so));
		h = hmix(hmix(h, p.fun_calls), p.jac_calls);
	} else if (id == T_AB4 || id == T_BDF3 || id == T_AB_UNSUPPORTED || id == T_BDF6) {
		Prob p = make_prob(id == T_AB4 ? RAMP : VDP); Ref ref(p);
		p.hook = [&](long, bool, double, const vec &, vec *, mat *) { at(); };
		multistep::solver_options o; o.order = id == T_AB4 ? 4 : id == T_BDF3 ? 3 : id == T_BDF6 ? 6 : 9;
		basic_output s; if (id == T_AB4 || id == T_AB_UNSUPPORTED) s = multistep::adams_bashforth(ref, 0.5, 0.9, p.y0, o, 0.05); else s = multistep::bdf(ref, 0.5, 0.9, p.y0, o, 0.05);
		h = hmix(h, s.status); for (double t : s.t_vals) h = hd(h, t); for (auto &y : s.y_vals) h = hv(h, y);
		h = hmix(hmix(h, p.fun_calls), p.jac_calls);
	} else if (id == T_NEWTON || id == T_NEWTON_FAIL || id == T_BROYDEN || id == T_JACOBI) {
		Sys s = make_sys(id == T_NEWTON ? 1 : id == T_NEWTON_FAIL ? 5 : id == T_BROYDEN ? 6 : 4);
		s.hook = [&](long, bool, vec *, mat *) { at(); };
		newton::options o; o.tol = 1e-9; o.dx_delta = 1e-9; o.maxit = 30; newton::status st;
		vec x = s.starts[0], x0 = x;
		if (id == T_JACOBI) {
			auto ff = [&](const vec &y) { return s.fun(y); };
			struct W { Sys *s; typedef mat jac_type; vec fun(const vec &y) { return s->fun(y); } mat jac(const vec &y) { return s->jac(y); } } w{&s};
			mat A = newton::approx_jacobi_matrix(x, w, 1e-5); h = hv(h, arma::vectorise(A)); (void)ff;
			h = hmix(h, newton::verify_jacobi_matrix(x, w));
		} else {
			vec y = id == T_BROYDEN ? newton::broyden_iterate(s, x, o, st) : newton::newton_iterate(s, x, o, st);
			h = hv(h, y); h = hmix(hmix(h, st.conv_status), st.iters); h = hd(h, st.res);
		}
		if (arma::any(x != x0) || o.tol != 1e-9 || o.maxit != 30) h = hmix(h, 666);
		h = hmix(h, s.calls);
	} else if (id == T_PLAIN_COEF) {
		at();
		for (int m : {(int)erk::RUNGE_KUTTA_4, (int)erk::EXPLICIT_EULER, 4711, (int)erk::FEHLBERG_54}) { auto k = erk::get_coefficients(m); h = hs(h, k.name); h = hv(h, arma::vectorise(k.A)); h = hv(h, k.b); h = hv(h, k.b2); h = hv(h, k.c); h = hmix(hmix(hmix(h, k.FSAL), k.order), k.order2); at(); }
		for (int m : {(int)irk::IMPLICIT_EULER, 4711, (int)irk::RADAU_IIA_32}) { auto k = irk::get_coefficients(m); h = hs(h, k.name); h = hv(h, arma::vectorise(k.A)); h = hv(h, k.b); h = hv(h, k.b2); h = hv(h, k.c); h = hd(h, k.gamma); h = hmix(hmix(hmix(h, k.FSAL), k.order), k.order2); at(); }
	} else if (id == T_LOOKUP) {
		at();
		for (auto &n : irk::all_method_names()) { h = hs(h, n); int m = irk::name_to_method(n); h = hmix(h, m); auto k = irk::get_coefficients(m); h = hv(h, arma::vectorise(k.A)); h = hv(h, k.b); h = hv(h, k.b2); }
		at();
		h = hmix(h, irk::name_to_method("no such method")); h = hs(h, irk::method_to_name(4711));
		for (auto &n : erk::all_method_names()) { h = hs(h, n); int m = erk::name_to_method(n); h = hmix(h, m); auto k = erk::get_coefficients(m); h = hv(h, arma::vectorise(k.A)); h = hv(h, k.b); h = hv(h, k.b2); }
		at();
		h = hmix(h, erk::name_to_method("")); h = hs(h, erk::method_to_name(-3));
		h = hmix(h, irk::all_method_names().size()); h = hmix(h, erk::all_method_names().size());
		irk::rk_output z; h = hmix(h, z.status); auto o = irk::default_solver_options(); h = hd(hd(h, o.rel_tol), o.abs_tol); h = hmix(h, o.max_steps);
		newton::options no; h = hd(hd(h, no.tol), no.dx_delta); h = hmix(hmix(h, no.maxit), no.refresh_jac);
		multistep::multistep_output mo; h = hmix(h, mo.status);
		std::ostringstream os; os << irk::get_coefficients(irk::RADAU_IIA_53); h = hs(h, os.str()); h = hmix(h, hstream(os));
	}
	h = hmix(h, hstream(std::cout)); h = hmix(h, hstream(std::cerr));
	return h;
}

static std::uint64_t base[N_TASKS]; static int ncalls[N_TASKS];
static void baselines()
{
	for (int i = 0; i < N_TASKS; ++i) {
		int fd[2]; if (pipe(fd)) _exit(77);
		pid_t pid = fork();
		if (pid == 0) {
			std::pair<std::uint64_t, long> o{0, 0};
			try { o.first = task(i, [&]() { ++o.second; }); } catch (...) { o.first = 999; }
			if (write(fd[1], &o, sizeof o) != sizeof o) _exit(1);
			_exit(0);
		}
		close(fd[1]);
		std::pair<std::uint64_t, long> o{0, 0};
		if (read(fd[0], &o, sizeof o) != sizeof o) { std::fprintf(stderr, "no baseline for %s\n", TN[i]); abort(); }
		close(fd[0]); int st; waitpid(pid, &st, 0);
		base[i] = o.first; ncalls[i] = (int)o.second;
	}
}
static void same(int t, std::uint64_t d, const std::string &how)
{ if (d != base[t]) fail(std::string("differs-") + TN[t], std::string(TN[t]) + " gives another result " + how); }

// ---- coroutines
struct Co { ucontext_t ctx; std::vector<char> stack; int task; std::uint64_t digest = 0; bool done = false; std::exception_ptr err; At at; };
static ucontext_t main_ctx; static Co *cur = nullptr;
static void entry() { Co *c = cur; try { c->digest = task(c->task, c->at); } catch (...) { c->err = std::current_exception(); } c->done = true; swapcontext(&c->ctx, &main_ctx); }

static void body(Run &r)
{
	bool th = r.eng->thorough();
	int mode = r.cfg(4);
	auto nop = []() {};
	if (mode == 0) {           // histories
		int len = th ? 3 : 2; std::vector<int> seq; for (int i = 0; i <= len; ++i) { if (i == 0 && len == 3) { seq.push_back(std::vector<int>{T_THROW_IRK, T_WALL, T_RADAU137, T_LOOKUP, T_BDF6, T_NEWTON_FAIL, T_TIMED, T_CASH_REJECT}[r.cfg(8)]); continue; } seq.push_back(r.cfg(N_TASKS)); }
		r.begin();
		r.desc = "history:"; for (int t : seq) r.desc += std::string(" ") + TN[t] + ",";
		std::string how = "after:";
		for (int t : seq) { same(t, task(t, nop), how); how += std::string(" ") + TN[t] + ","; r.eng->transitions++; r.eng->validated++; }
		r.eng->state(hs(5, r.desc));
		return;
	}
	if (mode == 1) {           // nesting
		int outer = r.cfg(N_TASKS), inner = r.cfg(N_TASKS);
		std::vector<int> at = {0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144}; if (th) { at.clear(); for (int i = 0; i < 60; ++i) at.push_back(i); }
		int k = r.of(at), third = r.cfg(th ? 4 : 2);
		if (k >= ncalls[outer]) { r.begin(); return; }
		r.begin();
		static const int T3[] = {-1, T_RADAU53, T_THROW_ERK, T_NEWTON};
		int tid = T3[third];
		r.desc = fmt("%s inside call %d of %s", TN[inner], k, TN[outer]) + (tid >= 0 ? std::string(", ") + TN[tid] + " inside that" : "");
		int n = 0;
		std::uint64_t d = task(outer, [&]() {
			if (n++ != k) return;
			int m = 0;
			std::uint64_t di = task(inner, [&]() { if (tid >= 0 && m++ == k % 3) same(tid, task(tid, nop), "two levels down, " + r.desc); });
			same(inner, di, "as the inner one, " + r.desc); });
		same(outer, d, "as the outer one, " + r.desc);
		r.eng->transitions += 2; r.eng->validated++; r.eng->state(hs(6, r.desc));
		return;
	}
	// two calls as coroutines: at every call of a functor the scheduler may
	// switch; up to `bound` preemptions
	int a = r.cfg(N_TASKS), b = r.cfg(N_TASKS);
	int bound = mode == 2 ? 1 : 2; if (th && mode == 3) bound = 3;
	long total = ncalls[a] + ncalls[b];
	long stride = mode == 2 ? 1 + total/(th ? 400 : 40) : 1 + total/(th ? 24 : 16);
	r.begin();
	r.desc = fmt("%s and %s interleaved, at every %ld. call, up to %d preemptions", TN[a], TN[b], stride, bound);
	std::vector<std::unique_ptr<Co>> co;
	std::string sched; int used = 0; long point = 0;
	bool preempt = false;
	for (int t : {a, b}) {
		co.emplace_back(new Co); Co *c = co.back().get(); c->task = t; c->stack.resize(1 << 20);
		c->at = [&, c]() {
			if (point++ % stride) return;
			if (used >= bound) return;
			int d = r.dev(2);
			if (d) { ++used; preempt = true; swapcontext(&c->ctx, &main_ctx); }
		};
		getcontext(&c->ctx); c->ctx.uc_stack.ss_sp = c->stack.data(); c->ctx.uc_stack.ss_size = c->stack.size(); c->ctx.uc_link = nullptr;
		makecontext(&c->ctx, entry, 0);
	}
	int w = 0;
	while (!co[0]->done || !co[1]->done) {
		if (co[w]->done) w = 1 - w;
		cur = co[w].get(); sched += (char)('A' + w); sched += fmt("%ld ", point); preempt = false;
		swapcontext(&main_ctx, &cur->ctx);
		r.eng->transitions++;
		w = 1 - w;
	}
	for (auto &c : co) if (c->err) std::rethrow_exception(c->err);
	r.eng->state(hs(hs(7, r.desc), sched)); r.eng->validated++;
	same(a, co[0]->digest, "with " + r.desc + ", schedule " + sched);
	same(b, co[1]->digest, "with " + r.desc + ", schedule " + sched);
}
int main(int argc, char **argv) { if (!getenv("MC_LOUD")) silence(); baselines(); if (getenv("MC_LOUD")) for (int i = 0; i < N_TASKS; ++i) std::fprintf(stderr, "%s: %d calls, %llx\n", TN[i], ncalls[i], (unsigned long long)base[i]); return main_(argc, argv, body, 3, 3); }
