// One way to call both Runge-Kutta integrators through their public interface.
#ifndef INTEG_HPP
#define INTEG_HPP
#include "problems.hpp"

struct Case {
	bool imp = false;
	int method = 0;
	double t0 = 0, t1 = 1, dt = 1e-6;
	bool adaptive = true;
	double rtol = 1e-6, atol = 1e-6, max_dt = 0;
	long long max_steps = -1;
	// Newton
	double ntol = 1e-10, ndx = 1e-10; int nmaxit = 50; int nrefresh = 10;
	// output
	bool store = true; std::ostream *stream = nullptr; std::size_t interval = 1;
	int out_interval = 0; bool time_internals = false;

	const char *mname() const { return imp ? irk::method_to_name(method) : erk::method_to_name(method); }
	bool embedded() const { return imp ? irk_embedded(method) : erk_embedded(method); }
	bool really_adaptive() const { return adaptive && embedded(); }
	std::string str(const Prob &p) const
	{
		std::string s = mc::fmt("%s on %s, t=[%.17g,%.17g], dt=%.17g, %s", mname(), p.name, t0, t1, dt, adaptive ? "adaptive" : "fixed");
		if (adaptive) s += mc::fmt(" rtol=%g atol=%g", rtol, atol);
		if (max_dt) s += mc::fmt(" max_dt=%g", max_dt);
		if (max_steps >= 0) s += mc::fmt(" max_steps=%lld", max_steps);
		if (imp) s += mc::fmt(" newton(tol=%g dx=%g maxit=%d refresh=%d)", ntol, ndx, nmaxit, nrefresh);
		if (interval != 1) s += mc::fmt(" interval=%zu", interval);
		return s;
	}
};

struct Sol {
	int status = -1;
	std::vector<double> t, err;
	std::vector<arma::vec> y, stages, err_est;
	double elapsed = 0, accept_frac = 0;
	std::size_t attempt = 0, rej_newton = 0, rej_err = 0, n_ok = 0, n_div = 0, n_iter = 0, n_maxit = 0, fun_evals = 0, jac_evals = 0;
};

inline Sol from(const irk::rk_output &s)
{
	Sol o; o.status = s.status; o.t = s.t_vals; o.y = s.y_vals; o.stages = s.stages; o.err_est = s.err_est; o.err = s.err;
	o.elapsed = s.elapsed_time; o.accept_frac = s.accept_frac; o.attempt = s.count.attempt; o.rej_newton = s.count.reject_newton;
	o.rej_err = s.count.reject_err; o.n_ok = s.count.newton_success; o.n_div = s.count.newton_incr_diverge;
	o.n_iter = s.count.newton_iter_error_too_large; o.n_maxit = s.count.newton_maxit_exceed;
	o.fun_evals = s.count.fun_evals; o.jac_evals = s.count.jac_evals;
	return o;
}
inline Sol from(const erk::rk_output &s)
{
	Sol o; o.status = s.status; o.t = s.t_vals; o.y = s.y_vals; o.stages = s.stages; o.err_est = s.err_est; o.err = s.err;
	o.elapsed = s.elapsed_time; o.accept_frac = s.accept_frac; o.attempt = s.count.attempt; o.rej_err = s.count.reject_err;
	o.fun_evals = s.count.fun_evals;
	return o;
}

inline output_options out_opts(const Case &c)
{
	output_options o;
	if (c.stream) o.set_output_stream(*c.stream);
	if (!c.store) o.disable_store_in_vectors();
	o.output_interval = c.interval;
	return o;
}

template <typename F>
Sol integrate(const Case &c, F &p, const arma::vec &y0)
{
	output_options oo = out_opts(c);
	if (c.imp) {
		irk::solver_options so = irk::default_solver_options();
		newton::options no;
		no.tol = c.ntol; no.dx_delta = c.ndx; no.maxit = c.nmaxit; no.refresh_jac = c.nrefresh;
		so.newton_opts = &no;
		so.adaptive_step_size = c.adaptive; so.rel_tol = c.rtol; so.abs_tol = c.atol; so.max_dt = c.max_dt; so.max_steps = c.max_steps;
		so.out_interval = c.out_interval; so.time_internals = c.time_internals;
		return from(irk::odeint(p, c.t0, c.t1, y0, so, oo, c.method, c.dt));
	}
	erk::solver_options so = erk::default_solver_options();
	so.adaptive_step_size = c.adaptive; so.rel_tol = c.rtol; so.abs_tol = c.atol; so.max_dt = c.max_dt; so.max_steps = c.max_steps;
	so.out_interval = c.out_interval; so.time_internals = c.time_internals;
	return from(erk::odeint(p, c.t0, c.t1, y0, so, oo, c.method, c.dt));
}
inline Sol integrate(const Case &c, Prob &p) { return integrate(c, p, p.y0); }

struct Tab { arma::mat A; arma::vec b, c, b2; int s, order, order2; bool fsal; double gamma; };
inline Tab table(bool imp, int m)
{
	Tab t;
	if (imp) { auto s = irk::get_coefficients(m); t = Tab{s.A, s.b, s.c, s.b2, (int)s.b.size(), s.order, s.order2, s.FSAL, s.gamma}; }
	else { auto s = erk::get_coefficients(m); t = Tab{s.A, s.b, s.c, s.b2, (int)s.b.size(), s.order, s.order2, s.FSAL, 0.0}; }
	return t;
}

inline void visit(mc::Run &r, const Sol &s)
{
	for (std::size_t i = 0; i < s.t.size(); ++i) r.eng->state(hstate(s.t[i], s.y[i]));
	r.eng->transitions += s.t.empty() ? 0 : (long)s.t.size() - 1;
	r.eng->validated++;
	r.eng->extra["rejected steps"] += s.rej_err + s.rej_newton;
}
#endif
