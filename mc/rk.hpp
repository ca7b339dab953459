// What must hold between two consecutive outputs of a Runge-Kutta integration.
#ifndef RK_HPP
#define RK_HPP
#include "integ.hpp"

inline double eps16() { return 2.3e-16; }

// Looks up logged answers for a given evaluation point.
struct LogIndex {
	const std::vector<Call> &log;
	std::unordered_multimap<std::uint64_t, std::size_t> by_answer;
	explicit LogIndex(const std::vector<Call> &l) : log(l)
	{
		for (std::size_t i = 0; i < l.size(); ++i)
			if (!l[i].jac) by_answer.emplace(hstate(0, l[i].r), i);
	}
	template <typename F> bool any_with_answer(const arma::vec &k, F f) const
	{
		auto q = by_answer.equal_range(hstate(0, k));
		for (auto it = q.first; it != q.second; ++it) if (f(log[it->second])) return true;
		return false;
	}
};

// C02: stages and update of an explicit step.  `ulp_t`: accuracy to which the step is known from the times.
inline void check_erk_step(const Tab &tb, const Sol &s, std::size_t i, Prob &p, const LogIndex &ix)
{
	double t = s.t[i], h = s.t[i+1] - t;
	const arma::vec &y = s.y[i];
	int n = y.size();
	arma::mat K = arma::reshape(s.stages[i+1], n, tb.s);
	double dh = 2*eps16()*(std::fabs(t) + std::fabs(s.t[i+1]));
	double kmax = 0;
	for (double x : K) kmax = std::max(kmax, std::fabs(x));
	for (int j = 0; j < tb.s; ++j) {
		arma::vec arg = y; double mag = ninf(y);
		for (int l = 0; l < j; ++l) { arg += h*tb.A(j, l)*K.col(l); mag += h*std::fabs(tb.A(j, l))*ninf(K.col(l)); }
		double tt = t + tb.c(j)*h;
		// a reused last stage was evaluated before the update was rounded
		if (j == 0 && tb.fsal && i) {
			arma::mat Kp = arma::abs(arma::reshape(s.stages[i], n, tb.s));
			mag += ninf(s.y[i-1]) + 4*(t - s.t[i-1])*Kp.max();
		}
		double tol_y = 64*eps16()*mag + 8*dh*kmax, tol_t = 4*dh + 1e-15*h;
		bool ok = ix.any_with_answer(K.col(j), [&](const Call &c) {
			if (std::fabs(c.t - tt) > tol_t) return false;
			for (int q = 0; q < n; ++q) if (!(std::fabs(c.y(q) - arg(q)) <= tol_y)) return false;
			return true; });
		if (!ok) {
			// was it at least ever evaluated?
			std::string got = "never returned by the right-hand side";
			ix.any_with_answer(K.col(j), [&](const Call &c) { got = mc::fmt("returned at t=%.17g y=", c.t) + vs(c.y); return true; });
			mc::fail("stage", mc::fmt("step %zu (t=%.17g, dt=%.17g): stage %d ", i, t, h, j) + vs(K.col(j)) + " was " + got + mc::fmt(", but is due at t=%.17g y=", tt) + vs(arg));
		}
	}
	arma::vec yn = y; arma::vec mag = arma::abs(y);
	for (int j = 0; j < tb.s; ++j) { yn += h*tb.b(j)*K.col(j); mag += h*std::fabs(tb.b(j))*arma::abs(K.col(j)); }
	for (int q = 0; q < n; ++q)
		if (!(std::fabs(yn(q) - s.y[i+1](q)) <= 64*eps16()*mag(q) + 8*dh*kmax))
			mc::fail("update", mc::fmt("step %zu (t=%.17g, dt=%.17g): y = ", i, t, h) + vs(s.y[i+1]) + ", but the stages give " + vs(yn));
}

// the weighted RMS norm of Hairer & Wanner
inline double wrms(const arma::vec &e, const arma::vec &a, const arma::vec &b, double atol, double rtol)
{
	double x = 0;
	for (std::size_t q = 0; q < e.size(); ++q) { double sc = atol + rtol*std::max(std::fabs(a(q)), std::fabs(b(q))); x += (e(q)/sc)*(e(q)/sc); }
	return std::sqrt(x/e.size());
}

inline void check_err_norm(const Case &c, const Sol &s, std::size_t i)
{
	double e = wrms(s.err_est[i+1], s.y[i], s.y[i+1], c.atol, c.rtol);
	if (!(s.err[i+1] <= 1.0)) mc::fail("accepted", mc::fmt("step %zu was accepted with error %.17g", i, s.err[i+1]));
	if (!(e <= 1.0 + 1e-9)) mc::fail("accepted", mc::fmt("step %zu was accepted, but the norm of its estimate is %.17g (reported %.17g)", i, e, s.err[i+1]));
	if (!(std::fabs(e - s.err[i+1]) <= 1e-9*e + 1e-12)) mc::fail("norm", mc::fmt("step %zu: reported error %.17g, norm of the estimate %.17g", i, s.err[i+1], e));
}
inline void check_growth(const Case &c, const Sol &s, std::size_t i, double cap)
{
	double h = s.t[i+1] - s.t[i];
	double dh = 4*eps16()*(std::fabs(s.t[i]) + std::fabs(s.t[i+1]));
	double prev = i ? s.t[i] - s.t[i-1] : std::numeric_limits<double>::infinity();
	if (i && h > cap*(1 + 1e-9)*(prev + dh) + dh) mc::fail("growth", mc::fmt("step %zu: %.17g after %.17g", i, h, prev));
	if (i == 0 && h > c.dt*(1 + 1e-12) + dh) mc::fail("growth", mc::fmt("first step %.17g > requested %.17g", h, c.dt));
	if (c.max_dt > 0 && h > c.max_dt*(1 + 1e-12) + dh) mc::fail("max_dt", mc::fmt("step %zu: %.17g > maximum %.17g", i, h, c.max_dt));
}

// C03
inline void check_erk_error(const Case &c, const Tab &tb, const Sol &s, std::size_t i)
{
	double t = s.t[i], h = s.t[i+1] - t;
	int n = s.y[i].size();
	arma::mat K = arma::reshape(s.stages[i+1], n, tb.s);
	double dh = 2*eps16()*(std::fabs(t) + std::fabs(s.t[i+1]));
	arma::vec e(n, arma::fill::zeros), mag(n, arma::fill::zeros);
	for (int j = 0; j < tb.s; ++j) { e += h*(tb.b2(j) - tb.b(j))*K.col(j); mag += h*(std::fabs(tb.b2(j)) + std::fabs(tb.b(j)))*arma::abs(K.col(j)); }
	for (int q = 0; q < n; ++q) {
		double g = s.err_est[i+1](q);
		double tol = 64*eps16()*mag(q) + 8*dh/h*std::fabs(e(q)) + 1e-300;
		if (!(std::fabs(e(q) - g) <= tol))
			mc::fail("estimate", mc::fmt("step %zu (t=%.17g, dt=%.17g): estimate ", i, t, h) + vs(s.err_est[i+1]) + ", stages give " + vs(e));
	}
	check_err_norm(c, s, i);
}

// C04
inline void check_irk_step(const Case &c, const Tab &tb, const Sol &s, std::size_t i, Prob &p, const std::vector<Call> *log)
{
	double t = s.t[i], h = s.t[i+1] - t;
	const arma::vec &y = s.y[i];
	int n = y.size();
	arma::mat K = arma::reshape(s.stages[i+1], n, tb.s);
	double dh = 2*eps16()*(std::fabs(t) + std::fabs(s.t[i+1]));
	arma::mat Y = h*K*tb.A.t();
	double ymag = ninf(y), kmax = 0, normA = arma::norm(tb.A, "inf"), normAi = arma::norm(arma::inv(tb.A), "inf");
	for (double x : K) kmax = std::max(kmax, std::fabs(x));
	double Ymax = 0; for (double x : Y) Ymax = std::max(Ymax, std::fabs(x));
	arma::mat J0 = p.J(t, y);
	// residual of the stage equations, with the right-hand side or with what it answered there
	arma::mat F(n, tb.s); double dJ = 0, Jn = arma::norm(J0, "inf");
	for (int j = 0; j < tb.s; ++j) {
		arma::vec arg = y + Y.col(j); double tt = t + tb.c(j)*h;
		F.col(j) = p.f(tt, arg);
		arma::mat Jj = p.J(tt, arg);
		dJ = std::max(dJ, arma::norm(Jj - J0, "inf")); Jn = std::max(Jn, arma::norm(Jj, "inf"));
	}
	arma::mat R = Y - h*F*tb.A.t();
	double rn = arma::norm(arma::vectorise(R));
	// non-smooth in t: the answer may depend on the last bit of t
	double fmax = 0; for (double x : F) fmax = std::max(fmax, std::fabs(x));
	double round = 500*eps16()*(ymag + normA*normAi*(Ymax + h*kmax))*(1 + h*normA*Jn) + 20*dh*(kmax + fmax)*(1 + normA*normAi);
	double sm = std::sqrt((double)n*tb.s);
	double tol = 1.5*c.ntol + c.ndx*3*h*normA*dJ*sm + sm*round;
	if (!p.autonomous) tol += 40*dh*h*normA*(fmax + 50);
	if (!(rn <= tol) && log) {
		// answers given at these points (an answer may have been disturbed)
		arma::mat G = F; 
		for (int j = 0; j < tb.s; ++j) {
			arma::vec arg = y + Y.col(j); double tt = t + tb.c(j)*h;
			double best = 1e300;
			for (auto &e : *log) if (!e.jac && std::fabs(e.t - tt) <= 8*dh) {
				double d = ninf(e.y - arg); if (d > 1e-6*(1 + ymag)) continue;
				double q = ninf(e.r - K.col(j)); if (q < best) { best = q; G.col(j) = e.r; }
			}
		}
		R = Y - h*G*tb.A.t(); rn = arma::norm(arma::vectorise(R));
	}
	if (!(rn <= tol))
		mc::fail("stages", mc::fmt("step %zu (t=%.17g, dt=%.17g): residual of the stage equations is %g > %g", i, t, h, rn, tol) + " at y=" + vs(y));
	arma::vec yn = y + h*K*tb.b;
	double ut = 200*eps16()*(ymag + normAi*(Ymax + h*kmax)*(1 + arma::norm(tb.b, 1))) + 8*dh*kmax*(1 + arma::norm(tb.b, 1));
	for (int q = 0; q < n; ++q)
		if (!(std::fabs(yn(q) - s.y[i+1](q)) <= ut))
			mc::fail("update", mc::fmt("step %zu (t=%.17g, dt=%.17g): y = ", i, t, h) + vs(s.y[i+1]) + ", but the stages give " + vs(yn));
}

// C05; answers of the right-hand side are the true ones here
inline void check_irk_error(const Case &c, const Tab &tb, const Sol &s, std::size_t i, Prob &p, mc::Engine *eng)
{
	double t = s.t[i], h = s.t[i+1] - t;
	const arma::vec &y = s.y[i];
	int n = y.size();
	arma::mat K = arma::reshape(s.stages[i+1], n, tb.s);
	double dh = 2*eps16()*(std::fabs(t) + std::fabs(s.t[i+1]));
	arma::mat J = p.J(t, y);
	double g = tb.gamma*h;
	arma::mat M = arma::eye(n, n) - g*J;
	if (arma::rcond(M) < 1e-9) { eng->extra["singular filter"] += 1; return; }
	arma::vec f0 = p.f(t, y);
	arma::vec base = h*K*tb.b2 - h*K*tb.b;
	double mag = 0;
	for (int j = 0; j < tb.s; ++j) mag += h*(std::fabs(tb.b2(j)) + std::fabs(tb.b(j)))*ninf(K.col(j));
	mag += std::fabs(g)*ninf(f0) + ninf(y);
	double normAi = arma::norm(arma::inv(tb.A), "inf"), normA = arma::norm(tb.A, "inf");
	arma::mat Mi = arma::inv(M);
	double nMi = arma::norm(Mi, "inf"), cond = nMi*arma::norm(M, "inf");
	double tol = 200*eps16()*mag*normA*normAi*cond*std::max(1.0, nMi) + 20*dh/h*mag*cond + 1e-300;
	arma::vec e19 = Mi*(g*f0 + base);
	const arma::vec &e = s.err_est[i+1];
	if (ninf(e - e19) <= tol) { eng->extra["8.19 steps"] += 1; check_err_norm(c, s, i); return; }
	arma::vec e20 = Mi*(g*p.f(t, y + e19) + base);
	double tol20 = tol*(1 + std::fabs(g)*arma::norm(p.J(t, y + e19), "inf")*nMi*4);
	if (ninf(e - e20) <= tol20) { eng->extra["8.20 steps"] += 1; check_err_norm(c, s, i); return; }
	mc::fail("estimate", mc::fmt("step %zu (t=%.17g, dt=%.17g): estimate ", i, t, h) + vs(e) + ", formulas give " + vs(e19) + " or " + vs(e20) + mc::fmt(" (tolerance %g)", tol));
}
#endif
