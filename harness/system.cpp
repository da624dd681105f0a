// The generic optimiser (S01), and independence / reproducibility of instances (S05).
#include "ref.hpp"
#include <Eigen/Eigenvalues>
#include <memory>
#include <limits>
#include "mrob/optimizer.hpp"
#ifdef VP_ONLY
#undef VP
#define VP(x) (VP_##x)
#endif
using pbt::Case; using namespace mrob; using ref::R; using ref::MX; using ref::VX;
typedef Eigen::MatrixXd DX; typedef Eigen::VectorXd Dv;

#if VP(S01)
// objective: 1/2 (x-c)'A(x-c) + sum_k w_k phi_k(a_k'(x-c) + b_k), with phi convex or not, and optionally undefined (NaN) outside a ball
struct Objective {
    int n; DX A; Dv c; struct Term { int kind; double w, b; Dv a; }; std::vector<Term> t; double ball = INFINITY, offset = 0;
    static void phi(int k, double u, double &f, double &d, double &h) {
        switch (k) {
        case 0: { double v = std::fabs(u); f = v + std::log1p(std::exp(-2 * v)) - std::log(2.0); d = std::tanh(u); h = 1 - d * d; break; } // log cosh: convex
        case 1: f = u * u * u * u / 4; d = u * u * u; h = 3 * u * u; break;                                  // convex
        case 2: f = 1 - std::cos(u); d = std::sin(u); h = std::cos(u); break;                                // not convex
        case 3: { double q = (u * u - 1); f = q * q / 4; d = q * u; h = 3 * u * u - 1; break; }              // double well
        default: { double e = std::exp(-u * u / 2); f = -e; d = u * e; h = (1 - u * u) * e; }                // Gaussian dip
        }
    }
    double value(const Dv &x) const { Dv y = x - c; if (!(y.norm() <= ball)) return std::numeric_limits<double>::quiet_NaN(); double s = offset + 0.5 * y.dot(A * y), f, d, h; for (auto &k : t) { phi(k.kind, k.a.dot(y) + k.b, f, d, h); s += k.w * f; } return s; }
    void deriv(const Dv &x, Dv &gr, DX &H) const { Dv y = x - c; gr = A * y; H = A; double f, d, h; for (auto &k : t) { phi(k.kind, k.a.dot(y) + k.b, f, d, h); gr += k.w * d * k.a; H += k.w * h * k.a * k.a.transpose(); } }
    bool convex() const { for (auto &k : t) if (k.kind > 1) return false; return true; }
};
struct Event { char what; Dv x, g, dx; DX H; double e; };
struct Problem : public OptimizerDense {
    Objective &o; Dv x, saved; std::vector<Event> log; bool keep = true;
    Problem(Objective &o_, const Dv &x0) : o(o_), x(x0), saved(x0) {}
    Problem(Objective &o_, const Dv &x0, double tol) : OptimizerDense(tol), o(o_), x(x0), saved(x0) {}
    Problem(Objective &o_, const Dv &x0, double tol, double l) : OptimizerDense(tol, l), o(o_), x(x0), saved(x0) {}
    void rec(char w, double e = 0) { Event v; v.what = w; v.x = x; v.e = e; if (w == 'u') { v.dx = dx_; v.H = H0; v.g = g0; } log.push_back(v); }
    DX H0; Dv g0;
    double calculate_error() override { double e = o.value(x); rec('e', e); return e; }
    void calculate_gradient_hessian() override { Dv gr; DX H; o.deriv(x, gr, H); gradient_ = gr; hessian_ = H; H0 = H; g0 = gr; rec('g'); }
    void update_state() override { rec('u'); x += Dv(dx_); }
    void bookkeep_state() override { saved = x; rec('b'); }
    void update_state_from_bookkeep() override { x = saved; rec('r'); }
};
static DX spd(Case &g, int n, double cond) { DX A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = g.sym(1); A += DX::Identity(n, n) * 1e-3; Eigen::HouseholderQR<DX> qr(A); DX Q = qr.householderQ(); Dv d(n); for (int i = 0; i < n; ++i) d(i) = std::pow(cond, -g.unit()); d(0) = 1; DX S = Q * d.asDiagonal() * Q.transpose(); return 0.5 * (S + S.transpose()); }
static Dv vec(Case &g, int n, double s) { Dv v(n); for (int i = 0; i < n; ++i) v(i) = g.sym(s); return v; }
static const char *mname[] = {"NEWTON_RAPHSON", "LM_SPHER", "LM_ELLIP"};
PROPERTY(S01, newton_on_quadratics, 2) {
    int n = (int)g.in_range(1, 8); Objective o; o.n = n; double cond = g.pick({1.0, 10.0, 1e4}), sc = g.weighted({2, 1}) == 0 ? 1.0 : g.logmag(1e-3, 1e6); o.A = spd(g, n, cond) * sc; o.c = vec(g, n, g.pick({1.0, 100.0})); o.offset = g.coin() ? 0 : g.sym(10); Dv x0 = o.c + vec(g, n, g.pick({1.0, 1e-3, 0.0, 1e3}));
    uint_t lim = (uint_t)g.in_range(1, 6); bool dflt = g.chance(1, 4); double tol = dflt ? 1e-4 : g.logmag(1e-9, 10); std::unique_ptr<Problem> p(dflt ? new Problem(o, x0) : new Problem(o, x0, tol)); bool dl = g.chance(1, 5); uint_t it = dl ? p->solve(Optimizer::NEWTON_RAPHSON) : p->solve(Optimizer::NEWTON_RAPHSON, lim); if (dl) lim = 100; g.d() << "n " << n << " start " << str(x0) << " minimum " << str(o.c) << " A " << str(o.A) << " limit " << lim << " tolerance " << num(tol) << " -> " << it << "\n"; g.nontrivial((x0 - o.c).norm() > 1e-6);
    double m = 1 + x0.norm() + o.c.norm(); EXPECT_CLOSE("minimiser", p->x, o.c, 1e-13 * cond * n * m);
    int ups = 0; for (auto &e : p->log) ups += e.what == 'u'; EXPECT("iterations are the steps taken", (uint_t)ups == it); EXPECT("within the limit", it >= 1 && it <= lim);
    // the first step gains e0, the second nothing
    double e0 = o.value(x0) - o.offset, slack = 1e-12 * cond * sc * m * m; if (std::fabs(e0 - tol) > slack && tol > slack * 4) EXPECT("stops when the gain is below the tolerance", it == (e0 > tol ? std::min<uint_t>(2, lim) : 1));
}
PROPERTY(S01, damped_steps, 4) {
    int n = (int)g.in_range(1, 6); Objective o; o.n = n; double cond = g.pick({1.0, 10.0, 1e3}); o.A = spd(g, n, cond) * g.pick({1.0, 0.0, 0.1, 30.0}); o.c = vec(g, n, 3); int k = (int)g.in_range(0, 5); for (int i = 0; i < k; ++i) { Objective::Term t; t.kind = (int)g.raw(4); t.w = g.logmag(0.1, 20); t.b = g.sym(2); t.a = vec(g, n, 1.5); o.t.push_back(t); } if (g.chance(1, 5)) o.ball = g.logmag(0.5, 30);
    Dv x0 = o.c + vec(g, n, std::isfinite(o.ball) ? 0.5 * o.ball / std::sqrt((double)n) : g.pick({1.0, 5.0, 0.0})); bool el = g.coin(); auto mth = el ? Optimizer::LEVENBERG_MARQUARDT_ELLIP : Optimizer::LEVENBERG_MARQUARDT_SPHER; double l0 = g.weighted({3, 1}) == 0 ? g.logmag(1e-6, 1e3) : g.pick({1e-5, 1.0, 1e6}), tol = g.logmag(1e-10, 1e-1); uint_t lim = (uint_t)g.in_range(1, 30); Problem p(o, x0, tol, g.coin() ? 7.0 : 1e-5); bool dl = g.chance(1, 6); if (dl) l0 = 1e-5; int runs = g.chance(1, 4) ? 2 : 1;
    for (int r = 0; r < runs; ++r) {
        p.log.clear(); Dv xs = p.x; double es = o.value(xs); uint_t it = dl ? p.solve(mth, lim) : p.solve(mth, lim, l0); g.d() << mname[mth] << " n " << n << " A " << str(o.A) << " terms " << k << " start " << str(xs) << " lambda " << num(l0) << " tolerance " << num(tol) << " limit " << lim << " -> " << it << " at " << str(p.x) << "\n";
        EXPECT("finite state", p.x.allFinite()); double ee = o.value(p.x); if (!(ee <= es)) g.fail("worse", "error went from " + num(es) + " to " + num(ee));
        EXPECT("within the limit", it >= 1 && it <= lim); double cur = es, lam = -1; Dv at = xs; int ups = 0, rej = 0, acc = 0; bool first = true, was_rej = false; double lastgain = INFINITY;
        for (size_t i = 0; i < p.log.size(); ++i) { auto &e = p.log[i]; if (e.what == 'g') EXPECT_CLOSE("derivatives are taken at the accepted state", e.x, at, 0.0);
            if (e.what != 'u') continue; ++ups; EXPECT_CLOSE("steps start from the accepted state", e.x, at, 0.0);
            // (H + lambda D) dx = -g : recover lambda from the step
            VX dx = e.dx.cast<R>(), rr = -(e.H.cast<R>() * dx + e.g.cast<R>()), Ddx = el ? VX(e.H.diagonal().cast<R>().cwiseProduct(dx)) : dx; double hm = e.H.cwiseAbs().maxCoeff() + (el ? 0 : 1); bool fin = e.dx.allFinite(); double est = -1;
            if (fin && (double)Ddx.norm() > 1e-9 * hm && e.dx.norm() > 1e-12) { est = (double)(rr.dot(Ddx) / Ddx.squaredNorm());
                double L = first ? l0 : est; DX M = e.H; for (int q = 0; q < n; ++q) M(q, q) = el ? M(q, q) * (1 + L) : M(q, q) + L; Eigen::JacobiSVD<DX> sv(M), sh(e.H); double kap = sv.singularValues()(0) / std::max(sv.singularValues()(n - 1), 1e-300); bool reg = sh.singularValues()(n - 1) > 1e-5 * hm;
                if (kap < 1e8 && (first || (reg && est > 1e-6 * (el ? 1 : hm)))) { if (first) { Dv want = M.fullPivLu().solve(Dv(-e.g)); EXPECT_CLOSE(std::string("first step is damped by the given lambda (") + mname[mth] + ")", e.dx, want, 1e-11 * kap * (1e-5 + want.norm())); }
                    else EXPECT_NEAR_(std::string("later steps are damped on the diagonal (") + mname[mth] + ")", (double)(rr - (R)est * Ddx).norm(), 0, 1e-11 * kap * ((hm + est) * e.dx.norm() + e.g.norm()));
                    double acc_est = 5e-12 * kap * kap * hm; if (est > -acc_est && lam >= 0 && was_rej && acc_est < 0.01 * lam) EXPECT("lambda grows after a rejected step", est > lam * 1.2); lam = acc_est < 0.01 * est || first ? (first ? l0 : est) : -1; } else lam = -1; } else lam = -1;
            first = false; // verdict: the error evaluated next
            size_t j = i + 1; while (j < p.log.size() && p.log[j].what != 'e') ++j; EXPECT("every step is evaluated", j < p.log.size()); double ne = p.log[j].e; bool good = ne <= cur; size_t q = j + 1; while (q < p.log.size() && p.log[q].what != 'r' && p.log[q].what != 'u') ++q; bool restored = q < p.log.size() && p.log[q].what == 'r';
            if (good) { EXPECT("an improvement is kept", !restored); lastgain = cur - ne; cur = ne; at = p.log[j].x; ++acc; was_rej = false; } else { EXPECT("a step that makes it worse is undone", restored); EXPECT_CLOSE("restored state", p.log[q].x, at, 0.0); ++rej; was_rej = true; lastgain = INFINITY; }
        }
        EXPECT("iterations are the steps tried", (uint_t)ups == it); EXPECT_CLOSE("ends at the last accepted state", p.x, at, 0.0); EXPECT("stops early only when the gain is below the tolerance", it == lim || lastgain < tol); g.nontrivial(acc > 0 && ups > 1); g.label("rejections", rej > 0); g.label("leaves the domain", std::isfinite(o.ball)); g.label("non-convex", !o.convex());
    }
}
PROPERTY(S01, convergence, 2) {
    int n = (int)g.in_range(1, 6); Objective o; o.n = n; o.A = spd(g, n, g.pick({1.0, 10.0, 100.0})) * g.logmag(0.1, 10); o.c = vec(g, n, 3); int k = (int)g.in_range(0, 4); for (int i = 0; i < k; ++i) { Objective::Term t; t.kind = (int)g.raw(1); t.w = g.logmag(0.1, 3); t.b = g.sym(1); t.a = vec(g, n, 1); o.t.push_back(t); } Dv x0 = o.c + vec(g, n, g.pick({1.0, 5.0}));
    // reference minimum: damped Newton with line search
    Dv x = x0; for (int i = 0; i < 200; ++i) { Dv gr; DX H; o.deriv(x, gr, H); Dv d = H.ldlt().solve(-gr); double s = 1, v = o.value(x); while (s > 1e-10 && !(o.value(x + s * d) <= v + 1e-4 * s * gr.dot(d))) s /= 2; x += s * d; if (gr.norm() < 1e-13) break; }
    int m = (int)g.raw(2); double l0 = g.logmag(1e-5, 1e3); if (m == 0) { x0 = x + vec(g, n, 0.02); // an undamped Newton step is only sure to converge near the minimum: where the textbook iteration roams, nothing is claimed
        Dv y = x0; Dv gr; DX H; o.deriv(x, gr, H); bool settled = gr.norm() < 1e-7 * (1 + H.norm()); double last = INFINITY; for (int i = 0; i < 12 && settled; ++i) { o.deriv(y, gr, H); Dv d = H.fullPivLu().solve(Dv(-gr)); if (i && d.norm() > 0.9 * last && d.norm() > 1e-8) settled = false; last = d.norm(); y += d; } if (!settled) { g.label("roaming"); return; } }
    Problem p(o, x0, 1e-12); uint_t it = p.solve((Optimizer::optimMethod)m, 100, l0); g.d() << mname[m] << " n " << n << " start " << str(x0) << " minimum " << str(x) << " lambda " << num(l0) << " -> " << it << " at " << str(p.x) << "\n"; g.nontrivial((x - x0).norm() > 1e-4); g.label(mname[m]);
    double e = o.value(p.x), best = o.value(x), e0 = o.value(x0); if (!(e <= best + 1e-6 * (1 + e0 - best))) g.fail(std::string("minimum reached by ") + mname[m], "error " + num(e) + " but " + num(best) + " is attained elsewhere"); EXPECT("converges within the limit", it < 100);
}
#endif
PBT_MAIN
