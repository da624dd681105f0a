// F01..F13: variables, measurements, graph bookkeeping and solvers.
#include "model.hpp"
using namespace model;

// ------------------------------------------------------------------ F01
#if VP(F01)
static void node_history(Case &g, NK k) {
    St s0 = gen_state(g, k); if (g.chance(1, 6) && k == P2) s0.v(2) = (R)(double)g.sym(40);
    if (k == PL && g.chance(1, 4)) { double f = g.pick({2.0, 0.3, 7.0}); s0.v.head(3) *= f; s0 = rnd(s0); }
    NP n = make_node(s0, g.coin());
    St st = canon(s0), aux = canon(s0);
    g.d() << NKN[k] << " from " << str(mat(s0)) << "\n";
    int steps = (int)g.in_range(1, 2 + (int)g.size), muts = 0; if (g.chance(1, 300)) { steps += (int)g.in_range(200, 1200); g.label("long history"); } double tol = 4e-15 * (1 + smag(st));
    bool auxu = false, setu = false;
    EXPECT("dim", (int)n->get_dim() == NDIM[k]);
    for (int i = 0; i < steps; ++i) {
        double mag = g.pick({1e-6, 0.05, 1.0, 3.0, k == P3 ? 2.0 : 60.0}); bool regen = false;
        switch (g.weighted({5, 4, 2, 2, 1})) {
        case 0: { VX dx = gen_dx(g, k, mag); if (k == PL && std::sqrt((double)(st.v + dx).head(3).squaredNorm()) < 0.2) break;
            g.d() << "update " << str(dx) << "\n"; n->update(Dv(dx.cast<double>())); st = upd(st, dx); ++muts; regen = true; break; }
        case 1: { VX dx = gen_dx(g, k, mag); if (k == PL && std::sqrt((double)(aux.v + dx).head(3).squaredNorm()) < 0.2) break;
            g.d() << "update_from_auxiliary " << str(dx) << "\n"; n->update_from_auxiliary(Dv(dx.cast<double>())); st = upd(aux, dx); ++muts; auxu = true; break; }
        case 2: { St x = gen_state(g, k); if (k == P2 && g.chance(1, 3)) x.v(2) = (R)g.sym(60); if (k == PL && g.chance(1, 3)) { x.v.head(3) *= 2.5L; x = rnd(x); }
            g.d() << "set_state " << str(mat(x)) << "\n"; n->set_state(mat(x)); st = canon(x); setu = true; break; }
        case 3: { St x = gen_state(g, k); if (k == P2 && g.chance(1, 3)) x.v(2) = (R)g.sym(60); if (k == PL && g.chance(1, 3)) { x.v.head(3) *= 2.5L; x = rnd(x); }
            g.d() << "set_auxiliary_state " << str(mat(x)) << "\n"; n->set_auxiliary_state(mat(x)); aux = canon(x); break; }
        case 4: if (g.coin()) { g.d() << "aux := state\n"; n->set_auxiliary_state(DX(n->get_state())); aux = st; } else { g.d() << "state := aux\n"; n->set_state(DX(n->get_auxiliary_state())); st = aux; } break;
        }
        tol += 6e-15 * (1 + smag(st) + smag(aux) + mag * (1 + mag));
        if (k == P3) { tol = 1e-14 * (1 + mag) * (1 + smag(st) + smag(aux)); // model and library agree again after every step
            // an update projects the pose back through its logarithm: half the digits near a half turn
            if (regen) { double a = (double)angle(M3(st.T.topLeftCorner<3, 3>())), e = std::fabs(M_PI - a); tol += (3 * std::min(1.5e-7, 2e-14 / std::max(e, 1e-30)) + 2 * (a < 4.9e-3 ? 1e-13 : std::min(3e-10, 1e-13 + 6e-15 / (a * a)))) * (1 + smag(st)); } }
        double d = sdiff(st, DX(n->get_state())), da = sdiff(aux, DX(n->get_auxiliary_state()));
        if (!(d <= tol)) g.fail("state", "after step " + std::to_string(i) + " the state differs from the model by " + num(d) + " (tol " + num(tol) + ")\n got  " + str(DX(n->get_state())) + "\n want " + str(mat(st)));
        if (!(da <= tol)) g.fail("auxiliary", "after step " + std::to_string(i) + " the auxiliary state differs from the model by " + num(da) + "\n got  " + str(DX(n->get_auxiliary_state())) + "\n want " + str(mat(aux)));
        if (k == P3) { st = from(P3, DX(n->get_state())); aux = from(P3, DX(n->get_auxiliary_state())); }
        for (int which = 0; which < 2; ++which) {
            DX x = which ? DX(n->get_auxiliary_state()) : DX(n->get_state());
            if (k == P2) EXPECT("wrapped", x(2) >= -M_PI && x(2) < M_PI);
            if (k == PL) EXPECT_NEAR_("unit-normal", x.block(0, 0, 3, 1).norm(), 1, 1e-14);
            if (k == P3) { Eigen::Matrix3d Rm = x.topLeftCorner(3, 3); EXPECT_CLOSE("rigid", Eigen::Matrix3d(Rm * Rm.transpose()), Eigen::Matrix3d::Identity(), 1e-14 * (4 + i)); EXPECT("proper", Rm.determinant() > 0);
                Eigen::RowVector4d last = x.row(3), want(0, 0, 0, 1); EXPECT_CLOSE("last-row", last, want, 0.0); }
        }
    }
    g.label("update from auxiliary", auxu); g.label("set state", setu); g.label(NKN[k]);
    g.nontrivial(muts >= 2);
}
PROPERTY(F01, pose2d, 1) { node_history(g, P2); }
PROPERTY(F01, pose3d, 1) { node_history(g, P3); }
PROPERTY(F01, landmarks, 0.6) { node_history(g, g.coin() ? L2 : L3); }
PROPERTY(F01, plane, 1) { node_history(g, PL); }
PROPERTY(F01, wrap_angle, 1) {
    double a;
    switch (g.weighted({4, 3, 2, 2, 1})) {
    default: a = g.sym(30); break;
    case 1: a = g.in_range(-20, 20) * M_PI + g.pick({0.0, 1e-15, -1e-15, 1e-9, -1e-9, 1e-3, -1e-3}); break;
    case 2: a = g.sym(1) * g.logmag(1, 1e7); break;
    case 3: a = g.pick({0.0, M_PI, -M_PI, std::nextafter(M_PI, 0), std::nextafter(-M_PI, 0), std::nextafter(M_PI, 4), std::nextafter(-M_PI, -4), -0.0, 2 * M_PI, -2 * M_PI, 1e-300}); break;
    case 4: a = g.sym(1) * g.pick({1e15, 1e18, 1e100, 1e300}); break; // no meaningful heading left, but it has to return one
    }
    g.d() << "a = " << num(a); g.nontrivial(std::fabs(a) > M_PI); g.label("huge", std::fabs(a) > 1e14);
    double w = mrob::wrap_angle(a);
    EXPECT("range", w >= -M_PI && w < M_PI);
    if (a >= -M_PI + 1e-12 && a < M_PI - 1e-12) EXPECT_NEAR_("identity", w, a, 1e-15);
    if (std::fabs(a) < 1e8) EXPECT_NEAR_("congruent", angdist((R)a, (R)w), 0, 1e-15 * (1 + std::fabs(a)));
}
#endif

// ------------------------------------------------------------------ F02 / F03 shared
#if VP(F02) || VP(F03) || VP(F04) || VP(F13)
struct One { Fac f; St a, b; NP na, nb; FP p; bool rev = false; };
// one measurement between fresh variables; `rev`: the second variable is created (numbered) first
static One gen_one(Case &g, FK k, double noise, bool zero = false, double extent = 5) {
    One o; o.f.k = k; o.a = canon(gen_state(g, FA[k], extent)); o.b = canon(gen_state(g, FB[k], extent)); o.a = rnd(o.a); o.b = rnd(o.b);
    if ((k == FL2 || k == FODO)) { double d = std::hypot((double)(o.a.v(0) - o.b.v(0)), (double)(o.a.v(1) - o.b.v(1))); if (d < 0.05) { o.b.v(0) = o.a.v(0) + 0.3; o.b.v(1) = o.a.v(1) - 0.2; o.b = rnd(o.b); } }
    if (k == FPL) { VX q = o.a.T.transpose() * V4(o.b.v); if (std::fabs((double)q(3)) < 1e-2) { o.b.v(3) += 0.5; o.b = rnd(o.b); } }
    observe(g, o.f, o.a, o.b, zero ? 0 : noise);
    o.f.W = gen_W(g, k); o.f.se3ctor = g.coin();
    o.rev = !FUN[k] && k != FODO && g.coin();
    return o;
}
static void make(Case &g, One &o) {
    o.na = make_node(o.a, false);
    size_t ia = g.raw(3), ib = ia + 1 + g.raw(3);
    if (o.rev) std::swap(ia, ib);
    o.na->set_id(ia);
    if (!FUN[o.f.k]) { o.nb = make_node(o.b, false); o.nb->set_id(ib); }
    o.p = make_factor(o.f, o.na, o.nb);
}
// angular entries of a residual
static void wrapr(FK k, Dv &d) { int i = k == FL2 ? 1 : (k == F1P2 || k == F2P2 || k == FODO) ? 2 : -1; if (i >= 0) d(i) = (double)wrap(d(i)); }
static FK pick_kind(Case &g) { return (FK)g.raw(8); }
#endif
#if VP(F02)
PROPERTY(F02, residual_matches_definition, 3) {
    FK k = pick_kind(g); double noise = g.pick({0.05, 1.0, 3.0, 1e-6});
    One o = gen_one(g, k, noise); make(g, o);
    g.d() << show(o.f) << "\n a " << show(o.a) << "\n b " << show(o.b) << "\n later variable first: " << o.rev;
    g.label(FKN[k]); g.label("reversed", o.rev);
    VX r = residual(o.f, o.a, o.b);
    double ang = 0, tol = 2e-13;
    if (k == FPL) { VX q = o.a.T.transpose() * V4(o.b.v); if (std::fabs((double)q(3)) < 1e-9) return; }
    if (k == FPP) tol = 1e-13;
    if (k == F1P3 || k == F2P3) { // accuracy of the logarithm: half the digits near a half turn, translation closed form
        ang = (double)r.head(3).norm(); if (ang > M_PI - 1e-3) return; double a = std::max(ang, 1e-300); tol = 1e-12 * (1 + 1 / (M_PI - ang)) + 20 * (a < 4.9e-3 ? 1e-12 : 1e-12 + 6e-15 / (a * a)); if (ang > 2.9) tol *= 10; }
    g.nontrivial(r.norm() > 1e-3);
    o.p->evaluate_residuals(); Dv got = o.p->get_residual();
    EXPECT("dim", got.size() == FDIM[k] && (int)o.p->get_dim() == FDIM[k]);
    Dv d = got - r.cast<double>(), dm = got + r.cast<double>(); wrapr(k, d); wrapr(k, dm);
    double e = d.cwiseAbs().maxCoeff();
    if (o.rev && (k == F2P3 || k == F2P2)) e = std::min(e, dm.cwiseAbs().maxCoeff()); // a reversed pair may report the mirrored sign
    if (!(e <= tol)) g.fail(std::string("residual-") + FKN[k], "residual differs from predicted minus observed by " + num(e) + " (tol " + num(tol) + ")\n got  " + str(got) + "\n want " + str(r));
    int ai = k == FL2 ? 1 : (k == F1P2 || k == F2P2 || k == FODO) ? 2 : -1;
    if (ai >= 0) EXPECT("angle-range", got(ai) >= -M_PI && got(ai) < M_PI);
}
PROPERTY(F02, zero_exactly_at_the_observation, 2) {
    FK k = pick_kind(g); One o = gen_one(g, k, 0, true); make(g, o);
    g.d() << show(o.f) << "\n a " << show(o.a) << "\n b " << show(o.b) << "\n later variable first: " << o.rev;
    g.label(FKN[k]); g.label("reversed", o.rev);
    o.p->evaluate_residuals(); Dv got = o.p->get_residual(); double tol = 2e-13;
    if (!(got.cwiseAbs().maxCoeff() <= tol)) g.fail(std::string("zero-") + FKN[k], "residual is " + str(got) + " although the states reproduce the observation");
    // and moving one state away makes it non-zero by about the amount moved
    bool mb = !FUN[k] && g.coin(); NP n = mb ? o.nb : o.na; NK nk = mb ? FB[k] : FA[k];
    VX dx = gen_dx(g, nk, 0.2); if (dx.norm() < 0.02) return; g.nontrivial();
    St moved = upd(mb ? o.b : o.a, dx); n->set_state(mat(rnd(moved)));
    VX want = residual(o.f, mb ? o.a : moved, mb ? moved : o.b);
    if (k == FPL) { VX q = (mb ? o.a : moved).T.transpose() * V4((mb ? moved : o.b).v); if (std::fabs((double)q(3)) < 1e-3) return; }
    o.p->evaluate_residuals(); Dv g2 = o.p->get_residual(); Dv wd = want.cast<double>(), d1 = g2 - wd, d2 = g2 + wd; wrapr(k, d1); wrapr(k, d2);
    double e = d1.cwiseAbs().maxCoeff(); if (o.rev && (k == F2P3 || k == F2P2)) e = std::min(e, d2.cwiseAbs().maxCoeff());
    double ltol = 1e-12; if (k == F1P3 || k == F2P3) { double a = (double)want.head(3).norm(); ltol = 1e-11 + 1e-13 / std::max(a * a, 1e-5); }
    if (!(e <= ltol)) g.fail(std::string("moved-") + FKN[k], "after moving a variable the residual is off by " + num(e) + "\n got  " + str(g2) + "\n want " + str(wd));
}
// the same measurement with the variables created in the two possible orders, or written from the other end
PROPERTY(F02, creation_order_and_mirror, 2) {
    FK k = g.pick({F2P2, F2P3, FL2, FL3, FPL}); One o = gen_one(g, k, g.pick({0.05, 1.0}));
    g.d() << show(o.f) << "\n a " << show(o.a) << "\n b " << show(o.b); g.label(FKN[k]); g.nontrivial();
    if (k == FPL) { VX q = o.a.T.transpose() * V4(o.b.v); if (std::fabs((double)q(3)) < 1e-9) return; }
    if (k == F2P3) { VX r = residual(o.f, o.a, o.b); if (r.head(3).norm() > 3.0L) return; }
    One p = o, q = o; p.rev = false; q.rev = true; make(g, p); make(g, q);
    for (One *x : {&p, &q}) { x->p->evaluate_residuals(); x->p->evaluate_chi2(); }
    double c = p.p->get_chi2(); double tol = 1e-11 * (1 + c);
    EXPECT_NEAR_(std::string("order-") + FKN[k], q.p->get_chi2(), c, tol);
    if (k == F2P3) { // Factor(origin, target, T) against Factor(target, origin, T^-1)
        One m = o; m.a = o.b; m.b = o.a; m.f.T = SE3(o.f.T).inv().T(); m.rev = g.coin(); make(g, m); m.p->evaluate_residuals(); m.p->evaluate_chi2();
        EXPECT_NEAR_("mirror-2Poses3d", m.p->get_chi2(), c, tol);
    }
}
#endif

// ------------------------------------------------------------------ F03
#if VP(F03)
static DX numeric_jacobian(const One &o, NP n, NK nk, bool aux) {
    DX x0 = n->get_state(); int d = FDIM[o.f.k]; DX J(d, NDIM[nk]);
    if (aux) n->set_auxiliary_state(x0);
    double h = 1e-3;
    // fourth-order central difference through the variable's own update rule
    auto at = [&](int c, double e) { Dv dx = Dv::Zero(NDIM[nk]); dx(c) = e; n->set_state(x0); if (aux) n->update_from_auxiliary(dx); else n->update(dx); o.p->evaluate_residuals(); Dv r = o.p->get_residual(); n->set_state(x0); return r; };
    o.p->evaluate_residuals(); Dv r0 = o.p->get_residual();
    for (int c = 0; c < NDIM[nk]; ++c) {
        auto df = [&](double hh) { Dv a = at(c, hh) - r0, b = at(c, -hh) - r0; wrapr(o.f.k, a); wrapr(o.f.k, b); Dv q = (a - b) / (2 * hh); return q; };
        Dv d1 = df(h), d2 = df(h / 2), d3 = df(h / 4); Dv e1 = (4 * d2 - d1) / 3, e2 = (4 * d3 - d2) / 3;
        J.col(c) = (16 * e2 - e1) / 15;
    }
    o.p->evaluate_residuals();
    return J;
}
static void jacobian_case(Case &g, FK k, bool zero, double noise) {
    One o = gen_one(g, k, noise, zero); make(g, o);
    g.d() << show(o.f) << "\n a " << show(o.a) << "\n b " << show(o.b) << "\n later variable first: " << o.rev; g.label(FKN[k]); g.label("reversed", o.rev);
    double range = 1;
    if (k == FL2 ) range = std::hypot((double)(o.a.v(0) - o.b.v(0)), (double)(o.a.v(1) - o.b.v(1)));
    if (k == FPL) { VX q = o.a.T.transpose() * V4(o.b.v); if (std::fabs((double)q(3)) < 0.05) return; }
    if (k == FPL) { // off the unit sphere the update rule is add-then-normalise: its derivative is the projection on the tangent
    }
    o.p->evaluate_residuals(); o.p->evaluate_jacobians(); DX J = o.p->get_jacobian(); Dv r = o.p->get_residual();
    if ((k == F1P3 || k == F2P3) && r.head(3).norm() > 2.5) return;
    int total = NDIM[FA[k]] + (FUN[k] ? 0 : NDIM[FB[k]]);
    EXPECT("shape", J.rows() == FDIM[k] && J.cols() == total && (int)o.p->get_all_nodes_dim() == total);
    bool aux = g.coin();
    DX Ja = numeric_jacobian(o, o.na, FA[k], aux), N(FDIM[k], total), Jb;
    if (!FUN[k]) Jb = numeric_jacobian(o, o.nb, FB[k], aux);
    if (FUN[k]) N = Ja; else if (!o.rev) N << Ja, Jb; else N << Jb, Ja;
    DX A = J;
    if (k == FPL) { // derivative through the plane's own update rule (add, then renormalise the normal)
        Eigen::Matrix4d Pm = Eigen::Matrix4d::Identity(); Eigen::Vector3d n = o.b.v.head(3).cast<double>(); Pm.topLeftCorner<3, 3>() -= n * n.transpose();
        int c0 = o.rev ? 0 : 6; A.block(0, c0, 4, 4) = (A.block(0, c0, 4, 4) * Pm).eval(); N.block(0, c0, 4, 4) = (N.block(0, c0, 4, 4) * Pm).eval();
    }
    double scale = 1 + N.cwiseAbs().maxCoeff();
    double tol = 3e-9 * scale * (1 + r.cwiseAbs().maxCoeff()) * std::max(1.0, std::pow(0.5 / range, 6));
    if (k == F1P3 || k == F2P3) { V6 rr = r.cast<R>(); double ad_ = (double)ad(rr).norm(); double an = r.head(3).norm();
        tol += 0.75 * ad_ * N.norm() * (1 + 0.5 * an); tol += 1e-9 * scale; if (an > 1e-3) tol += 1e-8 * scale; g.label("zero residual", zero); }
    g.nontrivial(!zero || k == F2P3);
    double e = maxdiff(A, N);
    if (!(e <= tol)) g.fail(std::string("jacobian-") + FKN[k], "Jacobian differs from the numerical derivative by " + num(e) + " (tol " + num(tol) + ")\n got  " + str(A) + "\n want " + str(N));
}
PROPERTY(F03, planar, 2) { jacobian_case(g, g.pick({F1P2, F2P2, FODO, FL2}), g.chance(1, 4), g.pick({0.05, 1.0})); }
PROPERTY(F03, spatial, 2) { jacobian_case(g, g.pick({FL3, FPL, FPP}), g.chance(1, 4), g.pick({0.05, 1.0})); }
PROPERTY(F03, pose3d_at_zero_residual, 1) { jacobian_case(g, g.pick({F1P3, F2P3}), true, 0); }
PROPERTY(F03, pose3d_first_order, 1) { jacobian_case(g, g.pick({F1P3, F2P3}), false, g.pick({1e-4, 1e-3, 1e-2, 0.1, 0.3})); }
#endif

// ------------------------------------------------------------------ F04
#if VP(F04)
PROPERTY(F04, cost_of_a_measurement, 2) {
    FK k = pick_kind(g); One o = gen_one(g, k, g.pick({0.05, 1.0, 5.0})); o.f.robust = (int)g.raw(3); make(g, o);
    g.d() << show(o.f) << "\n a " << show(o.a) << "\n b " << show(o.b); g.label(FKN[k]);
    o.p->evaluate_residuals(); o.p->evaluate_chi2(); Dv r = o.p->get_residual(); VX rl = r.cast<R>(); R q = rl.dot(o.f.W.cast<R>() * rl);
    g.nontrivial(q > 1e-6L);
    EXPECT_NEAR_("chi2", o.p->get_chi2(), q / 2, 1e-13 * (1 + (double)(rl.cwiseAbs().dot(o.f.W.cast<R>().cwiseAbs() * rl.cwiseAbs()))));
    EXPECT_CLOSE("information", DX(o.p->get_information_matrix()), o.f.W, 0.0);
}
PROPERTY(F04, robust_weight_function, 2) {
    One o = gen_one(g, F1P2, 1); o.f.robust = (int)g.raw(3); make(g, o);
    double u; switch (g.weighted({3, 2, 2, 1})) { default: u = g.logmag(1e-6, 1e6); break; case 1: u = 1 + g.sym(1e-3); break; case 2: u = g.real(0, 3); break; case 3: u = g.pick({0.0, 1.0, std::nextafter(1.0, 0), std::nextafter(1.0, 2)}); break; }
    g.d() << "kernel " << o.f.robust << " u " << num(u); g.nontrivial(o.f.robust > 0 && u > 0);
    double w = (double)weight(o.f.robust, u);
    EXPECT_NEAR_("weight", o.p->evaluate_robust_weight(u), w, 1e-15 + 4e-16 * w);
    EXPECT_NEAR_("weight-again", o.p->evaluate_robust_weight(u), w, 1e-15 + 4e-16 * w); // stateless
}
PROPERTY(F04, graph_cost_and_weights, 3) {
    Opts op; op.noise = g.pick({0.05, 0.5, 2.0}); op.init = g.pick({0.0, 0.3}); op.big = 300; Problem p = gen_problem(g, op);
    g.d() << p.show(); auto B = build<FGraphSolve>(p);
    if (g.chance(1, 3)) { B.g->solve(FGraphSolve::GN); }
    R tot = 0; std::vector<R> c; bool above = false, below = false;
    for (size_t i = 0; i < p.f.size(); ++i) { B.f[i]->evaluate_residuals(); VX r = Dv(B.f[i]->get_residual()).cast<R>(); R q = r.dot(p.f[i].W.cast<R>() * r); c.push_back(q / 2); tot += q / 2; if (p.f[i].robust) (q > 1 ? above : below) = true; }
    for (auto &n : B.n) (void)n;
    g.nontrivial(p.f.size() > 1); g.label("robust, above threshold", above); g.label("robust, below threshold", below);
    double s = 1e-11 * (1 + (double)tot); if (!std::isfinite(s) || tot > 1e12L) return;
    EXPECT_NEAR_("total", B.g->chi2(true), tot, s);
    EXPECT_NEAR_("total-no-reevaluation", B.g->chi2(false), tot, s);
    Dv arr = B.g->get_chi2_array(); EXPECT("array-size", arr.size() == (int)p.f.size());
    for (size_t i = 0; i < c.size(); ++i) EXPECT_NEAR_("array", arr(i), c[i], s);
    // moving a variable without re-evaluation keeps the last values; re-evaluation sees the move
    size_t vi = g.raw(p.v.size() - 1); VX dx = gen_dx(g, p.v[vi].truth.k, 0.5); DX before = B.n[vi]->get_state(); B.n[vi]->update(Dv(dx.cast<double>()));
    EXPECT_NEAR_("stale", B.g->chi2(false), tot, s);
    R t2 = 0; for (size_t i = 0; i < p.f.size(); ++i) { FP f = make_factor(p.f[i], B.n[p.f[i].a], p.f[i].b >= 0 ? B.n[p.f[i].b] : NP()); f->evaluate_residuals(); VX r = Dv(f->get_residual()).cast<R>(); t2 += r.dot(p.f[i].W.cast<R>() * r) / 2; }
    EXPECT_NEAR_("re-evaluated", B.g->chi2(), t2, 1e-11 * (1 + (double)t2));
    B.n[vi]->set_state(before); B.g->chi2(true);
    // the weight matrix of the assembled problem
    auto st = states(B); MX Wref = linearise(p, B).W;
    B.g->solve(FGraphSolve::GN); DX W = DX(B.g->get_W_matrix()); W = DX(W.selfadjointView<Eigen::Upper>());
    EXPECT_CLOSE("robust-information", W, Wref.cast<double>(), 1e-11 * (1 + (double)Wref.cwiseAbs().maxCoeff()));
}
#endif

// ------------------------------------------------------------------ F05
#if VP(F05)
PROPERTY(F05, construction_history, 1) {
    FGraphSolve G; struct MN { NP n; St s; bool anchor; std::vector<Factor *> nb; }; std::vector<MN> ns; struct MF { FP f; Fac d; }; std::vector<MF> fs;
    std::vector<MF> spare, eig; // measurements never added to the graph; those added as eigen factors
    int steps = (int)g.in_range(1, 4 + 2 * (int)g.size), dups = 0, rms = 0; if (g.chance(1, 300)) { steps += (int)g.in_range(150, 500); g.label("large graph"); }
    auto verify = [&](const char *when) {
        std::string w = std::string(" ") + when;
        EXPECT("number-nodes", G.number_nodes() == ns.size()); EXPECT("number-factors", G.number_factors() == fs.size());
        size_t sd = 0, od = 0; for (auto &n : ns) if (!n.anchor) sd += NDIM[n.s.k]; for (auto &f : fs) od += FDIM[f.d.k]; for (auto &f : eig) od += FDIM[f.d.k];
        if (G.get_dimension_state() != sd) g.fail("state-dim", "state dimension " + std::to_string(G.get_dimension_state()) + " expected " + std::to_string(sd) + w);
        if (G.get_dimension_obs() != od) g.fail("obs-dim", "observation dimension " + std::to_string(G.get_dimension_obs()) + " expected " + std::to_string(od) + w);
        for (size_t i = 0; i < ns.size(); ++i) { EXPECT("get-node", G.get_node(i) == ns[i].n); EXPECT("node-id", ns[i].n->get_id() == i); EXPECT("node-mode", (ns[i].n->get_node_mode() == Node::nodeMode::ANCHOR) == ns[i].anchor);
            auto *l = ns[i].n->get_neighbour_factors(); std::vector<Factor *> got; for (auto &f : *l) got.push_back(f.get()); auto a = got, b = ns[i].nb; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            if (a != b) g.fail("neighbour-list", "variable " + std::to_string(i) + " lists " + std::to_string(a.size()) + " measurements, expected " + std::to_string(b.size()) + w); }
        for (size_t i = 0; i < fs.size(); ++i) { EXPECT("get-factor", G.get_factor(i) == fs[i].f); EXPECT("factor-id", fs[i].f->get_id() == i);
            auto *l = fs[i].f->get_neighbour_nodes(); EXPECT("factor-nodes", l->size() == (FUN[fs[i].d.k] ? 1u : 2u)); size_t prev = 0; for (size_t j = 0; j < l->size(); ++j) { size_t id = (*l)[j]->get_id(); EXPECT("factor-node-order", j == 0 || id > prev); prev = id; EXPECT("factor-node", (int)id == fs[i].d.a || (int)id == fs[i].d.b); } }
        auto est = G.get_estimated_state(); EXPECT("estimate-size", est.size() == ns.size());
        for (size_t i = 0; i < ns.size(); ++i) { double d = sdiff(ns[i].s, DX(est[i])); if (!(d <= 1e-12 * (1 + smag(ns[i].s)))) g.fail("estimate", "estimated state " + std::to_string(i) + " differs by " + num(d) + w); }
    };
    for (int i = 0; i < steps; ++i) {
        switch (g.weighted({6, 8, 2, 2, 2, 2, 1, 1})) {
        case 0: { NK k = (NK)g.raw(4); MN m; m.s = rnd(canon(gen_state(g, k))); m.anchor = g.chance(1, 3); m.n = make_node(m.s, m.anchor); size_t id = G.add_node(m.n); g.d() << "node " << NKN[k] << (m.anchor ? " anchor" : "") << "\n"; EXPECT("add-node-id", id == ns.size()); ns.push_back(m); break; }
        case 1: { FK k = (FK)g.raw(8); std::vector<int> A, Bn; for (size_t j = 0; j < ns.size(); ++j) { if (ns[j].s.k == FA[k]) A.push_back((int)j); if (ns[j].s.k == FB[k]) Bn.push_back((int)j); }
            if (A.empty() || Bn.empty()) break; Fac f; f.k = k; f.a = A[g.raw(A.size() - 1)]; f.b = FUN[k] ? -1 : Bn[g.raw(Bn.size() - 1)]; if (f.a == f.b) break; if (k == FODO && f.a > f.b) std::swap(f.a, f.b);
            f.W = DX::Identity(FDIM[k], FDIM[k]); observe(g, f, ns[f.a].s, f.b >= 0 ? ns[f.b].s : ns[f.a].s, 0.1);
            MF m; m.d = f; m.f = make_factor(f, ns[f.a].n, f.b >= 0 ? ns[f.b].n : NP());
            if (g.chance(1, 6)) { spare.push_back(m); break; }
            size_t id = G.add_factor(m.f); g.d() << "factor " << FKN[k] << " " << f.a << " " << f.b << "\n"; EXPECT("add-factor-id", id == fs.size()); fs.push_back(m); ns[f.a].nb.push_back(m.f.get()); if (f.b >= 0) ns[f.b].nb.push_back(m.f.get()); break; }
        case 2: if (!ns.empty()) { size_t j = g.raw(ns.size() - 1); g.d() << "add node " << j << " again\n"; NP n = ns[j].n; size_t id = G.add_node(n); EXPECT("re-add-node-id", id == j); ++dups; } break;
        case 3: if (!fs.empty()) { size_t j = g.raw(fs.size() - 1); g.d() << "add factor " << j << " again\n"; FP f = fs[j].f; size_t id = G.add_factor(f); EXPECT("re-add-factor-id", id == j); ++dups; } break;
        case 4: if (!fs.empty()) { // remove a listed measurement from one variable's list, possibly add it back
            size_t j = g.raw(fs.size() - 1); int v = fs[j].d.b >= 0 && g.coin() ? fs[j].d.b : fs[j].d.a; FP f = fs[j].f; auto &nb = ns[v].nb; auto it = std::find(nb.begin(), nb.end(), f.get()); if (it == nb.end()) break;
            g.d() << "node " << v << " rm_factor " << j << "\n"; EXPECT("removing a listed measurement reports it", ns[v].n->rm_factor(f)); nb.erase(it); ++rms; verify("after removing");
            if (g.coin()) { EXPECT("listing a measurement reports it", ns[v].n->add_factor(f)); nb.push_back(f.get()); } } break;
        case 5: if (!ns.empty()) { // remove an unknown one
            size_t v = g.raw(ns.size() - 1); FP f; if (!spare.empty() && g.coin()) f = spare[g.raw(spare.size() - 1)].f; else if (!fs.empty()) f = fs[g.raw(fs.size() - 1)].f; if (!f) break;
            auto &nb = ns[v].nb; if (std::find(nb.begin(), nb.end(), f.get()) != nb.end()) break; g.d() << "node " << v << " rm unknown factor\n"; EXPECT("removing an unknown measurement reports so", !ns[v].n->rm_factor(f)); ++rms; } break;
        case 6: if (!ns.empty()) { size_t v = g.raw(ns.size() - 1); St x = rnd(canon(gen_state(g, ns[v].s.k))); ns[v].n->set_state(mat(x)); ns[v].s = x; } break;
        case 7: if (!spare.empty() || !eig.empty()) { // eigen factors are kept and numbered apart
            if (!eig.empty() && (spare.empty() || g.chance(1, 3))) { size_t j = g.raw(eig.size() - 1); FP f = eig[j].f; EXPECT("re-add-eigen-factor-id", G.add_eigen_factor(f) == j); g.d() << "add eigen factor " << j << " again\n"; ++dups; break; }
            size_t j = g.raw(spare.size() - 1); MF m = spare[j]; spare.erase(spare.begin() + j); size_t id = G.add_eigen_factor(m.f); g.d() << "eigen factor " << FKN[m.d.k] << "\n"; EXPECT("add-eigen-factor-id", id == eig.size()); EXPECT("eigen-factor-id", m.f->get_id() == id); eig.push_back(m); ns[m.d.a].nb.push_back(m.f.get()); if (m.d.b >= 0) ns[m.d.b].nb.push_back(m.f.get()); g.label("eigen factor"); } break;
        }
        verify("");
    }
    g.label("re-added", dups > 0); g.label("removed", rms > 0); g.nontrivial(ns.size() >= 2 && fs.size() >= 1);
    // dropping the graph clears the lists (no ownership cycle keeps the objects alive)
    { std::weak_ptr<Factor> wf; { auto B = std::make_shared<FGraphSolve>(); NP n = make_node(gen_state(g, P2), false); B->add_node(n); Fac f; f.k = F1P2; f.a = 0; f.W = DX::Identity(3, 3); f.obs = Dv::Zero(3); FP q = make_factor(f, n, NP()); B->add_factor(q); wf = q; } EXPECT("released", wf.expired()); }
}
#endif

// ------------------------------------------------------------------ F06
#if VP(F06) || VP(F07) || VP(F09) || VP(F10) || VP(F12) || VP(F08) || VP(F11)
static FGraphSolve::optimMethod GNm = FGraphSolve::GN;
static FGraphSolve::optimMethod LMm = FGraphSolve::LM;
static void describe(Case &g, const Problem &p) {
    g.d() << p.show(); int anc = 0, w2 = 0, w3 = 0; for (auto &v : p.v) { anc += v.anchor; (v.truth.k == P2 || v.truth.k == L2 ? w2 : w3)++; }
    g.label("anchored", anc > 0); g.label("2D", w2 > 0); g.label("3D", w3 > 0); g.label("2D and 3D together", w2 && w3); bool rob = false; for (auto &f : p.f) rob = rob || f.robust; g.label("robust", rob);
}
#endif
#if VP(F06)
static void check_system(Case &g, const Problem &p, const Built<FGraphSolve> &B, const char *when) {
    Lin s = linearise(p, B); // state before the step
    if (cond(s.L) > 1e13) { g.label("ill-conditioned, skipped"); return; }
    B.g->solve(GNm);
    DX A = DX(B.g->get_adjacency_matrix()), W = DX(B.g->get_W_matrix()), L = DX(B.g->get_information_matrix()); Dv b = B.g->get_vector_b();
    W = DX(W.selfadjointView<Eigen::Upper>());
    std::string w = std::string(when) + " ";
    EXPECT_CLOSE("A " + w, A, s.A.cast<double>(), 0.0);
    EXPECT_CLOSE("W " + w, W, s.W.cast<double>(), 1e-12 * (1 + (double)s.W.cwiseAbs().maxCoeff()));
    double la = 1 + (double)(s.A.cwiseAbs().transpose() * s.W.cwiseAbs() * s.A.cwiseAbs()).maxCoeff(), lb = 1 + (double)(s.A.cwiseAbs().transpose() * s.W.cwiseAbs() * s.r.cwiseAbs()).maxCoeff();
    DX Ls = L; // only one triangle has to be stored
    if (maxdiff(L, s.L.cast<double>()) > 1e-11 * la) { DX lo = L.selfadjointView<Eigen::Lower>(); Ls = lo; }
    EXPECT_CLOSE("L " + w, Ls, s.L.cast<double>(), 1e-11 * la);
    EXPECT_CLOSE("b " + w, b, s.b.cast<double>(), 1e-11 * lb);
}
PROPERTY(F06, assembled_system, 2) {
    Opts op; op.noise = g.pick({0.05, 0.5}); op.init = g.pick({0.0, 0.2}); op.maxposes = 7; op.maxland = 4; op.big = 300; Problem p = gen_problem(g, op); describe(g, p);
    auto B = build<FGraphSolve>(p); g.nontrivial(p.v.size() > 1 && p.f.size() > 2);
    check_system(g, p, B, "");
}
// variables and measurements are added in several batches with solves in between, measurements as soon as their variables exist
PROPERTY(F06, growth_between_solves, 2) {
    Opts op; op.noise = 0.05; op.init = 0.1; op.maxposes = 7; op.maxland = 4; op.big = 300; Problem p = gen_problem(g, op); describe(g, p);
    Problem q; Built<FGraphSolve> B; B.g = std::make_shared<FGraphSolve>(); std::vector<bool> done(p.f.size(), false); int solves = 0, batches = (int)g.in_range(2, 4); size_t nv = 0;
    for (int bt = 0; bt < batches; ++bt) {
        size_t upto = bt == batches - 1 ? p.v.size() : nv + g.raw(p.v.size() - nv);
        for (; nv < upto; ++nv) { NP n = make_node(p.v[nv].init, p.v[nv].anchor); B.g->add_node(n); B.n.push_back(n); q.v.push_back(p.v[nv]); }
        for (size_t i = 0; i < p.f.size(); ++i) { int m = std::max(p.f[i].a, p.f[i].b); if (done[i] || m >= (int)nv) continue; if (bt < batches - 1 && g.chance(1, 4)) continue; done[i] = true; FP f = make_factor(p.f[i], B.n[p.f[i].a], p.f[i].b >= 0 ? B.n[p.f[i].b] : NP()); B.g->add_factor(f); B.f.push_back(f); q.f.push_back(p.f[i]); }
        if (q.f.empty()) continue;
        Lin s = linearise(q, B); if (s.L.rows() == 0) continue;
        if (cond(s.L) > 1e9) { if (bt < batches - 1 && g.coin()) { auto st = states(B); B.g->solve(LMm, 1, 1e-3); restore(B, st); } continue; }
        check_system(g, q, B, bt ? "after growth" : ""); ++solves;
        if (g.chance(1, 3)) { check_system(g, q, B, "repeated"); ++solves; }
    }
    g.nontrivial(solves >= 2); g.label("two or more solves", solves >= 2);
}
#endif

// ------------------------------------------------------------------ F07
#if VP(F07)
PROPERTY(F07, step_is_normal_equation_solution, 3) {
    Opts op; op.noise = g.pick({0.05, 0.3}); op.init = g.pick({0.0, 0.1, 0.3}); op.maxposes = 7; op.maxland = 4; op.big = 300; Problem p = gen_problem(g, op); describe(g, p);
    auto B = build<FGraphSolve>(p); int solves = (int)g.in_range(1, 2);
    for (int it = 0; it < solves; ++it) {
        Lin s = linearise(p, B); double c = cond(s.L); if (c > 1e7) { g.label("ill-conditioned, skipped"); return; }
        auto before = as_states(p, states(B)); VX dx = s.L.ldlt().solve(s.b); if (dx.cwiseAbs().maxCoeff() > 50) return;
        B.g->solve(GNm); g.nontrivial(dx.cwiseAbs().maxCoeff() > 1e-6);
        for (size_t i = 0; i < p.v.size(); ++i) {
            St want = before[i]; if (!p.v[i].anchor) want = upd(before[i], -dx.segment(s.col[i], NDIM[p.v[i].truth.k]));
            if (want.k == PL && std::fabs((double)((before[i].v - dx.segment(p.v[i].anchor ? 0 : s.col[i], 4)).head(3).norm())) < 0.05 && !p.v[i].anchor) continue;
            double tol = (p.v[i].anchor ? 0 : 1e-13 * (10 + c) * (1 + (double)dx.cwiseAbs().maxCoeff()) * (1 + smag(want)) * 10), d = sdiff(want, DX(B.n[i]->get_state()));
            if (!(d <= tol)) g.fail("step", "variable " + std::to_string(i) + " differs from the normal-equation step by " + num(d) + " (tol " + num(tol) + ", cond " + num(c) + ")\n got  " + str(DX(B.n[i]->get_state())) + "\n want " + str(mat(want)));
        }
    }
}
// measurements linear in their free variables: absolute planar poses (small angles) and 3D landmarks seen from anchored poses
PROPERTY(F07, linear_problem_in_one_step, 1) {
    Problem p; int nv = (int)g.in_range(1, 5); bool pl = g.coin(); Opts o;
    if (!pl) { int na = (int)g.in_range(1, 3); for (int i = 0; i < na; ++i) { Var v; v.truth = v.init = rnd(gen_state(g, P3)); v.anchor = true; p.v.push_back(v); } }
    int n0 = (int)p.v.size();
    for (int i = 0; i < nv; ++i) { Var v; v.truth = rnd(gen_state(g, pl ? P2 : L3)); if (pl) v.truth.v(2) = (R)g.sym(0.5); v.init = gen_state(g, pl ? P2 : L3); if (pl) v.init.v(2) = (R)g.sym(0.5); p.v.push_back(v); }
    for (int i = 0; i < nv; ++i) { int m = (int)g.in_range(1, 4); for (int j = 0; j < m; ++j) { Fac f; f.k = pl ? F1P2 : FL3; f.a = pl ? i : (int)g.raw(n0 - 1); f.b = pl ? -1 : n0 + i; f.W = gen_W(g, f.k); observe(g, f, p.v[f.a].truth, f.b >= 0 ? p.v[f.b].truth : p.v[f.a].truth, pl ? 0.4 : 1.0); p.f.push_back(f); } }
    describe(g, p); auto B = build<FGraphSolve>(p); Lin s0 = linearise(p, B); double c = cond(s0.L); if (c > 1e6) return; g.nontrivial(p.f.size() > 1);
    B.g->solve(GNm);
    // optimum computed directly, in closed form
    for (int i = 0; i < nv; ++i) {
        MX H = MX::Zero(3, 3); VX h = VX::Zero(3);
        for (auto &f : p.f) if ((pl ? f.a : f.b) == n0 + i) { MX W = f.W.cast<R>(); VX z = f.obs.cast<R>(); if (!pl) { M4 T = p.v[f.a].truth.T; M3 Rr = T.topLeftCorner<3, 3>(); W = (Rr * W * Rr.transpose()).eval(); z = act(T, h3(z)); } H += W; h += W * z; }
        VX x = H.fullPivLu().solve(h); double d = sdiff(St::vec(pl ? P2 : L3, x), DX(B.n[n0 + i]->get_state()));
        if (!(d <= 1e-13 * (10 + c) * 100)) g.fail("optimum", "after one step variable " + std::to_string(n0 + i) + " is " + num(d) + " from the weighted least-squares optimum");
    }
    Lin s1 = linearise(p, B); double lb = (double)(s1.A.cwiseAbs().transpose() * s1.W.cwiseAbs() * s1.r.cwiseAbs()).maxCoeff();
    EXPECT_NEAR_("gradient", s1.b.cwiseAbs().maxCoeff(), 0, 1e-11 * (1 + lb) * (1 + std::sqrt(c)));
    auto st = as_states(p, states(B)); B.g->solve(GNm); EXPECT_NEAR_("stationary", gdiff(B, st), 0, 1e-12 * (10 + c) * 10);
}
PROPERTY(F07, stationary_point_does_not_move, 1) {
    Opts op; op.noise = 0; op.init = 0; op.maxposes = 7; op.maxland = 4; op.big = 300; Problem p = gen_problem(g, op); describe(g, p);
    auto B = build<FGraphSolve>(p); Lin s = linearise(p, B); double c = cond(s.L); if (c > 1e8) { g.label("ill-conditioned, skipped"); return; } g.nontrivial(p.f.size() > 1);
    auto st = as_states(p, states(B)); int k = (int)g.in_range(1, 3); for (int i = 0; i < k; ++i) B.g->solve(GNm);
    EXPECT_NEAR_("moved", gdiff(B, st), 0, 1e-12 * (100 + std::sqrt(c) * 10));
}
#endif

// ------------------------------------------------------------------ F08
#if VP(F08)
static double graph_cost(const Problem &p, const std::vector<DX> &st) { // through fresh measurements, so that no cached value is trusted
    Problem q = p; for (size_t i = 0; i < q.v.size(); ++i) q.v[i].init = from(p.v[i].truth.k, st[i]); auto B = build<FGraphSolve>(q); return linearise(q, B).cost;
}
static Problem bad_start(Case &g, double &init) {
    Opts op; op.noise = g.pick({0.0, 0.1, 0.5}); init = g.pick({0.05, 0.5, 2.0, 6.0}); op.init = init; op.big = 300; Problem p = gen_problem(g, op);
    if (g.chance(1, 4)) for (auto &f : p.f) f.W *= g.pick({1e3, 1e-3, 1e5});
    return p;
}
static double same(const std::vector<DX> &a, const std::vector<DX> &b) { double d = 0; for (size_t i = 0; i < a.size(); ++i) d = std::max(d, maxdiff(a[i], b[i])); return d; }
PROPERTY(F08, never_worse, 3) {
    double init; Problem p = bad_start(g, init); describe(g, p);
    auto B = build<FGraphSolve>(p); double c0 = B.g->chi2(true); if (!std::isfinite(c0) || c0 > 1e15) return;
    unsigned budget = (unsigned)g.pick({1, 2, 3, 5, 10, 20, 40}); double lam = g.logmag(1e-9, 1e9), tol = g.logmag(1e-12, 1e3); if (g.chance(1, 8)) lam = 0; if (g.chance(1, 8)) tol = 0;
    g.d() << "budget " << budget << " lambda " << num(lam) << " tol " << num(tol); int rep = (int)g.in_range(1, 2); g.nontrivial(c0 > 1e-9);
    for (int r = 0; r < rep; ++r) {
        B.g->solve(LMm, budget, lam, tol); auto st = states(B); double c1 = graph_cost(p, st);
        if (!(c1 <= c0 * (1 + 1e-9) + 1e-15)) g.fail("worse", "cost went from " + num(c0) + " to " + num(c1));
        EXPECT_NEAR_("reported", B.g->chi2(true), c1, 1e-9 * (1 + c1));
        c0 = c1;
    }
}
// a longer budget extends the same run: costs along it never increase and a rejected last step leaves the state as it was
PROPERTY(F08, budgets_extend_each_other, 2) {
    double init; Problem p = bad_start(g, init); describe(g, p); double lam = g.logmag(1e-9, 1e6), tol = g.pick({0.0, 1e-12, 1e-3});
    g.d() << "lambda " << num(lam) << " tol " << num(tol);
    std::vector<DX> prev; double cp = 0; int rej = 0, acc = 0; unsigned K = (unsigned)g.in_range(2, 8);
    for (unsigned k = 0; k <= K; ++k) {
        auto B = build<FGraphSolve>(p); if (k) B.g->solve(LMm, k, lam, tol); auto st = states(B); double c = graph_cost(p, st); if (!k && (!std::isfinite(c) || c > 1e15)) return;
        if (k) {
            if (!(c <= cp * (1 + 1e-9) + 1e-15)) g.fail("increase", "cost " + num(cp) + " after " + std::to_string(k - 1) + " iterations but " + num(c) + " after " + std::to_string(k));
            if (same(st, prev) == 0) ++rej; else ++acc;
        }
        prev = st; cp = c;
    }
    g.label("a rejected step", rej > 0); g.label("accepted steps", acc > 0); g.nontrivial(acc > 0);
}
// the first trial step: (L + lambda I) dx = b with the caller's lambda, taken exactly when it does not increase the cost
PROPERTY(F08, first_trial_step, 3) {
    double init; Problem p = bad_start(g, init); describe(g, p); auto B = build<FGraphSolve>(p); Lin s = linearise(p, B); if (!std::isfinite(s.cost) || s.cost > 1e12) return;
    double top = (double)s.L.diagonal().maxCoeff(), lam = top * g.logmag(1e-7, 1e6); if (g.chance(1, 3)) lam = g.pick({1e-6, 1e-3, 1.0, 100.0, 1e5}); double c; { MX D = s.L; for (int i = 0; i < D.rows(); ++i) D(i, i) += lam; c = cond(D); if (c > 1e8) return; VX dx = D.ldlt().solve(s.b); auto st0 = states(B); auto m0 = as_states(p, st0);
        if (dx.cwiseAbs().maxCoeff() > 20) return;
        std::vector<St> trial = m0; bool deg = false; for (size_t i = 0; i < m0.size(); ++i) if (!p.v[i].anchor) { VX d = -dx.segment(s.col[i], NDIM[p.v[i].truth.k]); if (m0[i].k == PL && (m0[i].v + d).head(3).norm() < 0.05L) deg = true; trial[i] = upd(m0[i], d); }
        if (deg) return;
        std::vector<DX> tm; for (auto &t : trial) tm.push_back(mat(t)); double ct = graph_cost(p, tm);
        g.d() << "lambda " << num(lam) << " cost " << num(s.cost) << " trial cost " << num(ct);
        double tol = g.pick({1e-12, 1e-2, 1e6}); B.g->solve(LMm, 1, lam, tol); double dt = gdiff(B, trial), d0 = gdiff(B, m0), dm = (double)dx.cwiseAbs().maxCoeff(); double ctol = 1e-7 * s.cost + 1e-12;
        double ttol = 1e-12 * (10 + c) * (1 + dm) * (1 + init) * 30; g.nontrivial(dm > 1e-6);
        bool imp = ct < s.cost - ctol, wor = ct > s.cost + ctol || !std::isfinite(ct); g.label("improving trial", imp); g.label("worsening trial", wor);
        if (imp && !(dt <= ttol)) g.fail("first-step", "the first step differs from the damped step with the caller's lambda by " + num(dt) + " (tol " + num(ttol) + "), moved " + num(d0) + ", expected to move " + num(dm));
        if (wor && !(d0 <= 1e-13 * (1 + init))) g.fail("rollback", "the rejected step left the variables " + num(d0) + " from where they were");
        if (!imp && !wor && !(std::min(d0, dt) <= ttol)) g.fail("neither", "the state is neither the old one nor the trial");
    }
}
// stopping before the budget: exactly when an accepted step gains less than the caller's tolerance (the path is the one taken with tolerance 0)
PROPERTY(F08, stops_by_tolerance, 1) {
    double init; Problem p = bad_start(g, init); describe(g, p); double top = 1; { auto B = build<FGraphSolve>(p); Lin s = linearise(p, B); if (!std::isfinite(s.cost) || s.cost > 1e12) return; top = (double)s.L.diagonal().maxCoeff(); }
    double lam = g.coin() ? g.logmag(1e-9, 1e3) : top * g.logmag(1e-2, 1e5), tol = g.logmag(1e-8, 1e4); unsigned K = (unsigned)g.in_range(2, 9), j = K; g.d() << "lambda " << num(lam) << " tol " << num(tol) << " budget " << K;
    std::vector<double> c; std::vector<std::vector<DX>> st; bool tie = false;
    for (unsigned k = 0; k <= K; ++k) {
        auto B = build<FGraphSolve>(p); if (k) B.g->solve(LMm, k, lam, 0.0); st.push_back(states(B)); c.push_back(graph_cost(p, st.back())); if (!k) { if (!std::isfinite(c[0]) || c[0] > 1e12) return; continue; }
        // (restoring a plane after a rejected step may renormalise it: differences of a few ulp are no step)
        double far = same(st[k], st[k - 1]); bool moved = far > 1e-12 * (1 + init); if (moved && far < 1e-8 * (1 + init)) tie = true; double gain = c[k - 1] - c[k], eps = 1e-9 * (1 + c[k - 1]); if (moved && j == K) { tie = tie || std::fabs(gain - tol) < eps; if (gain < tol) j = k; }
    }
    if (tie) { g.label("gain close to the tolerance or a tiny step, skipped"); return; }
    g.label("stops before the budget", j < K); g.label("cost above 100", c[0] > 100); g.nontrivial(same(st[0], st[K]) != 0);
    auto B = build<FGraphSolve>(p); B.g->solve(LMm, K, lam, tol); auto s = states(B); double c1 = graph_cost(p, s);
    if (!(std::fabs(c1 - c[j]) <= 1e-9 * (1 + c[j]))) g.fail("stop", "cost " + num(c1) + " after the solve; the first accepted step that gains less than the tolerance is " + std::to_string(j) + " of " + std::to_string(K) + ", it leaves cost " + num(c[j]) + " (start " + num(c[0]) + ")");
}
PROPERTY(F08, converges_on_consistent_problems, 1) {
    Opts op; op.noise = 0; op.init = g.pick({0.01, 0.05}); Problem p = gen_problem(g, op); describe(g, p);
    for (auto &v : p.v) if (v.truth.k == PL) { g.label("planes, skipped"); return; } // over-parametrised normals: the damped step is lost in the renormalisation, slow linear convergence
    auto B = build<FGraphSolve>(p); Lin s = linearise(p, B); double c = cond(s.L); if (c > 1e5) return; double c0 = s.cost; g.nontrivial(c0 > 1e-9);
    double lam = g.logmag(1e-9, 1e-1); unsigned budget = 300; g.d() << "lambda " << num(lam);
    B.g->solve(LMm, budget, lam, 1e-13); double c1 = B.g->chi2(true);
    if (!(c1 <= std::max(1e-3 * c0, 1e-6 * (1 + c0)))) g.fail("not-converged", "cost " + num(c1) + " from " + num(c0) + " although the problem is consistent");
    std::vector<St> tr; for (auto &v : p.v) tr.push_back(v.truth); double lo = 0; { DX Ld = s.L.cast<double>(); Eigen::SelfAdjointEigenSolver<DX> es(Ld, Eigen::EigenvaluesOnly); lo = es.eigenvalues()(0); }
    EXPECT_NEAR_("truth", gdiff(B, tr), 0, 20 * std::sqrt(std::max(1e-3 * c0, 1e-6 * (1 + c0)) / lo));
}
#endif

// ------------------------------------------------------------------ F09
#if VP(F09)
PROPERTY(F09, anchors_never_move, 2) {
    Opts op; op.noise = g.pick({0.05, 0.5}); op.init = g.pick({0.1, 1.0}); op.big = 300; Problem p = gen_problem(g, op);
    int na = 0; for (auto &v : p.v) { if (!v.anchor && g.chance(1, 4)) v.anchor = true; } bool freev = false; for (auto &v : p.v) freev = freev || !v.anchor; if (!freev) p.v[g.raw(p.v.size() - 1)].anchor = false;
    for (auto &v : p.v) { if (v.anchor && g.coin()) v.init = rnd(upd(v.truth, gen_dx(g, v.truth.k, 0.5))); na += v.anchor; }
    describe(g, p); g.nontrivial(na > 0 && na < (int)p.v.size());
    bool dense = g.chance(1, 3); int reps = (int)g.in_range(1, 4);
    size_t sd = 0; for (auto &v : p.v) if (!v.anchor) sd += NDIM[v.truth.k];
    auto go = [&](auto B, auto solve) {
        auto st0 = states(B); std::vector<DX> aux0; for (auto &n : B.n) aux0.push_back(n->get_auxiliary_state());
        EXPECT("state-dimension", B.g->get_dimension_state() == sd);
        for (int r = 0; r < reps; ++r) {
            bool ok = solve(B, r);
            for (size_t i = 0; i < p.v.size(); ++i) if (p.v[i].anchor) { double d = maxdiff(st0[i], DX(B.n[i]->get_state())), da = maxdiff(aux0[i], DX(B.n[i]->get_auxiliary_state())); if (!(d == 0)) g.fail("anchor-moved", "anchored variable " + std::to_string(i) + " moved by " + num(d) + " in solve " + std::to_string(r)); if (!(da == 0)) g.fail("anchor-aux", "auxiliary copy of an anchored variable changed"); }
            if (!ok) return;
        }
    };
    if (!dense) go(build<FGraphSolve>(p), [&](auto &B, int) {
        Lin s = linearise(p, B); if (!std::isfinite(s.cost) || s.cost > 1e10) return false;
        bool lm = g.coin(); if (cond(s.L) > 1e8) lm = true;
        if (!lm) B.g->solve(GNm); else B.g->solve(LMm, 1 + (unsigned)g.raw(9), g.logmag(1e-4, 1e2), 1e-6);
        EXPECT("A-columns", (size_t)DX(B.g->get_adjacency_matrix()).cols() == sd); EXPECT("L-size", (size_t)DX(B.g->get_information_matrix()).rows() == sd); EXPECT("b-size", (size_t)B.g->get_vector_b().size() == sd);
        return true; });
    else { g.label("dense"); go(build<FGraphSolveDense>(p), [&](auto &B, int) {
        Lin s = linearise(p, B); if (!std::isfinite(s.cost) || s.cost > 1e10) return false; auto m = g.pick({mrob::Optimizer::NEWTON_RAPHSON, mrob::Optimizer::LEVENBERG_MARQUARDT_SPHER, mrob::Optimizer::LEVENBERG_MARQUARDT_ELLIP}); if (cond(s.L) > 1e8) m = mrob::Optimizer::LEVENBERG_MARQUARDT_SPHER;
        B.g->solve(m, 1 + (unsigned)g.raw(9), g.logmag(1e-4, 1e2)); return true; }); }
}
// the same graph with anchors replaced by variables held by an extremely strong absolute measurement
PROPERTY(F09, anchor_equals_strong_prior, 2) {
    Opts op; op.noise = 0.05; op.init = 0.05; op.robust = false; Problem p = gen_problem(g, op); int na = 0;
    for (auto &v : p.v) { if (v.truth.k != P2 && v.truth.k != P3) { if (v.anchor) { v.anchor = false; v.init = v.truth; } } else na += v.anchor; }
    if (!na) { for (auto &v : p.v) if ((v.truth.k == P2 || v.truth.k == P3) && p.v.size() > 1) { v.anchor = true; v.init = v.truth; na = 1; break; } }
    bool freev = false; for (auto &v : p.v) freev = freev || !v.anchor; if (!na || !freev) return;
    Problem q = p; double strong = 1e9;
    for (size_t i = 0; i < q.v.size(); ++i) if (q.v[i].anchor) { q.v[i].anchor = false; Fac f; f.k = q.v[i].truth.k == P2 ? F1P2 : F1P3; f.a = (int)i; f.W = DX::Identity(FDIM[f.k], FDIM[f.k]) * strong; observe(g, f, q.v[i].init, q.v[i].init, 0); q.f.insert(q.f.begin() + g.raw(q.f.size()), f); }
    describe(g, p); auto A = build<FGraphSolve>(p); auto B = build<FGraphSolve>(q); Lin s = linearise(p, A); double c = cond(s.L); if (c > 1e5) return; g.nontrivial();
    int it = (int)g.in_range(1, 3); for (int i = 0; i < it; ++i) { A.g->solve(GNm); B.g->solve(GNm); }
    double mx = (double)s.L.cwiseAbs().maxCoeff(); auto sa = as_states(p, states(A));
    double big = 0; for (auto &x : sa) big = std::max(big, smag(x)); if (big > 100) return; // the step left the neighbourhood: nothing to compare
    double tol = 1e-4 * (1 + big) * std::max(1.0, mx * mx * c / 1e7) ; if (tol > 0.02) return;
    for (size_t i = 0; i < sa.size(); ++i) { double d = sdiff(sa[i], DX(B.n[i]->get_state())); if (!(d <= tol)) g.fail("strong-prior", "variable " + std::to_string(i) + " differs by " + num(d) + " (tol " + num(tol) + ") between anchoring and a strong absolute measurement"); }
}
// holding a variable fixed by anchoring equals removing its columns from the dense normal equations
PROPERTY(F09, anchored_step_is_the_reduced_step, 1) {
    Opts op; op.noise = 0.1; op.init = 0.1; op.big = 300; Problem p = gen_problem(g, op); for (auto &v : p.v) if (!v.anchor && g.chance(1, 3)) v.anchor = true;
    bool freev = false, anc = false; for (auto &v : p.v) { freev = freev || !v.anchor; anc = anc || v.anchor; } if (!freev || !anc) return; describe(g, p);
    Problem q = p; for (auto &v : q.v) v.anchor = false; auto A = build<FGraphSolve>(p); auto B = build<FGraphSolve>(q); Lin full = linearise(q, B); std::vector<int> keep; for (size_t i = 0; i < p.v.size(); ++i) if (!p.v[i].anchor) for (int k = 0; k < NDIM[p.v[i].truth.k]; ++k) keep.push_back(full.col[i] + k);
    MX L(keep.size(), keep.size()); VX b(keep.size()); for (size_t i = 0; i < keep.size(); ++i) { b(i) = full.b(keep[i]); for (size_t j = 0; j < keep.size(); ++j) L(i, j) = full.L(keep[i], keep[j]); }
    double c = cond(L); if (c > 1e7) return; VX dx = L.ldlt().solve(b); if (dx.cwiseAbs().maxCoeff() > 20) return; auto st = as_states(p, states(A)); A.g->solve(GNm); int at = 0; g.nontrivial();
    for (size_t i = 0; i < p.v.size(); ++i) { St w = st[i]; if (!p.v[i].anchor) { int nd = NDIM[p.v[i].truth.k]; VX d = -dx.segment(at, nd); if (w.k == PL && (w.v + d).head(3).norm() < 0.05L) return; w = upd(w, d); at += nd; } double d = sdiff(w, DX(A.n[i]->get_state())); double tol = 1e-12 * (10 + c) * (1 + (double)dx.cwiseAbs().maxCoeff()) * (1 + smag(w)); if (!(d <= tol)) g.fail("reduced-step", "variable " + std::to_string(i) + (p.v[i].anchor ? " (anchored)" : "") + " differs from the reduced step by " + num(d)); }
}
#endif

// ------------------------------------------------------------------ F10
#if VP(F10)
static std::vector<int> shuffle(Case &g, int n) { std::vector<int> q(n); std::iota(q.begin(), q.end(), 0); for (int i = n; i > 1; --i) std::swap(q[i - 1], q[g.raw(i - 1)]); return q; }
// variable i of p becomes variable pos[i]
static Problem permute(const Problem &p, const std::vector<int> &pos, const std::vector<int> &ford) {
    Problem q; q.v.resize(p.v.size()); for (size_t i = 0; i < p.v.size(); ++i) q.v[pos[i]] = p.v[i];
    for (int i : ford) { Fac f = p.f[i]; f.a = pos[f.a]; if (f.b >= 0) f.b = pos[f.b]; q.f.push_back(f); }
    return q;
}
static double step_tol(const Built<FGraphSolve> &B, const Problem &p, bool &skip) { Lin s = linearise(p, B); double c = cond(s.L); skip = !(c < 1e7); if (skip) return 0; VX dx = s.L.ldlt().solve(s.b); double m = (double)dx.cwiseAbs().maxCoeff(); skip = m > 20; return 1e-12 * (10 + c) * (1 + m) * 100; }
PROPERTY(F10, creation_order, 3) {
    Opts op; op.noise = g.pick({0.05, 0.3}); op.init = 0.1; op.odom = false; op.big = 300; Problem p = gen_problem(g, op); describe(g, p);
    auto pos = shuffle(g, (int)p.v.size()), ford = shuffle(g, (int)p.f.size()); Problem q = permute(p, pos, ford); g.nontrivial(p.v.size() > 1);
    auto A = build<FGraphSolve>(p); auto B = build<FGraphSolve>(q); double ca = A.g->chi2(), cb = B.g->chi2(); EXPECT_NEAR_("cost", cb, ca, 1e-10 * (1 + ca));
    bool skip, flipped3 = false; double tol = step_tol(A, p, skip); if (skip) return;
    for (auto &f : p.f) if (f.k == F2P3 && ((f.a < f.b) != (pos[f.a] < pos[f.b]))) flipped3 = true;
    A.g->solve(GNm); B.g->solve(GNm); auto sa = as_states(p, states(A)); double worst = 0;
    for (size_t i = 0; i < sa.size(); ++i) worst = std::max(worst, sdiff(sa[i], DX(B.n[pos[i]]->get_state())) / (1 + smag(sa[i])));
    // a reversed 3D pair is linearised at the mirrored residual: equal to second order in the residual only
    g.label("3D pair reversed", flipped3); if (flipped3) { g.label("compared at cost only"); return; }
    if (!(worst <= tol)) g.fail("estimate", "one step from the same state differs by " + num(worst) + " after reordering (tol " + num(tol) + ")");
    EXPECT_NEAR_("cost-after", B.g->chi2(), A.g->chi2(), (1e-9 + tol) * (1 + A.g->chi2()) * 10);
}
// second-order agreement for reversed 3D pairs: shrinking the residual by 10 shrinks the difference by about 100
PROPERTY(F10, creation_order_3d_pairs, 1) {
    Opts op; op.world = 1; op.noise = g.pick({1e-3, 1e-4}); op.init = op.noise; op.robust = false; op.planes = false; op.p2p = false; Problem p = gen_problem(g, op); describe(g, p);
    auto pos = shuffle(g, (int)p.v.size()), ford = shuffle(g, (int)p.f.size()); Problem q = permute(p, pos, ford); bool flip = false; for (auto &f : p.f) if (f.k == F2P3 && ((f.a < f.b) != (pos[f.a] < pos[f.b]))) flip = true; g.nontrivial(flip);
    auto A = build<FGraphSolve>(p); auto B = build<FGraphSolve>(q); Lin s = linearise(p, A); double c = cond(s.L); if (c > 1e4) return;
    A.g->solve(GNm); B.g->solve(GNm); auto sa = as_states(p, states(A)); double worst = 0; for (size_t i = 0; i < sa.size(); ++i) worst = std::max(worst, sdiff(sa[i], DX(B.n[pos[i]]->get_state())) / (1 + smag(sa[i])));
    double n = op.noise * 3; if (!(worst <= 2000 * n * n * std::sqrt(c) + 1e-10)) g.fail("estimate-3d", "one step differs by " + num(worst) + " after reversing 3D pairs, residuals about " + num(n) + " cond " + num(c));
}
PROPERTY(F10, splitting_scaling_and_empty_measurements, 2) {
    Opts op; op.noise = g.pick({0.05, 0.3}); op.init = 0.1; op.robust = false; op.big = 300; Problem p = gen_problem(g, op), q = p; describe(g, p); int what = (int)g.raw(2); double scale = 1;
    auto A = build<FGraphSolve>(p); bool skip; double tol = step_tol(A, p, skip); if (skip) return; g.nontrivial();
    if (what == 0) { size_t i = g.raw(p.f.size() - 1); Fac h = q.f[i]; double a = g.coin() ? 0.5 : g.real(0.05, 0.95); q.f[i].W *= a; h.W = p.f[i].W - q.f[i].W; q.f.insert(q.f.begin() + g.raw(q.f.size()), h); g.d() << "split f" << i; }
    else if (what == 1) { scale = g.logmag(1e-3, 1e3); for (auto &f : q.f) f.W *= scale; g.d() << "scale " << num(scale); }
    else { int a = (int)g.raw(p.v.size() - 1); if (p.v[a].truth.k != P2 && p.v[a].truth.k != P3) return; Fac f; f.k = p.v[a].truth.k == P2 ? F1P2 : (g.coin() ? F1P3 : FPP); f.a = a; f.W = DX::Zero(FDIM[f.k], FDIM[f.k]); observe(g, f, gen_state(g, p.v[a].truth.k), gen_state(g, p.v[a].truth.k), 0); q.f.insert(q.f.begin() + g.raw(q.f.size()), f); g.d() << "zero-information measurement on v" << a; }
    auto B = build<FGraphSolve>(q); double ca = A.g->chi2(), cb = B.g->chi2(); EXPECT_NEAR_("cost", cb, ca * scale, 1e-11 * scale * (1 + ca));
    int it = (int)g.in_range(1, 2); for (int i = 0; i < it; ++i) { A.g->solve(GNm); B.g->solve(GNm); if (i + 1 < it) { restore(B, states(A)); } }
    double d = gdiff(B, as_states(p, states(A))); double big = 0; for (auto &x : as_states(p, states(A))) big = std::max(big, smag(x)); if (!(d <= tol * (1 + big))) g.fail(what == 0 ? "split" : what == 1 ? "scale" : "zero-information", "estimate differs by " + num(d));
}
// the whole problem seen from another frame
static Problem moved(const Problem &p, const M4 &G3, const V3 &g2) { // g2: planar x, y, angle
    Problem q = p; R c = std::cos(g2(2)), s = std::sin(g2(2)); M2 R2; R2 << c, -s, s, c; M3 Rg = G3.topLeftCorner<3, 3>(); M6 Ai = Ad(inv4(G3));
    auto mv = [&](St x) { switch (x.k) { case P2: { V2 t = R2 * V2(x.v(0), x.v(1)) + V2(g2(0), g2(1)); x.v << t(0), t(1), wrap(x.v(2) + g2(2)); break; } case L2: { V2 t = R2 * V2(x.v(0), x.v(1)) + V2(g2(0), g2(1)); x.v << t(0), t(1); break; } case P3: x.T = (G3 * x.T).eval(); break; case L3: x.v = act(G3, h3(x.v)); break; case PL: x.v = VX(inv4(G3).transpose() * V4(x.v)); break; } return x; };
    for (auto &v : q.v) { v.truth = mv(v.truth); v.init = mv(v.init); }
    for (auto &f : q.f) switch (f.k) {
        case F1P2: { St o = mv(St::vec(P2, f.obs.cast<R>())); f.obs = o.v.cast<double>(); M3 T3 = M3::Identity(); T3.topLeftCorner<2, 2>() = R2; f.W = (T3 * f.W.cast<R>() * T3.transpose()).cast<double>(); break; }
        case FODO: { M3 T3 = M3::Identity(); T3.topLeftCorner<2, 2>() = R2; f.W = (T3 * f.W.cast<R>() * T3.transpose()).cast<double>(); break; } // its residual is in the global frame
        case F1P3: f.T = (G3 * f.T.cast<R>()).cast<double>(); f.W = (Ai.transpose() * f.W.cast<R>() * Ai).cast<double>(); break;
        case F2P3: f.W = (Ai.transpose() * f.W.cast<R>() * Ai).cast<double>(); break;
        case FPP: { V3 x = f.obs.head(3).cast<R>(), y = act(G3, V3(f.obs.segment(3, 3).cast<R>())), n = Rg * V3(f.obs.segment(6, 3).cast<R>()); VX o(9); o << x, y, n; f.obs = o.cast<double>(); break; }
        default: break; }
    return q;
}
PROPERTY(F10, change_of_frame, 3) {
    bool cons = g.chance(1, 3); Opts op; op.noise = cons ? 0 : 0.1; op.init = cons ? 0.03 : 0.1; op.planes = cons; Problem p = gen_problem(g, op); describe(g, p);
    M4 G3 = pose3(g, 5); V3 g2((R)g.sym(5), (R)g.sym(5), (R)g.sym(3.1)); Problem q = moved(p, G3, g2); g.d() << "moved by " << str(G3) << " and " << str(g2) << (cons ? " consistent" : "");
    auto A = build<FGraphSolve>(p); auto B = build<FGraphSolve>(q); double ca = A.g->chi2(), cb = B.g->chi2(); g.nontrivial(); g.label("consistent", cons);
    Lin s = linearise(q, B), s0 = linearise(p, A); double c = std::max(cond(s.L), cond(s0.L)); if (!(c < 1e7)) return; double wmax = (double)s.W.cwiseAbs().maxCoeff();
    EXPECT_NEAR_("cost", cb, ca, 1e-10 * (1 + ca) * (1 + wmax * 1e-2));
    VX dx = s0.L.ldlt().solve(s0.b); if (dx.cwiseAbs().maxCoeff() > 5) return;
    int it = cons ? 12 : 1; for (int i = 0; i < it; ++i) { A.g->solve(GNm); B.g->solve(GNm); }
    double c1 = A.g->chi2(); if (cons && !(c1 < 1e-14 * (1 + wmax))) { g.label("did not converge"); return; }
    Problem pa = p; auto sa = as_states(p, states(A)); for (size_t i = 0; i < sa.size(); ++i) pa.v[i].init = sa[i]; Problem want = moved(pa, G3, g2); std::vector<St> w; for (auto &v : want.v) w.push_back(v.init); double big = 0; for (auto &x : w) big = std::max(big, smag(x));
    double d = gdiff(B, w), tol = (1e-11 * (100 + c) * 30 + (cons ? 1e-7 * (1 + std::sqrt(c)) : 0)) * (1 + big); if (tol > 1e-2) return; if (!(d <= tol)) g.fail("equivariance", "the estimate of the moved problem differs by " + num(d) + " (tol " + num(tol) + ") from the moved estimate");
    EXPECT_NEAR_("cost-after", B.g->chi2(), c1, 1e-8 * (1 + c1) * (1 + wmax * 1e-2));
}
#endif

// ------------------------------------------------------------------ F11
#if VP(F11)
PROPERTY(F11, truth_is_fixed_point, 1) {
    Opts op; op.noise = 0; op.init = 0; op.maxposes = 7; op.maxland = 4; op.big = 300; Problem p = gen_problem(g, op); describe(g, p); g.nontrivial(p.f.size() > 1);
    auto B = build<FGraphSolve>(p); double mx = 0; for (auto &f : p.f) mx = std::max(mx, f.W.cwiseAbs().maxCoeff());
    EXPECT_NEAR_("cost", B.g->chi2(), 0, 1e-23 * p.f.size() * (1 + mx) * 100); Lin s = linearise(p, B); double c = cond(s.L); if (c > 1e9) return;
    std::vector<St> tr; for (auto &v : p.v) tr.push_back(v.truth); if (g.coin()) B.g->solve(GNm); else B.g->solve(LMm, 5, g.logmag(1e-8, 10));
    EXPECT_NEAR_("moved", gdiff(B, tr), 0, 1e-12 * (100 + 10 * std::sqrt(c)));
}
PROPERTY(F11, nearby_start_converges, 2) {
    Opts op; op.noise = 0; op.init = g.pick({0.005, 0.02, 0.05}); op.maxposes = 6; op.minrange = 1; Problem p = gen_problem(g, op); describe(g, p);
    auto B = build<FGraphSolve>(p); Lin s = linearise(p, B); double c = cond(s.L); if (!(c < 3e4)) { g.label("ill-conditioned, skipped"); return; } 
    // nearby: the whitened residuals stay in the convex range of the redescending kernels
    { int row = 0; for (size_t i = 0; i < p.f.size(); ++i) { VX r = Dv(B.f[i]->get_residual()).cast<R>(); if (p.f[i].robust && std::sqrt(r.dot(p.f[i].W.cast<R>() * r)) > 0.3L) { g.label("outside the neighbourhood, skipped"); return; } row += FDIM[p.f[i].k]; } }
    { VX dx = s.L.ldlt().solve(s.b); if (dx.cwiseAbs().maxCoeff() > 0.5) { g.label("outside the neighbourhood, skipped"); return; } }
    std::vector<St> tr; for (auto &v : p.v) tr.push_back(v.truth); int m = (int)g.raw(2); g.nontrivial(p.f.size() > 1);
    if (m == 0) for (int i = 0; i < 25; ++i) B.g->solve(GNm); else if (m == 1) { for (int i = 0; i < 6; ++i) B.g->solve(LMm, 60, 1e-7, 1e-15); } else { for (int i = 0; i < 8; ++i) B.g->solve(LMm, 40, g.logmag(1e-6, 1e-2), 0); for (int i = 0; i < 6; ++i) B.g->solve(GNm); }
    double d = gdiff(B, tr), tol = m == 1 ? 1e-4 : 1e-9 * (1 + c / 100); g.label(m == 0 ? "GN" : m == 1 ? "LM" : "LM then GN");
    if (!(d <= tol)) g.fail("truth", "the estimate is " + num(d) + " from the ground truth (tol " + num(tol) + "), cost " + num(B.g->chi2()) + ", cond " + num(c));
    EXPECT_NEAR_("cost", B.g->chi2(), 0, 1e-7);
}
#endif

// ------------------------------------------------------------------ F12
#if VP(F12)
PROPERTY(F12, one_step_agrees, 3) {
    Opts op; op.noise = g.pick({0.05, 0.3}); op.init = 0.1; op.robust = false; op.big = 300; Problem p = gen_problem(g, op); describe(g, p); g.nontrivial(p.v.size() > 1);
    auto A = build<FGraphSolve>(p); auto D = build<FGraphSolveDense>(p); Lin s = linearise(p, A); double c = cond(s.L); if (c > 1e7) return; VX dx = s.L.ldlt().solve(s.b); if (dx.cwiseAbs().maxCoeff() > 20) return;
    double ca = A.g->chi2(), cd = D.g->calculate_error(); EXPECT_NEAR_("cost", cd, ca, 1e-11 * (1 + ca));
    A.g->solve(GNm); D.g->solve(mrob::Optimizer::NEWTON_RAPHSON, 1); auto sa = as_states(p, states(A)); double big = 0; for (auto &x : sa) big = std::max(big, smag(x)); double d = gdiff(D, sa), tol = 1e-12 * (10 + c) * (1 + (double)dx.cwiseAbs().maxCoeff()) * (1 + big) * 10;
    if (!(d <= tol)) g.fail("step", "one dense Newton step differs from one sparse Gauss-Newton step by " + num(d) + " (tol " + num(tol) + ")");
    double c1 = A.g->chi2(); EXPECT_NEAR_("cost-after", D.g->calculate_error(), c1, 1e-9 * (1 + c1) + tol * 100);
}
PROPERTY(F12, dense_lm_never_worse_and_converges, 2) {
    bool cons = g.coin(); Opts op; op.noise = cons ? 0 : 0.2; op.init = cons ? 0.05 : g.pick({0.1, 1.0, 4.0}); op.robust = false; Problem p = gen_problem(g, op); describe(g, p);
    auto D = build<FGraphSolveDense>(p); double c0 = D.g->calculate_error(); if (!std::isfinite(c0) || c0 > 1e12) return; auto m = g.coin() ? mrob::Optimizer::LEVENBERG_MARQUARDT_SPHER : mrob::Optimizer::LEVENBERG_MARQUARDT_ELLIP;
    Lin s = linearise(p, D); double c = cond(s.L); g.nontrivial(c0 > 1e-9); double lam = g.logmag(1e-7, 1e3); unsigned budget = (unsigned)g.pick({1, 2, 4, 10, 30}); if (m == mrob::Optimizer::LEVENBERG_MARQUARDT_ELLIP && !(c < 1e9)) return; g.d() << "lambda " << num(lam) << " budget " << budget << " method " << (int)m;
    if (cons && c < 1e4) { budget = 200; lam = g.logmag(1e-7, 1e-2); }
    D.g->solve(m, budget, lam); double c1 = D.g->calculate_error(); if (!(c1 <= c0 * (1 + 1e-9) + 1e-15)) g.fail("worse", "dense LM raised the cost from " + num(c0) + " to " + num(c1));
    if (cons && c < 1e4) { g.label("consistent"); for (int i = 0; i < 30; ++i) D.g->solve(m, 50, 1e-6); std::vector<St> tr; for (auto &v : p.v) tr.push_back(v.truth); double d = gdiff(D, tr); VX dx = s.L.ldlt().solve(s.b); if (dx.cwiseAbs().maxCoeff() < 0.5 && !(d < 0.02)) g.fail("not-converged", "dense LM ended " + num(d) + " from the solution, cost " + num(D.g->calculate_error())); }
}
#endif

// ------------------------------------------------------------------ F13
#if VP(F13)
PROPERTY(F13, initialised_target_is_exact, 3) {
    FK k = g.pick({F2P2, FODO, F2P3, FL2, FL3}); One o = gen_one(g, k, 0, false); St fresh = rnd(canon(gen_state(g, FB[k]))); observe(g, o.f, o.a, fresh, 0); // any observation
    if (k == FL2 && o.f.obs(0) < 0.01) o.f.obs(0) = 0.5;
    o.f.init = true; make(g, o); g.d() << show(o.f) << "\n a " << show(o.a) << "\n b before " << show(o.b) << "\n later variable first: " << o.rev; g.label(FKN[k]); g.label("reversed", o.rev); g.nontrivial();
    EXPECT_CLOSE("origin-touched", DX(o.na->get_state()), mat(o.a), 0.0);
    o.p->evaluate_residuals(); Dv r = o.p->get_residual();
    if (!(r.cwiseAbs().maxCoeff() <= 5e-13)) g.fail(std::string("residual-") + FKN[k], "the residual right after initialisation is " + str(r) + "\n target " + str(DX(o.nb->get_state())));
    St b = from(FB[k], DX(o.nb->get_state())); VX rr = residual(o.f, o.a, b); if (!((double)rr.cwiseAbs().maxCoeff() <= 5e-13)) g.fail(std::string("target-") + FKN[k], "the initialised target does not reproduce the observation: " + str(rr) + "\n target " + str(mat(b)));
}
PROPERTY(F13, nothing_changes_without_it, 1) {
    FK k = pick_kind(g); One o = gen_one(g, k, 1.0); make(g, o); g.d() << show(o.f); g.label(FKN[k]); g.nontrivial();
    EXPECT_CLOSE("first", DX(o.na->get_state()), mat(o.a), 1e-15 * 4); if (o.nb) EXPECT_CLOSE("second", DX(o.nb->get_state()), mat(o.b), 4e-15);
    DX a0 = o.na->get_state(), b0; if (o.nb) b0 = o.nb->get_state();
    o.p->evaluate_residuals(); o.p->evaluate_jacobians(); o.p->evaluate_chi2();
    EXPECT_CLOSE("first-after-evaluation", DX(o.na->get_state()), a0, 0.0); if (o.nb) EXPECT_CLOSE("second-after-evaluation", DX(o.nb->get_state()), b0, 0.0);
}
#endif
PBT_MAIN
