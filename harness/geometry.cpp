// G01..G09: rotations, rigid transformations, uncertain poses.
#include "ref.hpp"
#include "mrob/SO3.hpp"
#include "mrob/SE3.hpp"
#include "mrob/SE3cov.hpp"
using namespace ref;
using mrob::SO3; using mrob::SE3; using mrob::SE3Cov;
using mrob::Mat3; using mrob::Mat4; using mrob::Mat6; using mrob::Mat31; using mrob::Mat41; using mrob::Mat61; using mrob::MatX;
using pbt::Case;

static M3 L3(const Mat3 &m) { return m.cast<R>(); }
static M4 L4(const Mat4 &m) { return m.cast<R>(); }
static Mat4 matT(const SE3 &T) { Mat4 m = T.T(); return m; }
static Mat3 dm3(const M3 &m) { return m.cast<double>(); }
static Mat4 dm4(const M4 &m) { return m.cast<double>(); }
// accuracy the logarithm can have near a half turn (acos loses half the digits)
static double pi_loss(double ang) { double e = std::fabs(M_PI - ang); return std::min(1.5e-7, 2e-14 / std::max(e, 1e-30)); }
// accuracy of the translation part of the logarithm: the closed form loses digits at small angles outside the series branch
static double trans_loss(double a) { return a < 4.9e-3 ? 1e-13 : std::min(3e-10, 1e-13 + 6e-15 / (a * a)); }
static double red_angle(double a) { return std::fabs((double)wrap(a)); }

static SO3 gen_rot(Case &g) {
    switch (g.weighted({4, 1, 1})) {
    default: return SO3(Mat31(gen::rotvec(g)));
    case 1: return SO3();
    case 2: { // exact signed axis permutation with determinant one (90/120/180 degree rotations)
        static const int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
        const int *p = P[g.raw(5)]; Mat3 m = Mat3::Zero();
        for (int i = 0; i < 3; ++i) m(i, p[i]) = g.coin() ? -1 : 1;
        if (m.determinant() < 0) m.row(2) *= -1;
        return SO3(m); }
    }
}
static SE3 gen_pose(Case &g) {
    SO3 Rr = gen_rot(g); double s = gen::tmag(g); Mat31 t = gen::vec3(g, s);
    if (g.chance(1, 10)) t.setZero();
    return SE3(Rr, t);
}

// ------------------------------------------------------------------ G01
#if VP(G01)
PROPERTY(G01, exp_matches_reference, 1.0) {
    Mat31 w = gen::rotvec(g);
    g.d() << "w = " << str(w) << " |w| = " << num(w.norm());
    double a = w.norm();
    g.label("tiny", a > 0 && a < 1e-4); g.label("near pi", std::fabs(a - M_PI) < 1e-3); g.label("multi-turn", a > 3.2); g.label("zero", a == 0);
    g.nontrivial(a > 0);
    SO3 Rr(w);
    M3 E = exp3(w.cast<R>());
    EXPECT_CLOSE("exp", L3(Rr.R()), E, 4e-15 * (1 + a));
    // exp on an existing object overwrites it, from the hat matrix
    SO3 Q = gen_rot(g); Q.exp(mrob::hat3(w));
    EXPECT_CLOSE("exp-member", L3(Q.R()), E, 4e-15 * (1 + a));
    // axis is fixed, trace gives the angle
    if (a > 0) EXPECT_CLOSE("axis", Mat31(Rr.R() * w), w, 2e-14 * (1 + a));
    EXPECT_NEAR_("trace", Rr.R().trace(), 1 + 2 * std::cos(a), 2e-14 * (1 + a));
}
PROPERTY(G01, log_inverts_exp, 1.5) {
    Mat31 w = gen::rotvec(g);
    double a = w.norm(), ra = red_angle(a);
    g.d() << "w = " << str(w) << " |w| = " << num(a);
    g.label("tiny", a > 0 && a < 1e-4); g.label("near pi", std::fabs(ra - M_PI) < 1e-3); g.label("very near pi", std::fabs(ra - M_PI) < 6e-8); g.label("multi-turn", a > 3.2); g.label("zero", a == 0);
    g.nontrivial(a > 0);
    SO3 Rr(w);
    double o = -1; Mat3 W = Rr.ln(&o); Mat3 W2 = Rr.ln();
    Mat31 l = Rr.ln_vee();
    EXPECT_CLOSE("ln-overloads", W, W2, 1e-12);
    EXPECT_CLOSE("ln-skew", Mat3(W + W.transpose()), Mat3::Zero(), 1e-15);
    EXPECT_CLOSE("ln-vee", mrob::vee3(W), l, 1e-12);
    EXPECT("ln-length<=pi", l.norm() <= M_PI * (1 + 1e-12));
    EXPECT_NEAR_("angle-output", o, l.norm(), 1e-7 + (a < 1e-3 ? 1e-7 : 0));
    if (ra > 1e-4 && ra < M_PI - 1e-4) EXPECT_NEAR_("angle-output", o, l.norm(), 1e-11);
    double tol = 1e-14 * (1 + a) + pi_loss(ra);
    if (a < M_PI - 1e-14) EXPECT_CLOSE("log-of-exp", l, w, tol);
    else if (std::fabs(ra - M_PI) > 1e-12) EXPECT_CLOSE("log-principal", Mat31(l), Dbl(log3(exp3(w.cast<R>()))), tol);
    EXPECT_CLOSE("exp-of-log", SO3(l).R(), Rr.R(), 1e-14 * (1 + a) + pi_loss(ra));
}
PROPERTY(G01, log_of_matrix, 1.0) {
    // rotations obtained as matrices (double rounding of an exact rotation, products, exact permutations)
    Mat3 m;
    bool perm = false;
    switch (g.weighted({3, 2, 2})) {
    default: m = dm3(exp3(gen::rotvec(g).cast<R>())); break;
    case 1: { SO3 A = gen_rot(g), B = gen_rot(g); m = (A * B).R(); break; }
    case 2: { m = gen_rot(g).R(); perm = true; break; }
    }
    g.d() << "R = " << str(m);
    SO3 Rr(m);
    double a = (double)angle(L3(m));
    g.label("near pi", std::fabs(a - M_PI) < 1e-3); g.label("exact half turn", std::fabs(a - M_PI) < 1e-15); g.label("tiny", a < 1e-4);
    g.nontrivial(a > 1e-12);
    Mat31 l = Rr.ln_vee();
    EXPECT("ln-finite", l.allFinite());
    EXPECT("ln-length<=pi", l.norm() <= M_PI * (1 + 1e-12));
    double tol = 3e-14 + pi_loss(a) + (perm ? 1e-9 : 0);
    if (a < M_PI - 1e-9) EXPECT_CLOSE("log-matrix", l, Dbl(log3(L3(m))), tol);
    EXPECT_CLOSE("exp-of-log", SO3(l).R(), m, 3e-14 + pi_loss(a));
}
#endif

// ------------------------------------------------------------------ G02
#if VP(G02)
PROPERTY(G02, exp_matches_reference, 1.0) {
    Mat61 x = gen::twist(g);
    double a = x.head<3>().norm(), t = x.tail<3>().norm();
    g.d() << "xi = " << str(x);
    g.label("tiny", a > 0 && a < 1e-3); g.label("near pi", std::fabs(a - M_PI) < 1e-3); g.label("multi-turn", a > 3.2); g.label("zero rotation", a == 0); g.label("large translation", t > 50);
    g.nontrivial(a > 0 && t > 0);
    SE3 T(x);
    M4 E = exp6(x.cast<R>());
    EXPECT_CLOSE("exp", L4(matT(T)), E, 1e-13 * (1 + t) * (1 + a));
    EXPECT_CLOSE("exp-rot", Mat3(T.R()), Dbl(M3(E.topLeftCorner<3, 3>())), 4e-15 * (1 + a));
    SE3 Q = gen_pose(g); Q.exp(mrob::hat6(x));
    EXPECT_CLOSE("exp-member", matT(Q), matT(T), 1e-13 * (1 + t));
    Mat4 last = matT(T);
    EXPECT_CLOSE("last-row", last.row(3), Mat4::Identity().row(3), 0.0);
}
PROPERTY(G02, log_inverts_exp, 1.5) {
    Mat61 x = gen::twist(g);
    double a = x.head<3>().norm(), ra = red_angle(a), t = x.tail<3>().norm();
    g.d() << "xi = " << str(x) << " angle " << num(a);
    g.label("tiny", a > 0 && a < 1e-3); g.label("near pi", std::fabs(ra - M_PI) < 1e-3); g.label("multi-turn", a > 3.2); g.label("zero rotation", a == 0); g.label("large translation", t > 50);
    g.nontrivial(a > 0 && t > 0);
    SE3 T(x);
    Mat61 l = T.ln_vee(); Mat4 lm = T.ln();
    EXPECT_CLOSE("ln-overloads", mrob::hat6(l), lm, 1e-12 * (1 + t));
    EXPECT("ln-length<=pi", l.head<3>().norm() <= M_PI * (1 + 1e-12));
    double lossR = 1e-14 * (1 + a) + pi_loss(ra), lossT = (trans_loss(ra) + 3 * pi_loss(ra)) * (1 + t) * (1 + a);
    if (a < M_PI - 1e-12) {
        EXPECT_CLOSE("log-of-exp-rot", Mat31(l.head<3>()), Mat31(x.head<3>()), lossR);
        EXPECT_CLOSE("log-of-exp-trans", Mat31(l.tail<3>()), Mat31(x.tail<3>()), lossT);
    } else if (ra < M_PI - 1e-9) {
        V6 lr = log6(exp6(x.cast<R>()));
        EXPECT_CLOSE("log-principal-rot", Mat31(l.head<3>()), Mat31(Dbl(V3(lr.head<3>()))), lossR);
        EXPECT_CLOSE("log-principal-trans", Mat31(l.tail<3>()), Mat31(Dbl(V3(lr.tail<3>()))), lossT * 3);
    }
    EXPECT_CLOSE("exp-of-log", matT(SE3(l)), matT(T), lossR + lossT);
}
PROPERTY(G02, log_of_matrix, 1.0) {
    SE3 T = g.coin() ? gen_pose(g) * gen_pose(g) : gen_pose(g);
    Mat4 m = matT(T);
    double a = (double)angle(L3(T.R())), t = T.t().norm();
    g.d() << "T = " << str(m);
    g.label("near pi", std::fabs(a - M_PI) < 1e-3); g.label("tiny", a < 1e-3);
    g.nontrivial(a > 1e-9 && t > 0);
    Mat61 l = SE3(m).ln_vee();
    EXPECT("ln-finite", l.allFinite());
    double lossR = 3e-14 + pi_loss(a), lossT = (trans_loss(a) + 3 * pi_loss(a) + 1e-13) * (1 + t);
    EXPECT("ln-length<=pi", l.head<3>().norm() <= M_PI * (1 + 1e-12));
    if (a < M_PI - 1e-9) {
        V6 lr = log6(L4(m));
        EXPECT_CLOSE("log-rot", Mat31(l.head<3>()), Mat31(Dbl(V3(lr.head<3>()))), lossR);
        EXPECT_CLOSE("log-trans", Mat31(l.tail<3>()), Mat31(Dbl(V3(lr.tail<3>()))), lossT);
    }
    EXPECT_CLOSE("exp-of-log", matT(SE3(l)), m, 4 * (lossR * (1 + t) + lossT));
}
#endif

// ------------------------------------------------------------------ G03
#if VP(G03)
PROPERTY(G03, rotation_group, 1.0) {
    SO3 A = gen_rot(g), B = gen_rot(g), C = gen_rot(g);
    Mat3 a0 = A.R(), b0 = B.R();
    g.d() << "A = " << str(a0) << " B = " << str(b0);
    g.nontrivial((a0 * b0 - b0 * a0).norm() > 1e-6); // non-commuting pair
    const double tol = 3e-14;
    EXPECT_CLOSE("product", (A * B).R(), Dbl(M3(L3(a0) * L3(b0))), 1e-15);
    EXPECT_CLOSE("mul", A.mul(B).R(), (A * B).R(), 1e-15);
    EXPECT_CLOSE("assoc", ((A * B) * C).R(), (A * (B * C)).R(), tol);
    EXPECT_CLOSE("inverse", (A * A.inv()).R(), Mat3::Identity(), tol);
    EXPECT_CLOSE("inverse-l", (A.inv() * A).R(), Mat3::Identity(), tol);
    EXPECT_CLOSE("inverse-product", (A * B).inv().R(), (B.inv() * A.inv()).R(), tol);
    EXPECT_CLOSE("identity", (A * SO3()).R(), a0, 1e-15);
    EXPECT_CLOSE("identity-default", SO3().R(), Mat3::Identity(), 0.0);
    // adjoint moves a perturbation across: R exp(x) = exp(Ad x) R, multiplicative
    Mat31 x = gen::rotvec(g);
    EXPECT_CLOSE("adjoint", (A * SO3(x)).R(), (SO3(Mat31(A.adj() * x)) * A).R(), 1e-13 * (1 + x.norm()));
    EXPECT_CLOSE("adjoint-mult", (A * B).adj(), Mat3(A.adj() * B.adj()), tol);
    EXPECT_CLOSE("operand A", A.R(), a0, 0.0); EXPECT_CLOSE("operand B", B.R(), b0, 0.0);
    SO3 D(A); SO3 E; E = A; D.ref2R()(0, 0) += 1; E.ref2R()(1, 1) += 1;
    EXPECT_CLOSE("copies are independent", A.R(), a0, 0.0);
    EXPECT_NEAR_("ref2R writes through", (D.R() - a0).cwiseAbs().sum(), 1.0, 1e-15);
    SO3 S = A; S = *&S; EXPECT_CLOSE("self-assignment", S.R(), a0, 0.0);
    SO3 P = A; P = P * P; EXPECT_CLOSE("aliasing product", P.R(), Mat3(a0 * a0), 1e-14);
}
PROPERTY(G03, rigid_group, 1.0) {
    SE3 A = gen_pose(g), B = gen_pose(g), C = gen_pose(g);
    Mat4 a0 = matT(A), b0 = matT(B);
    g.d() << "A = " << str(a0) << " B = " << str(b0);
    double s = 1 + A.t().norm() + B.t().norm() + C.t().norm();
    g.nontrivial((a0 * b0 - b0 * a0).norm() > 1e-6);
    const double tol = 1e-13 * s;
    EXPECT_CLOSE("product", matT(A * B), dm4(L4(a0) * L4(b0)), 2e-15 * s);
    EXPECT_CLOSE("mul", matT(A.mul(B)), matT(A * B), 2e-15 * s);
    EXPECT_CLOSE("assoc", matT((A * B) * C), matT(A * (B * C)), tol);
    EXPECT_CLOSE("inverse", matT(A * A.inv()), Mat4::Identity(), tol);
    EXPECT_CLOSE("inverse-l", matT(A.inv() * A), Mat4::Identity(), tol);
    EXPECT_CLOSE("inverse-ref", matT(A.inv()), dm4(inv4(L4(a0))), tol);
    EXPECT_CLOSE("inverse-product", matT((A * B).inv()), matT(B.inv() * A.inv()), tol);
    EXPECT_CLOSE("identity", matT(A * SE3()), a0, 2e-15 * s);
    EXPECT_CLOSE("identity-l", matT(SE3() * A), a0, 2e-15 * s);
    EXPECT_CLOSE("identity-default", matT(SE3()), Mat4::Identity(), 0.0);
    EXPECT_CLOSE("accessor R", A.R(), Mat3(a0.topLeftCorner<3, 3>()), 0.0);
    EXPECT_CLOSE("accessor t", A.t(), Mat31(a0.topRightCorner<3, 1>()), 0.0);
    EXPECT_CLOSE("ctor(R,t)", matT(SE3(A.R(), A.t())), a0, 0.0);
    EXPECT_CLOSE("ctor(SO3,t)", matT(SE3(SO3(A.R()), A.t())), a0, 0.0);
    EXPECT_CLOSE("ctor(T)", matT(SE3(a0)), a0, 0.0);
    EXPECT_CLOSE("operand A", matT(A), a0, 0.0); EXPECT_CLOSE("operand B", matT(B), b0, 0.0);
    SE3 D(A); SE3 E; E = A; D.ref2T()(0, 3) += 1; E.ref2T()(1, 3) += 1;
    EXPECT_CLOSE("copies are independent", matT(A), a0, 0.0);
    EXPECT_NEAR_("ref2T writes through", matT(D)(0, 3), a0(0, 3) + 1, 0.0);
    SE3 P = A; P = P * P; EXPECT_CLOSE("aliasing product", matT(P), Mat4(a0 * a0), tol);
}
PROPERTY(G03, action, 1.0) {
    SE3 A = gen_pose(g), B = gen_pose(g);
    int n = (int)g.pick({0, 1, 2, 3, 5, 17});
    if (g.chance(1, 300)) n = (int)g.in_range(18, 2000); // a real scan
    double sc = gen::tmag(g);
    MatX P(n, 3); for (int i = 0; i < n; ++i) P.row(i) = gen::vec3(g, sc).transpose();
    MatX P0 = P;
    Mat31 p = gen::vec3(g, sc), q = gen::vec3(g, sc);
    g.d() << "A = " << str(matT(A)) << " points " << n << " p = " << str(p);
    g.label("empty array", n == 0); g.label("one row", n == 1);
    g.nontrivial(n > 0 && (matT(A) - Mat4::Identity()).norm() > 1e-9);
    double s = 1 + A.t().norm() + B.t().norm() + 2 * sc, tol = 1e-13 * s;
    V3 e = L3(A.R()) * p.cast<R>() + A.t().cast<R>();
    EXPECT_CLOSE("transform", A.transform(p), Dbl(e), tol);
    MatX o = A.transform_array(P);
    EXPECT("array rows", o.rows() == n && o.cols() == 3);
    for (int i = 0; i < n; ++i) {
        V3 ei = L3(A.R()) * P0.row(i).transpose().cast<R>() + A.t().cast<R>();
        EXPECT_CLOSE("transform_array row", Mat31(o.row(i).transpose()), Dbl(ei), tol);
    }
    EXPECT_CLOSE("array input untouched", P, P0, 0.0);
    EXPECT_CLOSE("composition acts in sequence", (A * B).transform(p), A.transform(B.transform(p)), tol);
    EXPECT_CLOSE("inverse undoes", A.inv().transform(A.transform(p)), p, 2 * tol);
    EXPECT_NEAR_("distance preserved", (A.transform(p) - A.transform(q)).norm(), (p - q).norm(), tol);
}
PROPERTY(G03, adjoint, 1.0) {
    SE3 A = gen_pose(g), B = gen_pose(g); Mat61 x = gen::twist(g);
    g.d() << "T = " << str(matT(A)) << " xi = " << str(x);
    double s = (1 + A.t().norm()) * (1 + x.norm()) * (1 + x.tail<3>().norm());
    g.nontrivial(A.t().norm() > 1e-6 && x.head<3>().norm() > 1e-9);
    EXPECT_CLOSE("adjoint-ref", A.adj(), Dbl(Ad(L4(matT(A)))), 1e-14 * (1 + A.t().norm()));
    EXPECT_CLOSE("adjoint-moves", matT(A * SE3(x)), matT(SE3(Mat61(A.adj() * x)) * A), 3e-13 * s);
    EXPECT_CLOSE("adjoint-mult", (A * B).adj(), Mat6(A.adj() * B.adj()), 1e-13 * (1 + A.t().norm() + B.t().norm()));
    EXPECT_CLOSE("adjoint-inverse", A.inv().adj(), Mat6(A.adj().inverse()), 1e-12 * std::pow(1 + A.t().norm(), 3));
}
#endif

// ------------------------------------------------------------------ G04
#if VP(G04)
PROPERTY(G04, rigid_history, 1.0) {
    SE3 T = g.coin() ? SE3() : gen_pose(g);
    M4 X = L4(matT(T));
    int n = (int)g.in_range(1, (int64_t)g.size * 2); if (g.chance(1, 300)) n += (int)g.in_range(200, 1500);
    double lever = 1 + T.t().norm(), err = 1e-15;
    int ops = 0, regen = 0;
    g.d() << "start " << str(matT(T));
    for (int i = 0; i < n; ++i) {
        int op = (int)g.weighted({4, 4, 2, 2, 1, 2, 1, 1});
        Mat61 x = gen::twist_tame(g, g.chance(1, 5) ? 7.0 : 2.0, g.pick({1.0, 0.01, 10.0}));
        g.d() << "\n op " << op << " xi " << str(x);
        M4 E = exp6(x.cast<R>());
        lever += x.tail<3>().norm();
        switch (op) {
        case 0: T.update_lhs(x); X = E * X; break;
        case 1: T.update_rhs(x); X = X * E; break;
        case 2: T = T * SE3(x); X = X * E; break;
        case 3: T = SE3(x).mul(T); X = E * X; break;
        case 4: T = T.inv(); X = inv4(X); lever += T.t().norm(); break;
        case 5: { double a = (double)angle(X.topLeftCorner<3, 3>()); T.regenerate(); err += (pi_loss(a) * 3 + trans_loss(a)); ++regen; break; }
        case 6: { SE3 C(T); C.update_lhs(x); C.regenerate(); break; } // working on a copy must not matter
        case 7: { SE3 C; C = T; T.update_lhs(x); T = C; break; }      // save / restore
        }
        ops += op < 5;
        err += 3e-14;
        double tol = err * lever * 3;
        EXPECT_CLOSE("history", L4(matT(T)), X, tol);
        Mat3 Rr = T.R();
        EXPECT_CLOSE("orthonormal", Mat3(Rr * Rr.transpose()), Mat3::Identity(), err);
        EXPECT("valid", mrob::isSE3(matT(T)));
    }
    g.label("has regenerate", regen > 0); g.label("long (>40)", n > 40);
    g.nontrivial(ops >= 3);
}
PROPERTY(G04, rotation_history, 0.6) {
    SO3 T = gen_rot(g); M3 X = L3(T.R());
    int n = (int)g.in_range(1, (int64_t)g.size * 3); if (g.chance(1, 300)) n += (int)g.in_range(200, 1500); double err = 2e-15; int ops = 0;
    for (int i = 0; i < n; ++i) {
        int op = (int)g.weighted({4, 4, 2, 2, 1, 1});
        Mat31 x = gen::rotvec(g); M3 E = exp3(x.cast<R>());
        g.d() << "\n op " << op << " w " << str(x);
        switch (op) {
        case 0: T.update_lhs(x); X = E * X; break;
        case 1: T.update_rhs(x); X = X * E; break;
        case 2: T = T * SO3(x); X = X * E; break;
        case 3: T = SO3(x).mul(T); X = E * X; break;
        case 4: T = T.inv(); X = M3(X.transpose()); break;
        case 5: { SO3 C(T); C.update_rhs(x); break; }
        }
        ops += op < 4;
        err += 4e-15 * (1 + x.norm());
        EXPECT_CLOSE("history", L3(T.R()), X, err * 2);
        EXPECT("valid", mrob::isSO3(T.R()));
    }
    g.nontrivial(ops >= 3);
}
PROPERTY(G04, undo_history, 0.5) {
    SE3 T = gen_pose(g); Mat4 T0 = matT(T);
    int n = (int)g.in_range(1, 25); std::vector<Mat61> xs; std::vector<int> side; double lever = 1 + T.t().norm();
    for (int i = 0; i < n; ++i) {
        Mat61 x = gen::twist_tame(g, 6.0, 3.0); int s = (int)g.raw(1); xs.push_back(x); side.push_back(s); lever += x.tail<3>().norm();
        if (s) T.update_rhs(x); else T.update_lhs(x);
    }
    g.d() << "start " << str(T0) << " steps " << n;
    for (int i = n; i-- > 0;) { Mat61 m = -xs[i]; if (side[i]) T.update_rhs(m); else T.update_lhs(m); }
    g.nontrivial(n > 1);
    EXPECT_CLOSE("undone", matT(T), T0, 1e-13 * n * lever * 2);
}
PROPERTY(G04, regenerate, 0.8) {
    SE3 T = gen_pose(g); Mat4 V = matT(T);
    double a = (double)angle(L3(T.R())), t = T.t().norm();
    SE3 S(T); S.regenerate();
    EXPECT_CLOSE("valid pose unchanged", matT(S), V, (3 * pi_loss(a) + 2 * trans_loss(a) + 1e-13) * (1 + t) * 4);
    double dr = g.logmag(1e-12, 1e-6);
    Mat4 N = V; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) N(i, j) += g.sym(dr);
    g.d() << "T = " << str(V) << " drift " << num(dr) << " N = " << str(N);
    g.label("near pi", M_PI - a < 1e-2);
    g.nontrivial(a > 1e-3);
    SE3 D(N); D.regenerate();
    Mat3 Rr = D.R();
    EXPECT_CLOSE("drift repaired: orthonormal", Mat3(Rr * Rr.transpose()), Mat3::Identity(), 1e-13);
    EXPECT_NEAR_("drift repaired: proper", Rr.determinant(), 1.0, 1e-13);
    double bound = 60 * dr / std::max(std::sqrt(dr), M_PI - a) + pi_loss(a) * 4 + trans_loss(a) * 4;
    EXPECT_CLOSE("drift repaired: close", matT(D), V, bound * (1 + t));
}
#endif

// ------------------------------------------------------------------ G05
#if VP(G05)
PROPERTY(G05, accepts_valid, 1.0) {
    SE3 T = gen_pose(g);
    int n = (int)g.in_range(0, 30);
    for (int i = 0; i < n; ++i) { Mat61 x = gen::twist(g); if (g.coin()) T.update_lhs(x); else T = T.inv() * SE3(x); }
    g.d() << "T = " << str(matT(T)) << " after " << n << " operations";
    g.nontrivial(n > 0);
    EXPECT("isSO3 accepts", mrob::isSO3(T.R()));
    EXPECT("isSE3 accepts", mrob::isSE3(matT(T)));
    EXPECT("isSO3 accepts generated", mrob::isSO3(gen_rot(g).R()));
}
PROPERTY(G05, rejects_invalid, 2.0) {
    SE3 T = gen_pose(g); Mat3 Q = gen_rot(g).R();
    Mat3 Rr = T.R(); Mat3 B = Rr;
    double e = g.logmag(1e-3, 3.0);
    int kind = (int)g.raw(6);
    switch (kind) {
    case 0: B = Rr * (1 + e * (g.coin() ? 1 : -0.3)); break;                                   // scaled
    case 1: { Mat3 D = Mat3::Identity(); double k = 1 + e; int i = (int)g.raw(2); D(i, i) = k; D((i + 1) % 3, (i + 1) % 3) = 1 / k; B = Rr * Q * D * Q.transpose(); break; } // unit determinant, stretched
    case 2: { Mat3 D = Mat3::Identity(); int i = (int)g.raw(2), j = (i + 1 + (int)g.raw(1)) % 3; D(i, j) = e * (g.coin() ? 1 : -1); B = Rr * Q * D * Q.transpose(); break; } // shear
    case 3: { Mat3 D = Mat3::Identity(); D((int)g.raw(2), 0) = 0; D = Mat3::Identity(); int i = (int)g.raw(2); D(i, i) = -1; B = Rr * D; break; } // reflection
    case 4: B = -Rr; break;
    case 5: for (int i = 0; i < 9; ++i) B(i / 3, i % 3) = g.sym(2); break;                    // arbitrary
    case 6: B(g.raw(2), g.raw(2)) = g.coin() ? NAN : INFINITY; break;
    }
    static const char *names[] = {"scaled", "unit-determinant stretch", "shear", "reflection", "negated", "arbitrary", "non-finite"};
    g.label(names[kind]);
    double dist = (B * B.transpose() - Mat3::Identity()).cwiseAbs().maxCoeff();
    double det = B.determinant();
    bool bad = !(dist < 9e-4) || det < 0;
    g.d() << names[kind] << " B = " << str(B);
    g.nontrivial(bad);
    if (bad) {
        EXPECT("isSO3 rejects", !mrob::isSO3(B));
        Mat4 M = matT(T); M.topLeftCorner<3, 3>() = B;
        EXPECT("isSE3 rejects block", !mrob::isSE3(M));
    }
    // last row
    Mat4 M = matT(T); int k2 = (int)g.raw(4); double d = g.logmag(1e-3, 3.0); int i = (int)g.raw(2), j = (i + 1) % 3;
    switch (k2) {
    case 0: M(3, g.raw(3)) += d; break;
    case 1: M(3, g.raw(3)) -= d; break;
    case 2: M(3, i) += d; M(3, j) -= d; break;            // cancelling
    case 3: M(3, i) += d; M(3, 3) -= d; break;            // cancelling with the corner
    case 4: M(3, g.raw(3)) = NAN; break;
    }
    g.d() << " T4 = " << str(M);
    EXPECT("isSE3 rejects last row", !mrob::isSE3(M));
}
#endif

// ------------------------------------------------------------------ G06
#if VP(G06)
PROPERTY(G06, quaternion, 1.0) {
    Mat41 q; bool struc = g.chance(1, 3);
    for (int i = 0; i < 4; ++i) q(i) = struc ? g.pick({0.0, 1.0, -1.0, 0.5, -0.5}) : g.sym(1);
    if (q.norm() < 1e-3) q << 0, 0, 0, 1;
    q *= g.pick({1.0, 1.0, 1e-3, 1e3, 0.1});
    if (g.coin()) q.normalize();
    g.d() << "q(xyzw) = " << str(q);
    g.label("unit", std::fabs(q.norm() - 1) < 1e-12); g.label("negative w", q(3) < 0);
    g.nontrivial(q.head<3>().norm() > 1e-9);
    Mat3 m = mrob::quat_to_so3(q);
    EXPECT_CLOSE("quat_to_so3", m, Dbl(quat_to_R(q.cast<R>())), 1e-14);
    EXPECT_CLOSE("q and -q", Mat3(mrob::quat_to_so3(Mat41(-q))), m, 1e-15);
    Mat41 b = mrob::so3_to_quat(m);
    EXPECT_NEAR_("unit quaternion", b.norm(), 1.0, 1e-14);
    EXPECT_CLOSE("round trip", Dbl(quat_to_R(b.cast<R>())), m, 3e-14);
    Mat41 u = q.normalized();
    EXPECT("same quaternion up to sign", std::min((b - u).norm(), (b + u).norm()) < 3e-8);
}
PROPERTY(G06, so3_to_quat, 0.7) {
    Mat3 m = gen_rot(g).R();
    g.d() << "R = " << str(m);
    Mat41 b = mrob::so3_to_quat(m);
    g.nontrivial((m - Mat3::Identity()).norm() > 1e-9);
    EXPECT_NEAR_("unit quaternion", b.norm(), 1.0, 1e-13);
    EXPECT_CLOSE("quaternion of rotation", Dbl(quat_to_R(b.cast<R>())), m, 3e-14);
    EXPECT_CLOSE("round trip", Mat3(mrob::quat_to_so3(b)), m, 3e-14);
}
PROPERTY(G06, rpy, 0.7) {
    Mat31 v; for (int i = 0; i < 3; ++i) v(i) = g.chance(1, 4) ? g.pick({0.0, M_PI / 2, -M_PI / 2, M_PI, -M_PI}) : g.sym(7);
    g.d() << "rpy = " << str(v);
    g.nontrivial(v.norm() > 0);
    M3 X = exp3(ref::V3((R)v(0), 0, 0)), Y = exp3(ref::V3(0, (R)v(1), 0)), Z = exp3(ref::V3(0, 0, (R)v(2)));
    EXPECT_CLOSE("rpy", Mat3(mrob::rpy_to_so3(v)), Dbl(M3(X * Y * Z)), 1e-14);
}
PROPERTY(G06, hat_vee, 0.7) {
    double s = gen::tmag(g); Mat31 w = gen::vec3(g, s), u = gen::vec3(g, s); Mat61 x, y; x << w, gen::vec3(g, s); y << u, gen::vec3(g, s); double a = g.sym(3);
    g.d() << "w = " << str(w) << " x = " << str(x);
    g.nontrivial(w.norm() > 0);
    EXPECT_CLOSE("hat3 is cross product", Mat31(mrob::hat3(w) * u), Mat31(w.cross(u)), 1e-14 * s * s);
    EXPECT_CLOSE("hat3 skew", Mat3(mrob::hat3(w).transpose()), Mat3(-mrob::hat3(w)), 0.0);
    EXPECT_CLOSE("vee3(hat3)", mrob::vee3(mrob::hat3(w)), w, 0.0);
    EXPECT_CLOSE("hat3(vee3)", mrob::hat3(mrob::vee3(mrob::hat3(u))), mrob::hat3(u), 0.0);
    EXPECT_CLOSE("hat3 linear", mrob::hat3(Mat31(a * w + u)), Mat3(a * mrob::hat3(w) + mrob::hat3(u)), 1e-14 * s);
    EXPECT_CLOSE("hat6", mrob::hat6(x), Dbl(twist(x.cast<R>())), 0.0);
    EXPECT_CLOSE("vee6(hat6)", mrob::vee6(mrob::hat6(x)), x, 0.0);
    EXPECT_CLOSE("hat6 linear", mrob::hat6(Mat61(a * x + y)), Mat4(a * mrob::hat6(x) + mrob::hat6(y)), 1e-14 * s);
}
#endif

// ------------------------------------------------------------------ G07
#if VP(G07)
PROPERTY(G07, distances, 1.0) {
    SE3 A = gen_pose(g), B = g.chance(1, 4) ? A : gen_pose(g), C = gen_pose(g);
    if (g.chance(1, 4)) { Mat61 x = gen::twist(g) * g.logmag(1e-9, 1.0); B = A; B.update_lhs(x); }
    g.d() << "A = " << str(matT(A)) << " B = " << str(matT(B));
    double s = 1 + A.t().norm() + B.t().norm();
    double rel = (double)angle(M3(L3(A.R()) * L3(B.R()).transpose()));
    g.label("near pi", rel > M_PI - 1e-3); g.label("coincident", rel < 1e-12);
    g.nontrivial(rel > 1e-9);
    double tr = 2e-13 + pi_loss(rel), tt = (tr * 4 + trans_loss(rel) * 4) * s * 2;
    SO3 a(A.R()), b(B.R()), c(C.R());
    EXPECT_NEAR_("rotation distance = relative angle", A.distance_rotation(B), rel, tr);
    EXPECT_NEAR_("SO3 distance = relative angle", a.distance(b), rel, tr);
    EXPECT_NEAR_("rotation distance symmetric", B.distance_rotation(A), A.distance_rotation(B), 2 * tr);
    EXPECT("rotation distance range", a.distance(b) >= 0 && a.distance(b) <= M_PI * (1 + 1e-12));
    EXPECT("triangle", a.distance(c) <= a.distance(b) + b.distance(c) + 4e-7);
    EXPECT_NEAR_("bi-invariant left", (c * a).distance(c * b), a.distance(b), 3 * tr + 1e-12);
    EXPECT_NEAR_("bi-invariant right", (a * c).distance(b * c), a.distance(b), 3 * tr + 1e-12);
    EXPECT_NEAR_("translation distance", A.distance_trans(B), (double)(A.t().cast<R>() - B.t().cast<R>()).norm(), 1e-14 * s);
    if (rel < M_PI - 1e-9) {
        V6 l = log6(M4(L4(matT(A)) * inv4(L4(matT(B)))));
        EXPECT_NEAR_("distance = |log of relative|", A.distance(B), (double)l.norm(), tt);
        EXPECT_NEAR_("distance symmetric", B.distance(A), A.distance(B), 2 * tt);
    }
    EXPECT_NEAR_("self distance", A.distance(A), 0.0, 1e-12 * s); EXPECT_NEAR_("self distance rot", A.distance_rotation(A), 0.0, 1e-12); EXPECT_NEAR_("self distance trans", A.distance_trans(A), 0.0, 1e-14 * s);
    EXPECT_NEAR_("self distance SO3", a.distance(a), 0.0, 1e-12);
    double dA = (double)angle(L3(A.R()));
    EXPECT_NEAR_("distance from identity", A.distance(), A.distance(SE3()), 1e-12 * s);
    EXPECT_NEAR_("rotation from identity", A.distance_rotation(), dA, 2e-13 + pi_loss(dA));
    EXPECT_NEAR_("translation from identity", A.distance_trans(), (double)A.t().norm(), 1e-14 * s);
    if (rel > 1e-7 || A.distance_trans(B) > 1e-7 * s) EXPECT("distinct poses have positive distance", A.distance(B) > 0);
}
#endif

// ------------------------------------------------------------------ G08 / G09
#if VP(G08) || VP(G09)
static Mat6 gen_cov(Case &g) {
    switch (g.weighted({5, 1, 2, 1})) {
    default: return gen::spd<6>(g, 1e-3, g.pick({1.0, 1e-2, 1e-4, 1.0}), true);
    case 1: return Mat6::Zero();
    case 2: { // badly scaled
        Eigen::Matrix<double, 6, 6> D = Eigen::Matrix<double, 6, 6>::Zero(); for (int i = 0; i < 6; ++i) D(i, i) = g.logmag(1e-4, 1);
        return D * gen::spd<6>(g, 1e-3, 1.0, true) * D; }
    case 3: return Mat6::Identity() * g.logmag(1e-4, 1);
    }
}
static double mineig(const Mat6 &m) { Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>> e(0.5 * (m + m.transpose())); return e.eigenvalues()(0); }
static bool same_pose(const SE3 &a, const Mat4 &b, double tol) { return maxdiff(matT(a), b) <= tol; }
#endif
#if VP(G08)
PROPERTY(G08, second_order, 1.0) {
    SE3 A = gen_pose(g), B = gen_pose(g); Mat6 S1 = gen_cov(g), S2 = gen_cov(g);
    SE3Cov a(A, S1), b(B, S2);
    double t = 1 + A.t().norm(), sc = S1.norm() + S2.norm() * t * t, tol = 1e-13 * sc;
    g.d() << "A = " << str(matT(A)) << " S1 = " << str(S1) << " B = " << str(matT(B)) << " S2 = " << str(S2);
    g.label("zero covariance", S1.norm() == 0 || S2.norm() == 0); g.label("rank deficient", mineig(S2) < 1e-12 && S2.norm() > 0);
    g.nontrivial(S1.norm() > 0 && S2.norm() > 0 && A.t().norm() > 1e-3);
    M6 ad_ = Ad(L4(matT(A)));
    M6 want = S1.cast<R>() + ad_ * S2.cast<R>() * ad_.transpose();
    Mat4 P = dm4(L4(matT(A)) * L4(matT(B)));
    double pt = 1e-14 * (1 + A.t().norm() + B.t().norm());
    SE3Cov r1 = a.compound_2nd_order(b), r2 = a.compound_2nd_order(B, S2), r3 = a.mul(b), r4 = a * b;
    EXPECT_CLOSE("2nd order", r1.cov(), Dbl(want), tol);
    EXPECT_CLOSE("2nd order (pose,cov)", r2.cov(), Dbl(want), tol);
    EXPECT_CLOSE("mul", r3.cov(), Dbl(want), tol);
    EXPECT_CLOSE("operator*", r4.cov(), Dbl(want), tol);
    EXPECT("poses compose", same_pose(r1, P, pt) && same_pose(r2, P, pt) && same_pose(r3, P, pt) && same_pose(r4, P, pt));
    EXPECT_CLOSE("symmetric", r1.cov(), Mat6(r1.cov().transpose()), tol);
    EXPECT("psd", mineig(r1.cov()) >= -1e-12 * sc - 1e-300);
    EXPECT_CLOSE("operands untouched", a.cov(), S1, 0.0); EXPECT_CLOSE("operands untouched b", b.cov(), S2, 0.0);
    EXPECT("operand poses untouched", same_pose(a, matT(A), 0) && same_pose(b, matT(B), 0));
    EXPECT_CLOSE("zero increment", a.compound_2nd_order(B, Mat6::Zero()).cov(), S1, 1e-15 * sc);
    EXPECT_CLOSE("default is identity pose", matT(SE3Cov()), Mat4::Identity(), 0.0);
    // ordinary pose operations remain available on the uncertain pose
    Mat31 p = gen::vec3(g, 3); EXPECT_CLOSE("acts as its pose", a.transform(p), A.transform(p), 1e-14 * (1 + A.t().norm() + p.norm()));
    SE3Cov cpy(a); EXPECT_CLOSE("copy cov", cpy.cov(), S1, 0.0); EXPECT("copy pose", same_pose(cpy, matT(A), 0));
}
PROPERTY(G08, chains, 0.6) {
    SE3Cov a(gen_pose(g), gen_cov(g)), b(gen_pose(g), gen_cov(g)), c(gen_pose(g), gen_cov(g));
    double s = 1 + a.t().norm() + b.t().norm() + c.t().norm();
    double sc = (a.cov().norm() + b.cov().norm() + c.cov().norm()) * s * s;
    g.d() << "a " << str(matT(a)) << " b " << str(matT(b)) << " c " << str(matT(c));
    g.nontrivial(sc > 0);
    SE3Cov l = (a * b) * c, r = a * (b * c);
    EXPECT_CLOSE("associative cov", l.cov(), r.cov(), 1e-12 * sc);
    EXPECT_CLOSE("associative pose", matT(l), matT(r), 1e-13 * s);
    // a chain against the direct sum of transported covariances
    int n = (int)g.in_range(1, 12); SE3Cov acc = a; M6 want = a.cov().cast<R>(); M4 X = L4(matT(a)); double tot = a.cov().norm(), sp = 1 + a.t().norm();
    for (int i = 0; i < n; ++i) {
        Mat61 x = gen::twist_tame(g, 3.0, 2.0); SE3Cov inc(SE3(x), gen_cov(g));
        M6 A = Ad(X); want += A * inc.cov().cast<R>() * A.transpose(); X = X * L4(matT(inc));
        sp += x.tail<3>().norm(); tot += inc.cov().norm() * sp * sp;
        acc = acc * inc;
        EXPECT_CLOSE("chain cov", acc.cov(), Dbl(want), 1e-12 * (tot + 1e-12));
        EXPECT_CLOSE("chain pose", L4(matT(acc)), X, 1e-12 * sp);
    }
}
#endif

// ------------------------------------------------------------------ G09
#if VP(G09)
// Fourth-order compounding from its definition (Barfoot & Furgale 2014, rotation-first order):
// B = E[ ad(x1) ad(x2) ad(x2)... ] computed directly as an expectation: sum over rank-one factors of S1, S2 of
// (ad(u) v)(ad(u) v)^T where S1 = sum u u^T, S2 = sum v v^T.  Exact for Gaussian moments.
static M6 fourth_moments(const M4 &T1, const M6 &S1, const M6 &S2raw) {
    M6 A = Ad(T1), S2 = A * S2raw * A.transpose();
    auto roots = [](const M6 &S) { Eigen::SelfAdjointEigenSolver<M6> e(M6(0.5L * (S + S.transpose()))); M6 U = e.eigenvectors(); for (int i = 0; i < 6; ++i) U.col(i) *= std::sqrt(std::max((R)0, e.eigenvalues()(i))); return U; };
    M6 U = roots(S1), V = roots(S2), B = M6::Zero(), A1 = M6::Zero(), A2 = M6::Zero();
    for (int i = 0; i < 6; ++i) {
        M6 cu = ad(U.col(i)), cv = ad(V.col(i)); A1 += cu * cu; A2 += cv * cv;
        for (int j = 0; j < 6; ++j) { V6 w = cu * V.col(j); B += w * w.transpose(); }
    }
    return S1 + S2 + (A1 * S2 + S2 * A1.transpose() + A2 * S1 + S1 * A2.transpose()) / 12 + B / 4;
}
PROPERTY(G09, fourth_order, 1.0) {
    SE3 A = gen_pose(g), B = gen_pose(g); Mat6 S1 = gen_cov(g), S2 = gen_cov(g);
    SE3Cov a(A, S1), b(B, S2);
    double t = 1 + A.t().norm(), s2 = S2.norm() * t * t, sc = S1.norm() + s2 + S1.norm() * s2;
    g.d() << "A = " << str(matT(A)) << " S1 = " << str(S1) << " B = " << str(matT(B)) << " S2 = " << str(S2);
    g.nontrivial(S1.norm() > 0 && S2.norm() > 0);
    g.label("cross-correlated", S1.topRightCorner<3, 3>().norm() > 1e-3 * S1.norm() && S1.norm() > 0);
    SE3Cov r1 = a.compound_4th_order(b), r2 = a.compound_4th_order(B, S2);
    M6 want = fourth_moments(L4(matT(A)), S1.cast<R>(), S2.cast<R>());
    EXPECT_CLOSE("4th order", r1.cov(), Dbl(want), 3e-13 * sc);
    EXPECT_CLOSE("4th order (pose,cov)", r2.cov(), r1.cov(), 1e-14 * sc);
    Mat4 P = dm4(L4(matT(A)) * L4(matT(B)));
    EXPECT("pose composes", same_pose(r1, P, 1e-14 * (t + B.t().norm())) && same_pose(r2, P, 1e-14 * (t + B.t().norm())));
    EXPECT_CLOSE("symmetric", r1.cov(), Mat6(r1.cov().transpose()), 1e-13 * sc);
    EXPECT_CLOSE("operands untouched", a.cov(), S1, 0.0); EXPECT_CLOSE("operands untouched b", b.cov(), S2, 0.0);
    // correction is bilinear: vanishes with either covariance, scales with each
    Mat6 second = a.compound_2nd_order(b).cov();
    EXPECT_CLOSE("no correction without increment covariance", a.compound_4th_order(B, Mat6::Zero()).cov(), S1, 1e-14 * sc);
    EXPECT_CLOSE("no correction without own covariance", SE3Cov(A, Mat6::Zero()).compound_4th_order(b).cov(), SE3Cov(A, Mat6::Zero()).compound_2nd_order(b).cov(), 1e-13 * sc);
    double k = g.logmag(1e-4, 10);
    Mat6 c1 = r1.cov() - second, ck = SE3Cov(A, k * S1).compound_4th_order(B, k * S2).cov() - SE3Cov(A, k * S1).compound_2nd_order(B, k * S2).cov();
    EXPECT_CLOSE("correction scales quadratically", ck, Mat6(k * k * c1), 1e-12 * sc * (k + k * k));
}
PROPERTY(G09, curly_wedge, 0.4) {
    Mat61 x = gen::twist(g), y = gen::twist(g);
    g.d() << "x = " << str(x) << " y = " << str(y);
    g.nontrivial(x.norm() > 0 && y.norm() > 0);
    double s = (1 + x.norm()) * (1 + y.norm());
    EXPECT_CLOSE("ad", mrob::curly_wedge(x), Dbl(ad(x.cast<R>())), 0.0);
    M4 br = twist(x.cast<R>()) * twist(y.cast<R>()) - twist(y.cast<R>()) * twist(x.cast<R>());
    EXPECT_CLOSE("bracket", mrob::hat6(Mat61(mrob::curly_wedge(x) * y)), dm4(br), 1e-14 * s);
}
#endif

PBT_MAIN
