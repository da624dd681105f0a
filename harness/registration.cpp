// Point alignment, plane estimation and plane registration (R01-R09).
#include "ref.hpp"
#include <Eigen/Eigenvalues>
#include <memory>
#include <map>
#include <set>
#include <tuple>
#include <chrono>
#include "mrob/SE3.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/plane.hpp"
#include "mrob/plane_registration.hpp"
#include "mrob/create_points.hpp"
#ifdef VP_ONLY
#define VP(x) (VP_##x)
#else
#define VP(x) 1
#endif
using pbt::Case; using namespace mrob; using ref::R;
typedef Eigen::MatrixXd DX; typedef Eigen::VectorXd Dv; using ref::MX; using ref::VX; typedef Eigen::Matrix4d D4; typedef Eigen::Matrix3d D3; typedef Eigen::Vector3d D31;
static inline D4 dT(const SE3 &T) { return D4(T.T()); }
static inline D4 rT(const ref::M4 &T) { return T.cast<double>(); }

// ------------------------------------------------------------------ reference alignment (Horn's quaternion method)
struct Align { ref::M4 T; R gap, top, sse, s1; };
static Align horn(const DX &X_, const DX &Y_, const Dv *w_ = nullptr) {
    MX X = X_.cast<R>(), Y = Y_.cast<R>(); int n = X.rows(); VX w = w_ ? VX(w_->cast<R>()) : VX(VX::Ones(n)); R W = w.sum();
    ref::V3 cx = (X.transpose() * w) / W, cy = (Y.transpose() * w) / W; ref::M3 H = ref::M3::Zero();
    for (int i = 0; i < n; ++i) H += w(i) * (X.row(i).transpose() - cx) * (Y.row(i).transpose() - cy).transpose();
    ref::M4 N; // quaternion order (w, x, y, z)
    N << H(0, 0) + H(1, 1) + H(2, 2), H(1, 2) - H(2, 1), H(2, 0) - H(0, 2), H(0, 1) - H(1, 0),
        H(1, 2) - H(2, 1), H(0, 0) - H(1, 1) - H(2, 2), H(0, 1) + H(1, 0), H(2, 0) + H(0, 2),
        H(2, 0) - H(0, 2), H(0, 1) + H(1, 0), -H(0, 0) + H(1, 1) - H(2, 2), H(1, 2) + H(2, 1),
        H(0, 1) - H(1, 0), H(2, 0) + H(0, 2), H(1, 2) + H(2, 1), -H(0, 0) - H(1, 1) + H(2, 2);
    Eigen::SelfAdjointEigenSolver<ref::M4> es(N); ref::V4 q = es.eigenvectors().col(3); ref::V4 xyzw; xyzw << q(1), q(2), q(3), q(0);
    Align a; a.T = ref::M4::Identity(); a.T.topLeftCorner<3, 3>() = ref::quat_to_R(xyzw); a.T.topRightCorner<3, 1>() = cy - a.T.topLeftCorner<3, 3>() * cx;
    a.gap = es.eigenvalues()(3) - es.eigenvalues()(2); a.top = std::max(std::fabs(es.eigenvalues()(3)), std::fabs(es.eigenvalues()(0)));
    a.s1 = std::sqrt((H.transpose() * H).trace());
    a.sse = 0; for (int i = 0; i < n; ++i) { ref::V3 x = X.row(i).transpose(), y = Y.row(i).transpose(); a.sse += w(i) * (y - (a.T.topLeftCorner<3, 3>() * x + a.T.topRightCorner<3, 1>())).squaredNorm(); }
    return a;
}
static R sse(const DX &X, const DX &Y, const D4 &T_, const Dv *w = nullptr) {
    ref::M4 T = T_.cast<R>(); R s = 0;
    for (int i = 0; i < X.rows(); ++i) { ref::V3 x = X.row(i).transpose().cast<R>(), y = Y.row(i).transpose().cast<R>(); s += (w ? (R)(*w)(i) : 1.0L) * (y - (T.topLeftCorner<3, 3>() * x + T.topRightCorner<3, 1>())).squaredNorm(); }
    return s;
}
static DX moved(const ref::M4 &T, const DX &X) { DX Y(X.rows(), 3); for (int i = 0; i < X.rows(); ++i) { ref::V3 x = X.row(i).transpose().cast<R>(); ref::V3 y = T.topLeftCorner<3, 3>() * x + T.topRightCorner<3, 1>(); Y.row(i) = y.cast<double>().transpose(); } return Y; }
static void rows(Case &g, const char *name, const DX &X) { g.d() << name << " ="; for (int i = 0; i < std::min<int>(X.rows(), 12); ++i) g.d() << " [" << num(X(i, 0)) << ", " << num(X(i, 1)) << ", " << num(X(i, 2)) << "]"; if (X.rows() > 12) g.d() << " ... (" << X.rows() << ")"; g.d() << "\n"; }
// a cloud around the origin with unit-ish extent; kind: 0 generic 1 anisotropic 2 planar 3 symmetric solid 4 regular polygon 5 exactly three points
static DX cloud(Case &g, int &kind, int nmax) {
    kind = (int)g.weighted({4, 2, 3, 2, 1, 2}); int n = (int)g.in_range(kind == 5 ? 3 : 4, kind == 5 ? 3 : std::max(4, nmax)); if (kind < 3 && g.chance(1, 200)) n += (int)g.in_range(60, 1500); DX X(n, 3);
    if (kind == 3) {
        if (g.coin()) { X.resize(8, 3); for (int i = 0; i < 8; ++i) X.row(i) << (i & 1 ? 1 : -1), (i & 2 ? 1 : -1), (i & 4 ? 1 : -1); }
        else { X.resize(6, 3); X.setZero(); for (int i = 0; i < 6; ++i) X(i, i / 2) = i % 2 ? 1 : -1; }
        return X;
    }
    if (kind == 4) { for (int i = 0; i < n; ++i) X.row(i) << std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), 0; return X; }
    Eigen::RowVector3d s(1, 1, 1); if (kind == 1) s << 1, g.logmag(0.05, 1), g.logmag(0.02, 1); if (kind == 2) s << 1, g.logmag(0.1, 1), 0;
    for (int i = 0; i < n; ++i) { X.row(i) = gen::vec3(g, 1.0).transpose(); X.row(i) = X.row(i).cwiseProduct(s).eval(); }
    return X;
}
struct Pair { DX X, Y; ref::M4 T; double scale, off, noise; int kind; bool mirror; };
static Pair gen_pair(Case &g, bool mirrors = true) {
    Pair p; DX C = cloud(g, p.kind, (int)std::min<size_t>(g.size, 40)); p.scale = g.weighted({3, 2}) == 0 ? 1.0 : g.logmag(1e-4, 1e4); p.off = p.scale * (g.chance(1, 3) ? g.logmag(1, 1e3) : 1.0);
    ref::M4 A = ref::exp6(gen::twist_tame(g, 3.0, 1).cast<R>()); A.topRightCorner<3, 1>() = gen::vec3(g, p.off).cast<R>(); p.X = moved(A, C * p.scale);
    p.T = ref::exp6(gen::twist(g, false).cast<R>()); p.T.topRightCorner<3, 1>() = gen::vec3(g, p.off).cast<R>();
    p.noise = p.scale * (g.weighted({2, 2, 1, 1}) == 0 ? 0.0 : g.pick({1e-3, 0.05, 0.5, 3.0}));
    p.mirror = mirrors && g.chance(1, 8); DX src = p.X; if (p.mirror) { Eigen::RowVector3d c = src.colwise().mean(); for (int i = 0; i < src.rows(); ++i) src(i, 2) = 2 * c(2) - src(i, 2); }
    p.Y = moved(p.T, src); if (p.noise > 0) for (int i = 0; i < p.Y.rows(); ++i) p.Y.row(i) += gen::vec3(g, p.noise).transpose();
    if (g.chance(1, 8)) { p.Y.row(g.raw(p.Y.rows() - 1)) += gen::vec3(g, 20 * p.scale).transpose(); p.noise = std::max(p.noise, 20 * p.scale); }
    rows(g, "X", p.X); rows(g, "Y", p.Y); g.label("noise-free", p.noise == 0); g.label("mirrored", p.mirror); g.label("planar", p.kind == 2 || p.kind == 4); g.label("symmetric", p.kind == 3 || p.kind == 4); g.label("not unit scale", p.scale != 1);
    return p;
}
// rounding of the centred clouds, relative to their extent, amplified by the uniqueness gap
static double rtol(const Align &a, const DX &X, const DX &Y) {
    double mx = X.cwiseAbs().maxCoeff(), my = Y.cwiseAbs().maxCoeff(); DX qx = X.rowwise() - X.colwise().mean().eval(), qy = Y.rowwise() - Y.colwise().mean().eval(); double n = X.rows();
    double dH = 2.3e-16 * (6 * (mx * qy.cwiseAbs().maxCoeff() + my * qx.cwiseAbs().maxCoeff()) * n + 20 * (double)a.top); return 10 * dH / (double)a.gap;
}
static bool proper(const D4 &T, double tol = 1e-13) { D3 Q = T.topLeftCorner<3, 3>(); return (Q * Q.transpose() - D3::Identity()).cwiseAbs().maxCoeff() < tol && Q.determinant() > 0.5 && T(3, 0) == 0 && T(3, 1) == 0 && T(3, 2) == 0 && T(3, 3) == 1; }

#if VP(R01)
PROPERTY(R01, least_squares_optimum, 3) {
    Pair p = gen_pair(g); Align a = horn(p.X, p.Y); if (!(a.gap > 1e-5L * a.top)) { g.label("optimum not unique, skipped"); return; }
    double tr = rtol(a, p.X, p.Y); if (tr > 1e-2) return; g.nontrivial(); SE3 T(gen::twist(g)); int ok = PCRegistration::arun(p.X, p.Y, T);
    if (ok != 1) g.fail("refused", "arun returned " + std::to_string(ok) + " although the optimum is unique (gap " + num(a.gap / a.top) + ", extent " + num(p.scale) + ")");
    D4 got = dT(T); EXPECT("proper", proper(got));
    double mag = p.X.cwiseAbs().maxCoeff(), tt = tr * mag * 4 + 1e-15 * (mag + p.Y.cwiseAbs().maxCoeff()) * 4;
    R s = sse(p.X, p.Y, got), lim = a.sse * (1 + 1e-10L) + 10 * (a.top * (R)tr * (R)tr + p.X.rows() * (R)tt * (R)tt);
    if (!(s <= lim)) g.fail("not-optimal", "squared error " + num(s) + " although " + num(a.sse) + " is attainable");
    EXPECT_CLOSE("rotation", got.topLeftCorner(3, 3), rT(a.T).topLeftCorner(3, 3), tr + 4e-15);
    EXPECT_CLOSE("translation", got.topRightCorner(3, 1), rT(a.T).topRightCorner(3, 1), tt);
}
PROPERTY(R01, exact_correspondences, 2) {
    int kind; DX C = cloud(g, kind, 30); double sc = g.logmag(1e-4, 1e4), off = sc * g.pick({0.0, 1.0, 100.0}); ref::M4 A = ref::exp6(gen::twist_tame(g).cast<R>()); A.topRightCorner<3, 1>() = gen::vec3(g, off).cast<R>(); DX X = moved(A, C * sc);
    ref::M4 Tt = ref::exp6(gen::twist(g, false).cast<R>()); Tt.topRightCorner<3, 1>() = gen::vec3(g, std::max(off, sc)).cast<R>(); DX Y = moved(Tt, X); rows(g, "X", X); rows(g, "Y", Y);
    Align a = horn(X, Y); if (!(a.gap > 1e-5L * a.top)) return; g.nontrivial(); g.label("symmetric", kind == 3 || kind == 4); g.label("planar", kind == 2 || kind == 4);
    SE3 T; int ok = PCRegistration::arun(X, Y, T); if (ok != 1) g.fail("refused", "arun refused exact correspondences of extent " + num(sc) + ", gap " + num(a.gap / a.top));
    double tr = rtol(a, X, Y) + 1e-14; EXPECT("proper", proper(dT(T))); EXPECT_CLOSE("rotation", dT(T).topLeftCorner(3, 3), rT(Tt).topLeftCorner(3, 3), tr);
    EXPECT_CLOSE("fit", moved(dT(T).cast<R>(), X), Y, 4 * tr * (X.cwiseAbs().maxCoeff() + sc) + 1e-14 * Y.cwiseAbs().maxCoeff());
}
PROPERTY(R01, degenerate_sets_are_refused, 2) {
    int n = (int)g.in_range(3, 20), what = (int)g.weighted({2, 1, 1, 1, 1}); DX X(n, 3), Y(n, 3); double sc = g.logmag(1e-3, 1e3), off = sc * g.pick({0.0, 1.0, 30.0}); D31 u = gen::unit3(g), v = gen::unit3(g), c = gen::vec3(g, off), e = gen::vec3(g, off);
    for (int i = 0; i < n; ++i) { double a = g.sym(sc); D31 gx = gen::vec3(g, sc);
        bool cx = what == 1 || what == 3, cy = what == 1, lx = what == 0 || what == 2, ly = what == 0;
        X.row(i) = (cx ? c : lx ? D31(c + a * u) : D31(c + gx)).transpose(); Y.row(i) = (cy ? e : ly ? D31(e + a * v) : D31(e + gen::vec3(g, sc))).transpose(); }
    if (what == 4) { Y = X; for (int i = 0; i < n; ++i) { double a = g.sym(sc); Y.row(i) = (e + a * v).transpose(); } }
    rows(g, "X", X); rows(g, "Y", Y); g.nontrivial(); g.label(what == 0 ? "both collinear" : what == 1 ? "both coincident" : what == 2 ? "source collinear" : what == 3 ? "source coincident" : "target collinear");
    SE3 T(gen::twist_tame(g)); D4 before = dT(T); int ok = PCRegistration::arun(X, Y, T);
    if (ok != 0) g.fail("accepted", "arun returned " + std::to_string(ok) + " for a degenerate set, T = " + str(dT(T)));
    EXPECT_CLOSE("untouched", dT(T), before, 0.0);
}
#endif

#if VP(R02)
static Pair posed(Case &g, Align &a, double gap = 1e-2) { Pair p = gen_pair(g); a = horn(p.X, p.Y); if (!(a.gap > (R)gap * a.top)) p.kind = -1; return p; }
PROPERTY(R02, closed_form_relations, 3) {
    Align a; Pair p = posed(g, a, 1e-4); if (p.kind < 0) { g.label("optimum not unique, skipped"); return; } double tr = rtol(a, p.X, p.Y); if (tr > 1e-6) return;
    SE3 T; if (PCRegistration::arun(p.X, p.Y, T) != 1) g.fail("refused", "arun failed on a well-posed set"); D4 T0 = dT(T); ref::M4 L0 = T0.cast<R>();
    double mx = p.X.cwiseAbs().maxCoeff(), my = p.Y.cwiseAbs().maxCoeff(); int rel = (int)g.raw(6); g.nontrivial(); DX X = p.X, Y = p.Y; ref::M4 want = L0; double ext = mx + my;
    ref::M4 M = ref::exp6(gen::twist(g, false).cast<R>()); M.topRightCorner<3, 1>() = gen::vec3(g, p.off).cast<R>();
    static const char *nm[] = {"move source", "move target", "swap", "permute", "scale", "duplicate all", "move both"}; g.label(nm[rel]); g.d() << nm[rel] << "\n";
    if (rel == 0) { X = moved(M, p.X); want = L0 * ref::inv4(M); }
    if (rel == 1) { Y = moved(M, p.Y); want = M * L0; }
    if (rel == 2) { X = p.Y; Y = p.X; want = ref::inv4(L0); }
    if (rel == 3) { for (int i = (int)X.rows() - 1; i > 0; --i) { int j = (int)g.raw(i); X.row(i).swap(X.row(j)); Y.row(i).swap(Y.row(j)); } }
    if (rel == 4) { double s = g.logmag(1e-3, 1e3); X *= s; Y *= s; want.topRightCorner<3, 1>() *= (R)s; ext *= s; }
    if (rel == 5) { DX X2(2 * X.rows(), 3), Y2(2 * X.rows(), 3); X2 << X, X; Y2 << Y, Y; X = X2; Y = Y2; }
    if (rel == 6) { X = moved(M, p.X); Y = moved(M, p.Y); want = M * L0 * ref::inv4(M); }
    double t2 = rtol(horn(X, Y), X, Y); if (t2 > 1e-6) return; double tol = 4 * (tr + t2) + 1e-14; ext = std::max(ext, X.cwiseAbs().maxCoeff() + Y.cwiseAbs().maxCoeff());
    DX Xc = X, Yc = Y; SE3 U(gen::twist_tame(g)); if (PCRegistration::arun(X, Y, U) != 1) g.fail("refused-moved", std::string("arun failed on the rewritten set: ") + nm[rel]);
    EXPECT_CLOSE("inputs", X, Xc, 0.0); EXPECT_CLOSE("inputs", Y, Yc, 0.0);
    EXPECT_CLOSE("rotation", dT(U).topLeftCorner(3, 3), rT(want).topLeftCorner(3, 3), tol); EXPECT_CLOSE("translation", dT(U).topRightCorner(3, 1), rT(want).topRightCorner(3, 1), tol * ext * 4);
}
#endif

#if VP(R02) || VP(R03)
// iterative methods: moderate extent, moderate noise, start near the truth
struct Iter { DX X, Y, cx, cy; Dv w; ref::M4 T, T0; double noise, off; int n; };
static D3 covariance(Case &g) { switch (g.weighted({3, 2, 1})) { default: return gen::spd<3>(g, 0.05, 1.0); case 1: { D3 Q = ref::exp3(gen::rotvec_tame(g).cast<R>()).cast<double>(); D3 S = Q * D31(g.pick({1e-2, 0.1}), 1, 1).asDiagonal() * Q.transpose(); return D3((S + S.transpose()) / 2); } case 2: return D3(g.pick({1e-2, 1.0, 3.0}) * D3::Identity()); } }
static Iter gen_iter(Case &g, bool cov) {
    Iter p; int kind; DX C = cloud(g, kind, (int)std::min<size_t>(g.size, 30)); while (C.rows() < 5) { DX D(C.rows() + 2, 3); D.topRows(C.rows()) = C; for (int i = 0; i < 2; ++i) D.row(C.rows() + i) = gen::vec3(g, 1).transpose(); C = D; }
    p.n = (int)C.rows(); p.off = g.pick({0.0, 1.0, 5.0}); ref::M4 A = ref::exp6(gen::twist_tame(g).cast<R>()); A.topRightCorner<3, 1>() = gen::vec3(g, p.off).cast<R>(); p.X = moved(A, C * g.pick({1.0, 3.0, 0.5}));
    p.T = ref::exp6(gen::twist_tame(g, 3.0, 1).cast<R>()); p.T.topRightCorner<3, 1>() = gen::vec3(g, p.off).cast<R>(); p.noise = g.pick({0.0, 1e-3, 0.02, 0.05}); p.Y = moved(p.T, p.X); if (p.noise > 0) for (int i = 0; i < p.n; ++i) p.Y.row(i) += gen::vec3(g, p.noise).transpose();
    p.w = Dv(p.n); for (int i = 0; i < p.n; ++i) p.w(i) = g.logmag(0.1, 5);
    if (cov) { p.cx = DX(3 * p.n, 3); p.cy = p.cx; for (int i = 0; i < p.n; ++i) { p.cx.block(3 * i, 0, 3, 3) = covariance(g); p.cy.block(3 * i, 0, 3, 3) = covariance(g); } }
    ref::V6 d; double m = g.pick({0.0, 0.01, 0.1}); d.head<3>() = gen::vec3(g, m).cast<R>(); d.tail<3>() = gen::vec3(g, m).cast<R>(); p.T0 = ref::exp6(d) * p.T; rows(g, "X", p.X); rows(g, "Y", p.Y); g.d() << "start " << str(rT(p.T0)) << "\n";
    g.label("noise-free", p.noise == 0); g.label("planar", kind == 2 || kind == 4); return p;
}
static SE3 se3(const ref::M4 &T) { return SE3(Mat4(T.cast<double>())); }
// condition of the unweighted normal equations at T
static double icond(const DX &X, const ref::M4 &T, const Dv &w) { DX H = DX::Zero(6, 6); DX Z = moved(T, X); for (int i = 0; i < X.rows(); ++i) { Eigen::Matrix<double, 3, 6> J; ref::V3 z = Z.row(i).transpose().cast<R>(); J.leftCols(3) = ref::skew(z).cast<double>(); J.rightCols(3) = -D3::Identity(); H += w(i) * J.transpose() * J; } Eigen::SelfAdjointEigenSolver<DX> es(H, Eigen::EigenvaluesOnly); return es.eigenvalues()(5) / std::max(1e-300, es.eigenvalues()(0)); }
static Dv ones(int n) { return Dv(Dv::Ones(n)); }
static const double CT = 1e-12; // convergence tolerance handed to the iterative methods
static double itol(double c) { return 1e-11 * (10 + c); }
#endif
#if VP(R02)
PROPERTY(R02, iterative_relations, 2) {
    bool cov = g.coin(); Iter p = gen_iter(g, cov); Dv wref = cov ? ones(p.n) : p.w; double c = icond(p.X, p.T, wref); if (c > 1e5) { g.label("ill-conditioned, skipped"); return; }
    auto run = [&](const DX &X, const DX &Y, const DX &cx, const DX &cy, const Dv &w, SE3 &T) { DX X0 = X, Y0 = Y, a0 = cx, b0 = cy; Dv w0 = w; int it = cov ? PCRegistration::gicp(X, Y, cx, cy, T, CT) : PCRegistration::weighted_point(X, Y, w, T, CT);
        if (X != X0 || Y != Y0 || cx != a0 || cy != b0 || w != w0) g.fail("inputs", "an input array was modified"); return it; };
    SE3 T = se3(p.T0); int it = run(p.X, p.Y, p.cx, p.cy, p.w, T); if (it >= 20) { g.label("iteration limit, skipped"); return; } ref::M4 L0 = dT(T).cast<R>();
    int rel = (int)g.raw(cov ? 3 : 4); static const char *nm[] = {"move source", "move target", "permute", "scale covariances/weights", "swap"}; g.label(nm[rel]); g.label(cov ? "gicp" : "weighted"); g.d() << (cov ? "gicp " : "weighted ") << nm[rel] << "\n"; g.nontrivial();
    ref::M4 M = ref::exp6(gen::twist_tame(g, 3.0, 2).cast<R>()), want = L0, start = p.T0; DX X = p.X, Y = p.Y, cx = p.cx, cy = p.cy; Dv w = p.w; ref::M3 C = M.topLeftCorner<3, 3>();
    auto rot = [&](DX &S) { if (cov) for (int i = 0; i < p.n; ++i) { ref::M3 B = S.block(3 * i, 0, 3, 3).cast<R>(); B = (C * B * C.transpose()).eval(); S.block(3 * i, 0, 3, 3) = ((B + B.transpose()) / 2).cast<double>(); } };
    if (rel == 0) { X = moved(M, X); rot(cx); want = L0 * ref::inv4(M); start = p.T0 * ref::inv4(M); }
    if (rel == 1) { Y = moved(M, Y); rot(cy); want = M * L0; start = M * p.T0; }
    if (rel == 2) for (int i = p.n - 1; i > 0; --i) { int j = (int)g.raw(i); X.row(i).swap(X.row(j)); Y.row(i).swap(Y.row(j)); std::swap(w(i), w(j)); if (cov) { D3 t = cx.block(3 * i, 0, 3, 3); cx.block(3 * i, 0, 3, 3) = cx.block(3 * j, 0, 3, 3).eval(); cx.block(3 * j, 0, 3, 3) = t; t = cy.block(3 * i, 0, 3, 3); cy.block(3 * i, 0, 3, 3) = cy.block(3 * j, 0, 3, 3).eval(); cy.block(3 * j, 0, 3, 3) = t; } }
    if (rel == 3) { double s = g.logmag(0.05, 20); w *= s; cx *= s; cy *= s; }
    if (rel == 4) { X = p.Y; Y = p.X; want = ref::inv4(L0); start = ref::inv4(p.T0); }
    double c2 = std::max(c, icond(X, want, cov ? ones(p.n) : w)); if (c2 > 1e6) return; SE3 U = se3(start); int it2 = run(X, Y, cx, cy, w, U); if (it2 >= 20) return;
    double ext = 1 + X.cwiseAbs().maxCoeff() + Y.cwiseAbs().maxCoeff(); EXPECT_CLOSE("relation", dT(U), rT(want), itol(c2) * ext * (cov ? 100 : 1));
}
#endif
#if VP(R03)
PROPERTY(R03, weighted_minimiser, 3) {
    Iter p = gen_iter(g, false); int mode = (int)g.weighted({3, 2, 2, 2}); Dv w = p.w; if (mode == 1) w = ones(p.n) * g.logmag(0.01, 100); if (mode == 2) for (int i = 0; i < p.n; ++i) w(i) = (double)g.in_range(1, 4); if (mode == 3) for (int i = 0; i < p.n; ++i) if (g.chance(1, 3)) w(i) = 0;
    DX Y = p.Y; if (mode == 3) for (int i = 0; i < p.n; ++i) if (w(i) == 0) Y.row(i) += gen::vec3(g, 10).transpose(); g.d() << "weights " << str(w) << "\n";
    if ((w.array() > 0).count() < 4) return; double c = icond(p.X, p.T, w); if (c > 1e5) { g.label("ill-conditioned, skipped"); return; } Align a = horn(p.X, Y, &w); if (!(a.gap > 1e-4L * a.top)) return;
    SE3 T = se3(p.T0); int it = PCRegistration::weighted_point(p.X, Y, w, T, CT); EXPECT("iterations", it >= 1 && it <= 20); if (it >= 20) { g.label("iteration limit, skipped"); return; } g.nontrivial();
    static const char *nm[] = {"general weights", "equal weights", "integer weights", "zero weights"}; g.label(nm[mode]); double ext = 1 + p.X.cwiseAbs().maxCoeff() + Y.cwiseAbs().maxCoeff(), tol = itol(c) * ext * (1 + 1e-2L * a.top / a.gap);
    EXPECT_CLOSE("minimiser", dT(T), rT(a.T), tol); R s = sse(p.X, Y, dT(T), &w); if (!(s <= a.sse * (1 + 1e-9L) + 1e-16L * ext * ext * p.n * w.maxCoeff())) g.fail("cost", "weighted squared error " + num(s) + " although " + num(a.sse) + " is attainable");
    if (mode == 1) { SE3 U; if (PCRegistration::arun(p.X, Y, U) == 1) EXPECT_CLOSE("closed-form", dT(T), dT(U), tol + 1e-9); }
    if (mode == 2) { int m = (int)w.sum(); DX X2(m, 3), Y2(m, 3); int k = 0; for (int i = 0; i < p.n; ++i) for (int j = 0; j < (int)w(i); ++j, ++k) { X2.row(k) = p.X.row(i); Y2.row(k) = Y.row(i); } SE3 U = se3(p.T0); PCRegistration::weighted_point(X2, Y2, ones(m), U, CT); EXPECT_CLOSE("repetition", dT(U), dT(T), tol); }
    if (mode == 3) { int m = (int)(w.array() > 0).count(); DX X2(m, 3), Y2(m, 3); Dv w2(m); int k = 0; for (int i = 0; i < p.n; ++i) if (w(i) > 0) { X2.row(k) = p.X.row(i); Y2.row(k) = Y.row(i); w2(k++) = w(i); } SE3 U = se3(p.T0); PCRegistration::weighted_point(X2, Y2, w2, U, CT); EXPECT_CLOSE("ignored", dT(U), dT(T), tol); }
    SE3 V = T; int again = PCRegistration::weighted_point(p.X, Y, w, V, g.pick({1e-4, 1e-6, 1e-8})); EXPECT("optimal start stops at once", again == 1); EXPECT_CLOSE("fixed point", dT(V), dT(T), tol);
}
PROPERTY(R03, covariance_minimiser, 3) {
    Iter p = gen_iter(g, true); int mode = (int)g.weighted({3, 2}); if (mode == 1) { double s = g.logmag(0.01, 10), u = g.logmag(0.01, 10); for (int i = 0; i < p.n; ++i) { p.cx.block(3 * i, 0, 3, 3) = D3(s * D3::Identity()); p.cy.block(3 * i, 0, 3, 3) = D3(u * D3::Identity()); } }
    double c = icond(p.X, p.T, ones(p.n)); if (c > 1e4) { g.label("ill-conditioned, skipped"); return; } SE3 T = se3(p.T0); int it = PCRegistration::gicp(p.X, p.Y, p.cx, p.cy, T, CT); EXPECT("iterations", it >= 1 && it <= 20); if (it >= 20) { g.label("iteration limit, skipped"); return; }
    g.nontrivial(); g.label(mode ? "isotropic" : "general covariances"); double ext = 1 + p.X.cwiseAbs().maxCoeff() + p.Y.cwiseAbs().maxCoeff(); ref::M4 L = dT(T).cast<R>(); ref::V6 b = ref::V6::Zero(); ref::M6 H = ref::M6::Zero();
    for (int i = 0; i < p.n; ++i) { ref::M3 Q = L.topLeftCorner<3, 3>(), S = (p.cy.block(3 * i, 0, 3, 3).cast<R>() + Q * p.cx.block(3 * i, 0, 3, 3).cast<R>() * Q.transpose()); ref::M3 W = S.inverse(); ref::V3 z = Q * p.X.row(i).transpose().cast<R>() + L.topRightCorner<3, 1>(), r = p.Y.row(i).transpose().cast<R>() - z;
        Eigen::Matrix<R, 3, 6> J; J.leftCols<3>() = ref::skew(z); J.rightCols<3>() = -ref::M3::Identity(); b += J.transpose() * W * r; H += J.transpose() * W * J; }
    ref::V6 step = H.ldlt().solve(b); double tol = itol(c) * ext * 100; EXPECT_NEAR_("fixed point of the normal equations", step.cwiseAbs().maxCoeff(), 0, tol);
    if (p.noise == 0) EXPECT_CLOSE("exact", dT(T), rT(p.T), tol);
    if (mode == 1) { Align a = horn(p.X, p.Y); EXPECT_CLOSE("closed-form", dT(T), rT(a.T), tol * (1 + 1e-2L * a.top / a.gap)); }
    SE3 V = T; int again = PCRegistration::gicp(p.X, p.Y, p.cx, p.cy, V, g.pick({1e-4, 1e-6, 1e-8})); EXPECT("optimal start stops at once", again == 1); EXPECT_CLOSE("stays", dT(V), dT(T), tol);
}
#endif

#if VP(R04)
PROPERTY(R04, plane_is_least_squares, 3) {
    int kind; DX C = cloud(g, kind, (int)std::min<size_t>(g.size + 3, 60)); double th = g.weighted({2, 3, 2}) == 0 ? 0.0 : g.pick({1e-6, 1e-3, 0.05, 0.3}); if (kind != 3) for (int i = 0; i < C.rows(); ++i) C(i, 2) *= th;
    double sc = g.weighted({2, 1}) == 0 ? 1.0 : g.logmag(1e-3, 1e3), off = sc * g.pick({0.0, 1.0, 30.0}); ref::M4 A = ref::exp6(gen::twist(g, false).cast<R>()); A.topRightCorner<3, 1>() = gen::vec3(g, off).cast<R>(); DX X = moved(A, C * sc); rows(g, "X", X);
    MX L = X.cast<R>(); VX c = L.colwise().mean().transpose(); MX q = L.rowwise() - c.transpose(); ref::M3 S = q.transpose() * q; Eigen::SelfAdjointEigenSolver<ref::M3> es(S); R l0 = es.eigenvalues()(0), l1 = es.eigenvalues()(1), l2 = es.eigenvalues()(2); if (!(l1 > 1e-6L * l2)) { g.label("collinear, skipped"); return; }
    g.nontrivial(); g.label("exact plane", th == 0 && kind != 3); Mat41 pl = estimate_plane(X); D31 n = pl.head(3), nn = estimate_normal(X), cc = estimate_centroid(X); double mag = X.cwiseAbs().maxCoeff();
    EXPECT_NEAR_("unit normal", n.norm(), 1, 1e-12); EXPECT_CLOSE("centroid", cc, c.cast<double>(), 1e-15 * X.rows() * mag); EXPECT_CLOSE("normal", nn, n, 1e-12 + 1e-13 * (double)(l2 / std::max(l1 - l0, 1e-12L * l2))); EXPECT_NEAR_("through the centroid", n.dot(c.cast<double>()) + pl(3), 0, 1e-14 * (10 + X.rows()) * mag);
    ref::V3 nl = n.cast<R>(); R cost = nl.dot(S * nl); // the direct 3x3 eigensolver is documented to lose half the digits
    R noise = (R)(mag * 1e-15) * (R)(mag * 1e-15) * X.rows() + 1e-14L * l2; R lim = l0 * (1 + 1e-6L) + 1e-13L * l2 * l2 / std::max(l1 - l0, 1e-12L * l2) + noise; if (!(cost <= lim)) g.fail("not-optimal", "sum of squared distances " + num(cost) + " although " + num(l0) + " is attainable (spread " + num(l1) + ", " + num(l2) + ")");
    if (l1 - l0 > 1e-2L * l2) { ref::V3 v = es.eigenvectors().col(0); EXPECT_NEAR_("normal direction", std::fabs(v.dot(nl)), 1, 1e-9); }
}
PROPERTY(R04, plane_relations, 2) {
    int n = (int)g.in_range(4, std::max<int>(5, (int)g.size)); if (g.chance(1, 200)) n += (int)g.in_range(60, 1500); DX X(n, 3); double th = g.pick({0.0, 1e-3, 0.1, 0.3}); for (int i = 0; i < n; ++i) X.row(i) << g.sym(1), g.sym(0.8), g.sym(1) * th; ref::M4 A = ref::exp6(gen::twist_tame(g, 3.0, 2).cast<R>()); X = moved(A, X); rows(g, "X", X);
    MX q = X.cast<R>(); q = (q.rowwise() - q.colwise().mean().eval()).eval(); ref::M3 S = q.transpose() * q; Eigen::SelfAdjointEigenSolver<ref::M3> es(S); if (!(es.eigenvalues()(1) - es.eigenvalues()(0) > 1e-2L * es.eigenvalues()(2))) return; g.nontrivial(); D31 c0 = estimate_centroid(X);
    Eigen::Vector4d p0 = estimate_plane(X); int rel = (int)g.raw(3); static const char *nm[] = {"move", "scale", "permute", "duplicate"}; g.label(nm[rel]); g.d() << nm[rel] << "\n"; DX Z = X; ref::V4 want = p0.cast<R>(); ref::V3 wc = c0.cast<R>();
    if (rel == 0) { ref::M4 M = ref::exp6(gen::twist_tame(g, 3.0, 20).cast<R>()); Z = moved(M, X); want = ref::inv4(M).transpose() * want; wc = (M.topLeftCorner<3, 3>() * wc + M.topRightCorner<3, 1>()).eval(); }
    if (rel == 1) { double s = g.logmag(1e-3, 1e3); Z = X * s; want(3) *= (R)s; wc *= (R)s; }
    if (rel == 2) for (int i = n - 1; i > 0; --i) Z.row(i).swap(Z.row(g.raw(i)));
    if (rel == 3) { Z = DX(2 * n, 3); Z << X, X; }
    Eigen::Vector4d got = estimate_plane(Z); ref::V4 gl = got.cast<R>(); if (gl.head<3>().dot(want.head<3>()) < 0) gl = -gl; double ext = 1 + Z.cwiseAbs().maxCoeff(); EXPECT_CLOSE("normal", gl.head<3>().cast<double>(), want.head<3>().cast<double>(), 1e-6); EXPECT_NEAR_("offset", gl(3), want(3), 2e-6 * ext); EXPECT_CLOSE("centroid", D31(estimate_centroid(Z)), wc.cast<double>(), 1e-14 * n * ext);
}
#endif

// ------------------------------------------------------------------ plane landmarks
#if VP(R05) || VP(R06) || VP(R07) || VP(R08) || VP(R09) || VP(R10)
typedef std::shared_ptr<std::vector<SE3>> Traj;
typedef std::vector<std::vector<D31>> Pts;
static ref::M4 momentS(const std::vector<D31> &p) { ref::M4 S = ref::M4::Zero(); for (auto &x : p) { ref::V4 h; h << x.cast<R>(), 1; S += h * h.transpose(); } return S; }
static ref::M4 momentQ(const Pts &p, const std::vector<D4> &T) { ref::M4 Q = ref::M4::Zero(); for (size_t t = 0; t < p.size(); ++t) { ref::M4 L = T[t].cast<R>(); Q += L * momentS(p[t]) * L.transpose(); } return Q; }
static R lmin(const ref::M4 &Q, R *gap = nullptr) { Eigen::SelfAdjointEigenSolver<ref::M4> es(Q); if (gap) *gap = es.eigenvalues()(1) - es.eigenvalues()(0); return es.eigenvalues()(0); }
static std::vector<D4> mats(const std::vector<SE3> &v) { std::vector<D4> o; for (auto &x : v) o.push_back(dT(x)); return o; }
// rounding of the moment matrix: mean-square sized terms per pose
static double qmag(const Pts &p, const std::vector<D4> &T) { double m = 1e-12; for (size_t t = 0; t < p.size(); ++t) { double s = (double)momentS(p[t]).trace(), k = 1 + T[t].topRightCorner<3, 1>().norm(); m += s * k * k; } return m; }
#endif
#if VP(R05)
PROPERTY(R05, plane_histories, 3) {
    uint_t N = (uint_t)g.in_range(1, 5); Plane pl(N); Traj tr(new std::vector<SE3>(N)); for (auto &x : *tr) x = SE3(gen::twist_tame(g, 3.0, 3)); pl.set_trajectory(tr); Pts m(N); uint_t total = 0; int steps = (int)g.in_range(1, (int)g.size), ests = 0; bool est = false, sready = false, mut_after = false; (void)mut_after;
    std::vector<D4> atEst; Pts ptsAtEst; D31 base = gen::unit3(g); double bd = g.sym(3); std::string last; g.d() << "times " << N << "\n";
    auto verify = [&](double err, const char *what) { auto T = mats(*tr); ref::M4 Q = momentQ(m, T); R l = lmin(Q); double tol = 1e-13 * qmag(m, T); EXPECT_NEAR_(std::string("error ") + what, err, l, tol); Eigen::Vector4d v = pl.get_plane(); EXPECT_NEAR_("unit plane vector", v.norm(), 1, 1e-12); ref::V4 vl = v.cast<R>(); EXPECT_NEAR_(std::string("plane ") + what, vl.dot(Q * vl), l, 4 * tol); };
    for (int s = 0; s < steps; ++s) {
        switch (g.weighted({8, 1, 3, 2, 2, 2, 1, 1, 1})) {
        case 0: { uint_t t = (uint_t)g.raw(N - 1); int k = (int)g.in_range(1, 4); if (g.chance(1, 800)) k = (int)g.in_range(400, 1200); for (int i = 0; i < k; ++i) { D31 p = gen::vec3(g, 3); if (g.coin()) p -= base * (base.dot(p) + bd); Mat31 q = p; pl.push_back_point(q, t); EXPECT("argument untouched", q == Mat31(p)); m[t].push_back(p); ++total; } last = "push"; g.d() << "push " << k << " at " << t << "\n"; break; }
        case 1: { Mat31 q(1, 2, 3); uint_t t = N + (uint_t)g.raw(3); pl.push_back_point(q, t); g.d() << "push at " << t << " (out of range)\n"; break; }
        case 2: { double e = pl.estimate_plane(); sready = est = true; g.d() << "estimate -> " << num(e) << "\n"; if (total) verify(e, "of estimate_plane"); else EXPECT("error of an empty plane", e == 0); EXPECT("get_error", pl.get_error() == e); atEst = mats(*tr); ptsAtEst = m; ++ests; break; }
        case 3: { uint_t t = (uint_t)g.raw(N - 1); tr->at(t) = SE3(gen::twist_tame(g, 3.0, 3)); g.d() << "set pose " << t << "\n"; break; }
        case 4: { // change one pose, ask for the incremental error
            uint_t t = (uint_t)g.raw(N - 1); double e0 = pl.estimate_plane(); sready = est = true; (void)e0; int reps = (int)g.in_range(1, 3); for (int r = 0; r < reps; ++r) { tr->at(t) = SE3(gen::twist_tame(g, 3.0, 3)); Eigen::Vector4d v0 = pl.get_plane(); double e = pl.get_error_incremental(t); auto T = mats(*tr); g.d() << "incremental error at " << t << "\n"; if (total) EXPECT_NEAR_("incremental error", e, lmin(momentQ(m, T)), 1e-13 * 3 * qmag(m, T) + 1e-12 * qmag(m, T)); EXPECT_CLOSE("nothing inside is updated", Eigen::Vector4d(pl.get_plane()), v0, 0.0); } break; }
        case 5: { // incremental estimates, one pose changed before each
            pl.estimate_plane(); sready = est = true; int reps = (int)g.in_range(1, 4); double mag = qmag(m, mats(*tr)); for (int r = 0; r < reps; ++r) { uint_t t = (uint_t)g.raw(N - 1); tr->at(t) = SE3(gen::twist_tame(g, 3.0, 3)); double e = pl.estimate_plane_incrementally(t); auto T = mats(*tr); mag += qmag(m, T); g.d() << "incremental estimate at " << t << "\n"; if (total) { ref::M4 Q = momentQ(m, T); R l = lmin(Q); EXPECT_NEAR_("incremental estimate", e, l, 1e-12 * mag); ref::V4 v = Eigen::Vector4d(pl.get_plane()).cast<R>(); EXPECT_NEAR_("plane of the incremental estimate", v.dot(Q * v), l, 4e-12 * mag); EXPECT_NEAR_("error after the incremental estimate", pl.get_error(), l, 1e-12 * mag); } } g.label("repeated incremental", reps > 1); break; }
        case 6: { bool rs = g.coin(); pl.calculate_all_matrices_S(rs); sready = true; g.d() << "matrices S " << rs << "\n"; break; }
        case 7: { pl.clear_points(); for (auto &x : m) x.clear(); total = 0; sready = false; g.d() << "clear\n"; g.label("cleared"); break; }
        case 8: { pl.reset(); sready = false; est = false; g.d() << "reset\n"; EXPECT_CLOSE("plane after reset", Eigen::Vector4d(pl.get_plane()), Eigen::Vector4d(Eigen::Vector4d::Zero()), 0.0); break; }
        }
        EXPECT("total", pl.get_total_number_points() == total);
        for (uint_t t = 0; t < N; ++t) { EXPECT("count", pl.get_number_points(t) == m[t].size()); auto &v = pl.get_points(t); EXPECT("stored", v.size() == m[t].size()); for (size_t i = 0; i < v.size(); ++i) EXPECT("points", v[i] == Mat31(m[t][i])); }
        { auto &v = pl.get_points(N + (uint_t)(s % 3)); EXPECT("points of a time after the last", v.size() == m[N - 1].size()); for (size_t i = 0; i < v.size(); ++i) EXPECT("points", v[i] == Mat31(m[N - 1][i])); }
        if (sready) for (uint_t t = 0; t < N; ++t) if (!m[t].empty()) { D31 c = D31::Zero(); for (auto &x : m[t]) c += x / (double)m[t].size(); EXPECT_CLOSE("mean point", D31(pl.get_mean_point(t)), c, 1e-13); }
    }
    g.nontrivial(total > 2 && ests > 0); (void)est;
}
// insertion order, splitting over calls and estimates in between do not matter
PROPERTY(R05, order_does_not_matter, 1) {
    uint_t N = (uint_t)g.in_range(1, 4); Traj tr(new std::vector<SE3>(N)); for (auto &x : *tr) x = SE3(gen::twist_tame(g, 3.0, 3)); std::vector<std::pair<uint_t, D31>> pts; int n = (int)g.in_range(3, 30); D31 b = gen::unit3(g); for (int i = 0; i < n; ++i) { D31 p = gen::vec3(g, 3); p -= b * b.dot(p) * g.pick({0.0, 0.9, 1.0}); pts.push_back({(uint_t)g.raw(N - 1), p}); }
    Plane A(N), B(N); A.set_trajectory(tr); B.set_trajectory(tr); Pts m(N); for (auto &x : pts) { Mat31 q = x.second; A.push_back_point(q, x.first); m[x.first].push_back(x.second); } for (int i = n - 1; i > 0; --i) std::swap(pts[i], pts[g.raw(i)]);
    for (auto &x : pts) { Mat31 q = x.second; B.push_back_point(q, x.first); if (g.chance(1, 5)) B.estimate_plane(); if (g.chance(1, 9)) B.reset(); } g.nontrivial(n > 4); double ea = A.estimate_plane(), eb = B.estimate_plane(); auto T = mats(*tr); double tol = 2e-13 * qmag(m, T); EXPECT_NEAR_("error", eb, ea, tol); ref::M4 Q = momentQ(m, T); ref::V4 v = Eigen::Vector4d(B.get_plane()).cast<R>(); EXPECT_NEAR_("plane", v.dot(Q * v), lmin(Q), 4 * tol); EXPECT("total", B.get_total_number_points() == (uint_t)n);
}
#endif
#if VP(R06)
struct Landmark { Pts m; Traj tr; std::shared_ptr<Plane> pl; uint_t N; };
static Landmark gen_landmark(Case &g, bool exact) {
    Landmark L; L.N = (uint_t)g.in_range(1, 4); L.tr.reset(new std::vector<SE3>(L.N)); for (auto &x : *L.tr) x = SE3(gen::twist_tame(g, 3.0, 2)); L.m.resize(L.N); L.pl.reset(new Plane(L.N)); L.pl->set_trajectory(L.tr); D31 n = gen::unit3(g); double d = g.sym(2), th = exact ? 0 : g.pick({1e-3, 0.05, 0.5});
    for (uint_t t = 0; t < L.N; ++t) { int k = L.N > 1 && g.chance(1, 5) ? (int)g.raw(1) : g.chance(1, 30) ? (int)g.in_range(20, 300) : (int)g.in_range(L.N == 1 ? 5 : 2, 8); ref::M4 inv = ref::inv4(dT(L.tr->at(t)).cast<R>()); for (int i = 0; i < k; ++i) { D31 p = gen::vec3(g, 2); p -= n * (n.dot(p) + d); p += n * g.sym(th); if (!exact && g.chance(1, 20)) p += gen::vec3(g, 1); ref::V3 q = inv.topLeftCorner<3, 3>() * p.cast<R>() + inv.topRightCorner<3, 1>(); D31 x = q.cast<double>(); Mat31 y = x; L.m[t].push_back(x); L.pl->push_back_point(y, t); } }
    return L;
}
static ref::M4 Qof(const Landmark &L, uint_t t, const ref::V6 &xi) { ref::M4 Q = ref::M4::Zero(); for (uint_t s = 0; s < L.N; ++s) { ref::M4 T = dT(L.tr->at(s)).cast<R>(); if (s == t) T = (ref::exp6(xi) * T).eval(); Q += T * momentS(L.m[s]) * T.transpose(); } return Q; }
PROPERTY(R06, gradient_is_the_derivative, 3) {
    Landmark L = gen_landmark(g, g.chance(1, 5)); int rounds = g.chance(1, 3) ? (int)g.in_range(2, 4) : 1;
    for (int k = 0; k < rounds; ++k) { // on the same landmark: again after a pose has changed
        if (k && g.coin()) { uint_t u = (uint_t)g.raw(L.N - 1); L.tr->at(u) = SE3(gen::twist_tame(g, 0.3, 0.3)) * L.tr->at(u); g.label("pose changed"); }
        auto T = mats(*L.tr); ref::M4 Q = Qof(L, 0, ref::V6::Zero()); R gap; R l = lmin(Q, &gap); (void)l; double mag = qmag(L.m, T); if (!((double)gap > 1e-4 * mag)) { g.label("smallest eigenvalue not isolated, skipped"); return; } g.nontrivial(); L.pl->estimate_plane();
        uint_t t = (uint_t)g.raw(L.N - 1); g.label("step without points", L.m[t].empty()); Eigen::Matrix<double, 6, 1> gr = L.pl->calculate_gradient(t), want; const R h = 1e-4L; for (int i = 0; i < 6; ++i) { ref::V6 e = ref::V6::Zero(); auto f = [&](R s) { e(i) = s; return lmin(Qof(L, t, e)); }; R d1 = (f(h) - f(-h)) / (2 * h), d2 = (f(2 * h) - f(-2 * h)) / (4 * h); want(i) = (double)((4 * d1 - d2) / 3); }
        double amp = mag / (double)gap; EXPECT_CLOSE("gradient", gr, want, 1e-11 * mag * (1 + 1e-2 * amp) * (1 + amp * 1e-1));
        if (g.coin()) L.pl->calculate_hessian(t);
    }
}
PROPERTY(R06, hessian_form, 2) {
    bool exact = g.coin(); Landmark L = gen_landmark(g, exact); auto T = mats(*L.tr); ref::M4 Q = Qof(L, 0, ref::V6::Zero()); R gap; lmin(Q, &gap); double mag = qmag(L.m, T); if (!((double)gap > 1e-4 * mag)) { g.label("smallest eigenvalue not isolated, skipped"); return; } g.nontrivial(); g.label("exact plane", exact); L.pl->estimate_plane(); ref::V4 v = Eigen::Vector4d(L.pl->get_plane()).cast<R>();
    int rounds = g.chance(1, 3) ? (int)g.in_range(2, 5) : 1;
    for (int k = 0; k < rounds; ++k) { // several time steps of the same landmark, as the registration's assembly does
    uint_t t = (uint_t)g.raw(L.N - 1); g.label("step without points", L.m[t].empty()); L.pl->calculate_gradient(t); Eigen::Matrix<double, 6, 6> H = L.pl->calculate_hessian(t); ref::M4 Tt = T[t].cast<R>(), Qt = Tt * momentS(L.m[t]) * Tt.transpose(); DX want = DX::Zero(6, 6), ex = DX::Zero(6, 6); std::vector<ref::M4> G; for (int i = 0; i < 6; ++i) { ref::V6 e = ref::V6::Zero(); e(i) = 1; G.push_back(ref::twist(e)); }
    for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j) { ref::M4 dQj = G[j] * Qt + Qt * G[j].transpose(), B = (G[i] * G[j] + G[j] * G[i]) * Qt * 0.5L + G[i] * dQj; want(i, j) = (double)v.dot((B + B.transpose()) * v); ref::M4 E = (G[i] * G[j] + G[j] * G[i]) * Qt * 0.5L + G[i] * Qt * G[j].transpose(); ex(i, j) = (double)v.dot((E + E.transpose()) * v); }
    double amp = mag / (double)gap; DX Hu = DX(H).triangularView<Eigen::Upper>(); EXPECT_CLOSE("documented form", Hu, want, 1e-12 * mag);
    if (exact) EXPECT_CLOSE("second derivative at an exact plane", Hu, ex, 1e-12 * mag * (10 + amp));
    EXPECT_CLOSE("upper triangular", DX(DX(H).triangularView<Eigen::StrictlyLower>()), DX(DX::Zero(6, 6)), 0.0);
    }
}
#endif

// ------------------------------------------------------------------ plane registration
#if VP(R07) || VP(R08) || VP(R10)
static ref::M4 interp(const ref::M4 &last, uint_t t, uint_t N) { ref::V6 x = ref::log6(last) * ((R)t / (R)(N - 1)); return ref::exp6(x); }
static double lnloss(const ref::M4 &T) { double a = (double)ref::angle(T.topLeftCorner<3, 3>()), m = 1 + T.topRightCorner<3, 1>().cast<double>().norm(); return (1e-12 + 1e-13 / (1e-6 + (M_PI - a) * (M_PI - a))) * m * (a < 1e-2 ? 1e3 : 1); }
static void check_model(Case &g, PlaneRegistration &r, uint_t N, const char *when) {
    EXPECT_CLOSE(std::string("first pose ") + when, dT(r.get_trajectory(0)), D4(D4::Identity()), 0.0); D4 last = dT(r.get_last_pose()); EXPECT_CLOSE("last pose", dT(r.get_trajectory(N - 1)), last, 0.0); EXPECT("rigid last pose", proper(last, 1e-9)); ref::M4 L = last.cast<R>(); double tol = lnloss(L);
    if ((double)ref::angle(L.topLeftCorner<3, 3>()) > 3.1) return; // the interpolation through a half turn is not defined
    for (uint_t t = 1; t + 1 < N; ++t) EXPECT_CLOSE(std::string("interpolated pose ") + when, dT(r.get_trajectory(t)), rT(interp(L, t, N)), tol * 10);
}
#endif
#if VP(R07) || VP(R10)
struct Scene { uint_t N; int P; ref::M4 last; std::vector<Pts> pts; double noise; std::vector<std::vector<int>> seen; double lo; };
static Scene gen_scene(Case &g, double noise, bool partial) {
    Scene s; s.N = (uint_t)g.in_range(2, 5); s.P = (int)g.in_range(3, 7); s.noise = noise; ref::V6 xi = gen::twist_tame(g, 2.0, 2).cast<R>(); s.last = ref::exp6(xi); s.pts.resize(s.P); DX Nn(s.P, 3);
    for (int i = 0; i < s.P; ++i) { D31 n = i < 3 ? D31(D3::Identity().col(i) + gen::vec3(g, 0.3)).normalized() : D31(gen::unit3(g)); Nn.row(i) = n.transpose(); double d = g.sym(3); s.pts[i].resize(s.N); D31 c = gen::vec3(g, 2); int k = (int)g.in_range(4, 10);
        for (uint_t t = 0; t < s.N; ++t) { if (partial && g.chance(1, 4)) continue; ref::M4 inv = ref::inv4(ref::exp6(ref::V6(xi * ((R)t / (R)(s.N - 1))))); for (int j = 0; j < k; ++j) { D31 p = c + gen::vec3(g, 1.5); p -= n * (n.dot(p) + d); if (noise > 0) p += n * g.sym(noise); ref::V3 q = inv.topLeftCorner<3, 3>() * p.cast<R>() + inv.topRightCorner<3, 1>(); s.pts[i][t].push_back(q.cast<double>()); } } }
    Eigen::JacobiSVD<DX> sv(Nn); s.lo = sv.singularValues()(2); g.d() << s.N << " poses, " << s.P << " planes, last pose " << str(rT(s.last)) << "\n"; return s;
}
static void fill(Case &g, PlaneRegistration &r, const Scene &s) { r.set_number_planes_and_poses(s.P, s.N); for (int i = 0; i < s.P; ++i) { bool own = g.coin(); uint_t id = (uint_t)(i * 3 + 1); if (own) { std::shared_ptr<Plane> p(new Plane(s.N)); for (uint_t t = 0; t < s.N; ++t) for (auto &x : s.pts[i][t]) { Mat31 q = x; p->push_back_point(q, t); } r.add_plane(id, p); } else { r.add_new_plane(id); for (uint_t t = 0; t < s.N; ++t) for (auto &x : s.pts[i][t]) { Mat31 q = x; r.plane_push_back_point(id, t, q); } } } }
static double mag(const Scene &s, PlaneRegistration &r) { std::vector<D4> T; for (uint_t t = 0; t < s.N; ++t) T.push_back(dT(r.get_trajectory(t))); double m = 0; for (auto &p : s.pts) m += qmag(p, T); return m; }
static R true_error(const Scene &s, PlaneRegistration &r) { std::vector<D4> T; for (uint_t t = 0; t < s.N; ++t) T.push_back(dT(r.get_trajectory(t))); R e = 0; for (auto &p : s.pts) e += lmin(momentQ(p, T)); return e; }
#endif
#if VP(R07)
PROPERTY(R07, never_worse_and_interpolated, 3) {
    Scene s = gen_scene(g, g.pick({0.0, 0.01, 0.2}), g.chance(1, 4)); PlaneRegistration r; fill(g, r, s); int st = (int)g.weighted({2, 3, 2}); if (st) { ref::V6 d = gen::twist_tame(g, st == 1 ? 0.3 : 2.0, st == 1 ? 0.3 : 3.0).cast<R>(); SE3 T(Mat4(rT(ref::exp6(d) * (st == 1 ? s.last : ref::M4(ref::M4::Identity()))))); if ((double)ref::angle(dT(T).cast<R>().topLeftCorner<3, 3>()) > 3.0) return; r.set_last_pose(T); }
    check_model(g, r, s.N, "after set"); R e0 = true_error(s, r); EXPECT_NEAR_("start error", r.get_current_error(), e0, 1e-12 * mag(s, r)); g.nontrivial(e0 > 1e-9); int n = (int)g.in_range(1, 3), moves = 0;
    for (int k = 0; k < n; ++k) { bool el = g.coin(); D4 b = dT(r.get_last_pose()); r.solve(el ? PlaneRegistration::LM_ELLIP : PlaneRegistration::LM_SPHER); R e = true_error(s, r); g.d() << (el ? "LM_ELLIP " : "LM_SPHER ") << num(e0) << " -> " << num(e) << "\n"; if (dT(r.get_last_pose()) != b) ++moves;
        double tol = 1e-9 * (double)e0 + 1e-11 * mag(s, r); if (!(e <= e0 + (R)tol)) g.fail("worse", "total plane error went from " + num(e0) + " to " + num(e)); check_model(g, r, s.N, "after solve"); auto ev = r.print_evaluate(); EXPECT_NEAR_("reported initial error", ev[5], e0, 1e-11 * mag(s, r)); EXPECT_NEAR_("reported error", ev[6], e, 1e-11 * mag(s, r)); EXPECT("reported iterations", ev[3] >= 1 && ev[3] <= 100); e0 = e; }
    g.label("moved", moves > 0);
}
// curvature of the total error around the true last pose
static bool well_posed(const Scene &s) {
    const R h = 1e-3L; std::vector<std::vector<ref::M4>> S(s.P, std::vector<ref::M4>(s.N)); for (int p = 0; p < s.P; ++p) for (uint_t t = 0; t < s.N; ++t) S[p][t] = momentS(s.pts[p][t]);
    auto f = [&](const ref::V6 &x) { ref::V6 l = ref::log6(ref::exp6(x) * s.last); R e = 0; std::vector<ref::M4> T(s.N); for (uint_t t = 0; t < s.N; ++t) T[t] = ref::exp6(ref::V6(l * ((R)t / (R)(s.N - 1)))); for (int p = 0; p < s.P; ++p) { ref::M4 Q = ref::M4::Zero(); for (uint_t t = 0; t < s.N; ++t) Q += T[t] * S[p][t] * T[t].transpose(); e += lmin(Q); } return e; };
    ref::M6 H; for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j) { R v = 0; for (int a = -1; a < 2; a += 2) for (int b = -1; b < 2; b += 2) { ref::V6 x = ref::V6::Zero(); x(i) += a * h; x(j) += b * h; v += a * b * f(x); } H(i, j) = H(j, i) = v / (4 * h * h); }
    Eigen::SelfAdjointEigenSolver<ref::M6> es(H); return es.eigenvalues()(0) > 1 && es.eigenvalues()(5) < 1e3L * es.eigenvalues()(0);
}
PROPERTY(R07, exact_scenes, 1) {
    Scene s = gen_scene(g, 0, false); if (s.lo < 0.3) return; if ((double)ref::angle(s.last.topLeftCorner<3, 3>()) > 2.6) return; PlaneRegistration r; fill(g, r, s); SE3 T(Mat4(rT(s.last))); r.set_last_pose(T); double m = mag(s, r); EXPECT_NEAR_("error at the truth", r.get_current_error(), 0, 1e-12 * m); if (!well_posed(s)) { g.label("weakly determined, skipped"); return; }
    bool el = g.coin(); auto mode = el ? PlaneRegistration::LM_ELLIP : PlaneRegistration::LM_SPHER; g.nontrivial();
    r.solve(mode); EXPECT_NEAR_("error after solving from the truth", r.get_current_error(), 0, 1e-12 * m); EXPECT_CLOSE("truth is a fixed point", dT(r.get_last_pose()), rT(s.last), 1e-5);
    double a = g.pick({0.02, 0.05, 0.1}); ref::V6 d = gen::twist_tame(g, a, a).cast<R>(); SE3 S(Mat4(rT(ref::exp6(d) * s.last))); r.set_last_pose(S); double e0 = r.get_current_error(); for (int it = 0; it < 12; ++it) r.solve(mode); double e = r.get_current_error(); g.d() << "error " << num(e0) << " -> " << num(e) << " pose off by " << num(maxdiff(dT(r.get_last_pose()), rT(s.last))) << "\n";
    // the default tolerance stops each solve early and the weighting of the poses makes convergence linear: a clear approach is asked for, not digits
    double off0 = maxdiff(dT(S), rT(s.last)), off = maxdiff(dT(r.get_last_pose()), rT(s.last)); EXPECT_NEAR_("recovered error", e, 0, 0.1 * e0 + 1e-3); EXPECT_NEAR_("recovered pose", off, 0, 0.6 * off0 + 1e-3);
}
PROPERTY(R07, initialisation, 2) {
    Scene s = gen_scene(g, g.pick({0.0, 0.05}), false); for (auto &p : s.pts) for (uint_t t = 0; t < s.N; ++t) if (g.chance(1, 5)) p[t].clear(); PlaneRegistration r; fill(g, r, s); bool all = true, anyfail = false; std::vector<Align> al(s.N); std::vector<double> tl(s.N, 0.0); bool unseen = false, clear_fail = false; for (auto &p : s.pts) unseen = unseen || p[0].empty();
    for (uint_t t = 1; t < s.N; ++t) { std::vector<D31> X, Y; for (auto &p : s.pts) if (!p[0].empty() && !p[t].empty()) { D31 a = D31::Zero(), b = a; for (auto &x : p[t]) a += x / (double)p[t].size(); for (auto &x : p[0]) b += x / (double)p[0].size(); X.push_back(a); Y.push_back(b); } if (X.size() < 3) { anyfail = true; clear_fail = true; break; } DX A(X.size(), 3), B(X.size(), 3); for (size_t i = 0; i < X.size(); ++i) { A.row(i) = X[i].transpose(); B.row(i) = Y[i].transpose(); } al[t] = horn(A, B); if (!(al[t].gap > 1e-4L * al[t].top)) return; tl[t] = 10 * rtol(al[t], A, B) * (1 + A.cwiseAbs().maxCoeff()) + 1e-12 / (double)(al[t].gap / al[t].top); }
    (void)all; uint_t ok = r.solve(PlaneRegistration::INITIALIZE); g.nontrivial(s.N > 1); g.label("planes unseen at first", unseen); g.label("too few common planes", anyfail); if (clear_fail) { EXPECT("too few planes are reported", ok == 0); return; } EXPECT("initialised", ok == 1); EXPECT_CLOSE("first pose", dT(r.get_trajectory(0)), D4(D4::Identity()), 0.0); for (uint_t t = 1; t < s.N; ++t) EXPECT_CLOSE("initial pose", dT(r.get_trajectory(t)), rT(al[t].T), tl[t]);
}
#endif
#if VP(R10)
// gradient of the smallest eigenvalue of Q with respect to a left perturbation of pose t: 2 p' G_i Q_t p
static ref::V6 plane_gradient(const Pts &p, const std::vector<D4> &T, uint_t t, double &amp) {
    ref::M4 Q = momentQ(p, T); Eigen::SelfAdjointEigenSolver<ref::M4> es(Q); ref::V4 v = es.eigenvectors().col(0); R gap = es.eigenvalues()(1) - es.eigenvalues()(0); double m = qmag(p, T); amp = std::max(amp, m / std::max((double)gap, 1e-300)); ref::M4 Tt = T[t].cast<R>(), Qt = Tt * momentS(p[t]) * Tt.transpose(); ref::V6 o;
    for (int i = 0; i < 6; ++i) { ref::V6 e = ref::V6::Zero(); e(i) = 1; o(i) = 2 * v.dot(ref::M4(ref::twist(e) * Qt) * v); } return o;
}
struct GradStep { std::vector<ref::V6> per_pose; ref::V6 last; double amp = 1, mag = 0; };
static GradStep gradients(const Scene &s, const std::vector<D4> &T) { GradStep o; o.last.setZero(); for (auto &p : s.pts) o.mag += qmag(p, T); for (uint_t t = 0; t < s.N; ++t) { ref::V6 w = ref::V6::Zero(); R n = 0; for (auto &p : s.pts) { w += plane_gradient(p, T, t, o.amp); n += p[t].size(); } if (n > 0) w /= n; else w.setZero(); if (t == 0) w.setZero(); o.per_pose.push_back(w); o.last += w * ((R)t / (R)(s.N - 1) / (R)s.N); } return o; }
static Scene gen_uneven(Case &g) { Scene s = gen_scene(g, g.pick({0.01, 0.0, 0.2}), g.coin()); for (auto &p : s.pts) for (auto &x : p) if (g.chance(1, 4)) while (!x.empty() && g.chance(2, 3)) x.pop_back(); if (g.chance(1, 4)) { uint_t t = (uint_t)g.raw(s.N - 1); for (auto &p : s.pts) p[t].clear(); g.label("pose without points"); } return s; }
static SE3 near_last(Case &g, const Scene &s) { ref::V6 d = gen::twist_tame(g, g.pick({0.3, 0.05, 1.0}), g.pick({0.3, 0.05, 2.0})).cast<R>(); return SE3(Mat4(rT(ref::exp6(d) * (g.coin() ? s.last : ref::M4(ref::M4::Identity()))))); }
static const PlaneRegistration::SolveMode GM[] = {PlaneRegistration::GRADIENT, PlaneRegistration::GRADIENT_BENGIOS_NAG, PlaneRegistration::GRADIENT_ALL_POSES};
static const char *gname[] = {"GRADIENT", "GRADIENT_BENGIOS_NAG", "GRADIENT_ALL_POSES"};
PROPERTY(R10, single_iterations, 3) {
    Scene s = gen_uneven(g); PlaneRegistration r; fill(g, r, s); double alpha = 0.75, beta = 0.1; if (g.coin()) { alpha = g.logmag(1e-3, 2); r.set_alpha_parameter(alpha); } if (g.coin()) { beta = g.unit(); r.set_beta_parameter(beta); } SE3 T0 = near_last(g, s); if (!g.chance(1, 5)) r.set_last_pose(T0); ref::V6 v = ref::V6::Zero(); int k = (int)g.in_range(1, 6), moved = 0; bool chain = true; double vmag = 0;
    g.d() << "alpha " << num(alpha) << " beta " << num(beta) << "\n";
    for (int i = 0; i < k; ++i) {
        if (g.chance(1, 12)) { r.reset_solution(); v.setZero(); vmag = 0; chain = true; g.label("reset"); } if (g.chance(1, 12)) { SE3 T = near_last(g, s); r.set_last_pose(T); chain = true; }
        if (g.chance(1, 12)) { alpha = g.logmag(1e-3, 2); r.set_alpha_parameter(alpha); }
        int m = (int)g.weighted({1, 3, 1}); std::vector<D4> T; for (uint_t t = 0; t < s.N; ++t) T.push_back(dT(r.get_trajectory(t))); GradStep w = gradients(s, T); if (!(w.amp < 1e4)) { g.label("smallest eigenvalue not isolated, skipped"); return; }
        r.solve(GM[m], true); std::vector<D4> U; for (uint_t t = 0; t < s.N; ++t) U.push_back(dT(r.get_trajectory(t))); g.d() << gname[m] << " -> last pose " << str(U.back()) << "\n"; EXPECT("one iteration", r.print_evaluate()[3] == 1);
        double gt = 1e-11 * w.mag * w.amp; // rounding of a gradient
        if (m == 2) { chain = false; double st = 0; for (uint_t t = 0; t < s.N; ++t) { ref::V6 x = w.per_pose[t] * (-(R)alpha / (R)s.N); double nx = (double)x.norm(); st = std::max(st, nx); if (nx > 300) return; double tol = (alpha * gt + 1e-13 * (1 + nx)) * (1 + T[t].topRightCorner<3, 1>().norm()) * (1 + nx); EXPECT_CLOSE("pose moved along its own gradient", U[t], rT(ref::exp6(x) * T[t].cast<R>()), tol * 10); } if (st > 1e-6) ++moved; }
        else { ref::V6 x = w.last * (-(R)alpha); if (m == 1) { x = v * ((R)beta * (R)beta) - w.last * ((1 + (R)beta) * (R)alpha); v = v * (R)beta - w.last * (R)alpha; vmag = beta * vmag + alpha * gt; } double nx = (double)x.norm(); if (nx > 300) return; double tol = ((1 + beta) * (alpha * gt + vmag) + 1e-13 * (1 + nx)) * (1 + T.back().topRightCorner<3, 1>().norm()) * (1 + nx); EXPECT_CLOSE(std::string("last pose moved along the gradient, ") + gname[m], U.back(), rT(ref::exp6(x) * T.back().cast<R>()), tol * 10); check_model(g, r, s.N, "after a gradient step"); if (nx > 1e-6) ++moved; }
        if (U.back().cwiseAbs().maxCoeff() > 1e6) return; (void)chain;
    }
    g.nontrivial(moved > 0); g.label("several", k > 1);
}
// a run is its iterations one by one, until the error changes by no more than 1e-4
PROPERTY(R10, full_runs, 1) {
    Scene s = gen_uneven(g); PlaneRegistration a, b; fill(g, a, s); b.set_number_planes_and_poses(s.P, s.N); for (int i = 0; i < s.P; ++i) { b.add_new_plane(i * 3 + 1); for (uint_t t = 0; t < s.N; ++t) for (auto &x : s.pts[i][t]) { Mat31 q = x; b.plane_push_back_point(i * 3 + 1, t, q); } }
    double alpha = g.logmag(1e-3, 1); a.set_alpha_parameter(alpha); b.set_alpha_parameter(alpha); SE3 T = near_last(g, s); a.set_last_pose(T); b.set_last_pose(T); int m = (int)g.raw(2); double prev = 1e20; int it = 0; bool close = false; double grown = 1;
    for (;;) { double e = b.get_current_error(); if (!std::isfinite(e) || e > 1e8) return; b.solve(GM[m], true); ++it; double d = std::fabs(prev - e); close = close || std::fabs(d - 1e-4) < 1e-8 * (1 + e); prev = e; grown = std::max(grown, e); if (!(d > 1e-4)) break; if (it >= 150) { g.label("long run, skipped"); return; } }
    if (close) return; int runs = 1; a.solve(GM[m]); g.d() << gname[m] << " alpha " << num(alpha) << " " << it << " iterations\n"; EXPECT("iterations of the run", a.print_evaluate()[3] == it); g.nontrivial(it > 2); g.label("many", it > 10); (void)runs; double drift = 0; for (uint_t t = 0; t < s.N; ++t) drift = std::max(drift, maxdiff(dT(a.get_trajectory(t)), dT(b.get_trajectory(t)))); double far = 1 + dT(b.get_last_pose()).topRightCorner<3, 1>().norm(); EXPECT_NEAR_("same trajectory as its iterations", drift, 0, 1e-6 * far * grown);
}
#endif
#if VP(R08)
PROPERTY(R08, registration_histories, 3) {
    PlaneRegistration r; uint_t N = 0; std::map<uint_t, Pts> m; std::vector<D4> tr; uint_t declared = 0; auto setup = [&] { N = (uint_t)g.in_range(2, 5); declared = (uint_t)g.in_range(6, 8); r.set_number_planes_and_poses(declared, N); m.clear(); tr.assign(N, D4::Identity()); g.d() << "set " << declared << " planes " << N << " poses\n"; }; setup(); int steps = (int)g.in_range(1, (int)g.size + 4), q = 0, muts = 0; D31 nrm = gen::unit3(g); double lasterr = 0; bool solved = false; (void)lasterr;
    auto cur = [&] { std::vector<D4> T; for (uint_t t = 0; t < N; ++t) T.push_back(dT(r.get_trajectory(t))); return T; }; auto pt = [&] { D31 p = gen::vec3(g, 2); if (g.coin()) p -= nrm * (nrm.dot(p) - 0.7); return p; };
    for (int s = 0; s < steps; ++s) {
        switch (g.weighted({6, 4, 16, 4, 2, 8, 4, 4, 1, 4, 2})) {
        case 0: { uint_t id = (uint_t)g.raw(5); r.add_new_plane(id); if (!m.count(id)) m[id].resize(N); g.d() << "new plane " << id << "\n"; ++muts; break; }
        case 1: { uint_t id = (uint_t)g.raw(5); if (m.count(id)) break; std::shared_ptr<Plane> p(new Plane(N)); m[id].resize(N); int k = (int)g.in_range(0, 6); for (int i = 0; i < k; ++i) { uint_t t = (uint_t)g.raw(N - 1); D31 x = pt(); Mat31 y = x; p->push_back_point(y, t); m[id][t].push_back(x); } r.add_plane(id, p); g.d() << "plane " << id << " with " << k << " points\n"; ++muts; break; }
        case 2: { if (m.empty()) break; auto it = m.begin(); std::advance(it, g.raw(m.size() - 1)); int k = (int)g.in_range(1, 4); if (g.chance(1, 800)) k = (int)g.in_range(400, 1200); for (int i = 0; i < k; ++i) { uint_t t = (uint_t)g.raw(N - 1 + (g.chance(1, 8) ? 2 : 0)); D31 x = pt(); Mat31 y = x; r.plane_push_back_point(it->first, t, y); if (t < N) it->second[t].push_back(x); } g.d() << k << " points to " << it->first << "\n"; ++muts; break; }
        case 3: { ref::M4 L = ref::exp6(gen::twist_tame(g, 2.8, 3).cast<R>()); SE3 T(Mat4(rT(L))); D4 b = dT(T); r.set_last_pose(T); EXPECT_CLOSE("argument", dT(T), b, 0.0); tr[0] = D4::Identity(); tr = cur(); EXPECT_CLOSE("last pose set", dT(r.get_last_pose()), b, lnloss(b.cast<R>()) * 10); for (uint_t t = 1; t < N; ++t) EXPECT_CLOSE("interpolation set", tr[t], rT(interp(b.cast<R>(), t, N)), lnloss(b.cast<R>()) * 10); EXPECT_CLOSE("first pose", tr[0], D4(D4::Identity()), 0.0); g.d() << "set last pose\n"; ++muts; break; }
        case 4: { r.reset_solution(); tr.assign(N, D4::Identity()); g.d() << "reset solution\n"; ++muts; break; }
        case 5: { double e = r.get_current_error(); auto T = cur(); R w = 0; double mg = 1e-12; for (auto &p : m) { w += lmin(momentQ(p.second, T)); mg += qmag(p.second, T); } g.d() << "error\n"; EXPECT_NEAR_("error", e, w, 1e-13 * mg); ++q; break; }
        case 6: { uint_t t = (uint_t)g.raw(N - 1); auto pc = r.get_point_cloud(t); std::multiset<std::vector<double>> a, b; for (auto &x : pc) a.insert({x(0), x(1), x(2)}); for (auto &p : m) for (auto &x : p.second[t]) b.insert({x(0), x(1), x(2)}); EXPECT("point cloud", a == b); ++q; break; }
        case 7: { uint_t c = 0; for (auto &p : m) for (auto &v : p.second) c += v.size(); EXPECT("total points", r.calculate_total_number_points() == c); EXPECT("planes", r.get_number_planes() == declared); EXPECT("poses", r.get_number_poses() == N); EXPECT("planes held", r.get_all_planes().size() == m.size()); ++q; break; }
        case 8: { uint_t c = 0; for (auto &p : m) for (auto &v : p.second) c += v.size(); while (m.size() < 3) { uint_t id = 0; while (m.count(id)) ++id; r.add_new_plane(id); m[id].resize(N); } for (auto &p : m) for (uint_t t = 0; t < N; ++t) while (p.second[t].size() < 4) { D31 x = pt(); Mat31 y = x; r.plane_push_back_point(p.first, t, y); p.second[t].push_back(x); } c = 0; for (auto &p : m) for (auto &v : p.second) c += v.size(); double e0 = r.get_current_error(); r.solve(g.coin() ? PlaneRegistration::LM_SPHER : PlaneRegistration::LM_ELLIP); solved = true; tr = cur(); auto ev = r.print_evaluate(); EXPECT("evaluate counts", ev[0] == declared && ev[1] == N && ev[2] == c); EXPECT_NEAR_("evaluate initial error", ev[5], e0, 1e-12 * (1 + e0)); EXPECT_NEAR_("evaluate error", ev[6], r.get_current_error(), 1e-12 * (1 + e0)); g.d() << "solve\n"; break; }
        case 9: { std::vector<SE3> gt; uint_t extra = (uint_t)g.raw(3); extra = extra == 3 ? 2 : 0; bool self = g.chance(1, 3); R w = 0; auto T = cur(); for (uint_t t = 0; t < N + extra; ++t) { SE3 x = self && t < N ? r.get_trajectory(t) : SE3(gen::twist_tame(g, 1.3, 2)); gt.push_back(x); if (t < N) { ref::M4 rel = T[t].cast<R>() * ref::inv4(dT(x).cast<R>()); if ((double)ref::angle(rel.topLeftCorner<3, 3>()) > 3.0) { w = -1; break; } w += ref::log6(rel).squaredNorm(); } } if (w < 0 || gt.size() != N + extra) break; g.d() << "rmse against " << gt.size() << "\n"; double e = r.calculate_poses_rmse(gt); double far = 1; for (auto &x : T) far += x.topRightCorner<3, 1>().norm(); for (auto &x : T) g.d() << str(x) << "\n"; EXPECT_NEAR_("rmse", e, std::sqrt(w / N), 1e-9 * (1 + (double)w) + 1e-8 * (far - 1 > 50 ? far : 0)); ++q; break; }
        case 10: { if (g.chance(1, 2)) { setup(); ++muts; } break; }
        }
        auto T = cur(); for (uint_t t = 0; t < N; ++t) EXPECT_CLOSE("trajectory", T[t], tr[t], 0.0); EXPECT_CLOSE("get_last_pose", dT(r.get_last_pose()), tr[N - 1], 0.0);
    }
    g.nontrivial(muts > 2 && q > 0); g.label("solved", solved);
}
PROPERTY(R08, insertion_order, 1) {
    uint_t N = (uint_t)g.in_range(2, 4); int P = (int)g.in_range(1, 5); std::vector<std::tuple<uint_t, uint_t, D31>> pts; int n = (int)g.in_range(2, 40); for (int i = 0; i < n; ++i) { uint_t a = (uint_t)g.raw(P - 1), b = (uint_t)g.raw(N - 1); D31 x = gen::vec3(g, 2); pts.emplace_back(a, b, x); } SE3 last(gen::twist_tame(g, 2.5, 2)); std::vector<Pts> m(P, Pts(N)); for (auto &x : pts) m[std::get<0>(x)][std::get<1>(x)].push_back(std::get<2>(x));
    auto build = [&](bool shuffle, bool probe) { auto r = std::make_shared<PlaneRegistration>(); r->set_number_planes_and_poses(P, N); std::vector<int> ord(P); for (int i = 0; i < P; ++i) ord[i] = i; auto ps = pts; if (shuffle) { for (int i = P - 1; i > 0; --i) std::swap(ord[i], ord[g.raw(i)]); for (int i = n - 1; i > 0; --i) std::swap(ps[i], ps[g.raw(i)]); } for (int i : ord) r->add_new_plane(i); if (!probe) r->set_last_pose(last); for (auto &x : ps) { Mat31 y = std::get<2>(x); r->plane_push_back_point(std::get<0>(x), std::get<1>(x), y); if (probe && g.chance(1, 6)) r->get_current_error(); } r->set_last_pose(last); return r; };
    auto a = build(false, false), b = build(true, true); std::vector<D4> T; for (uint_t t = 0; t < N; ++t) T.push_back(dT(a->get_trajectory(t))); double mg = 0; R w = 0; for (auto &p : m) { mg += qmag(p, T); w += lmin(momentQ(p, T)); } g.nontrivial(n > 4 && P > 1); EXPECT_NEAR_("error", a->get_current_error(), w, 1e-13 * mg); EXPECT_NEAR_("error after another insertion order", b->get_current_error(), w, 1e-13 * mg); EXPECT("total", b->calculate_total_number_points() == (uint_t)n);
}
#endif
#if VP(R09)
// the library seeds its generators from the clock: make the clock an input, so that every case is reproducible
static uint64_t fake_clock = 1;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)(++fake_clock * 0x9E3779B97F4A7C15ULL >> 1))); } } } }
#ifdef VP_ASAN
static const double NONOISE = 1e-30; // libstdc++'s checked distributions want a positive deviation
#else
static const double NONOISE = 0.0;
#endif
PROPERTY(R09, scenes, 3) {
    fake_clock = g.raw(1ULL << 40); uint_t n = (uint_t)g.in_range(1, (int)g.size * 4), P = (uint_t)g.in_range(1, 9), N = (uint_t)g.in_range(1, 6); double sd = g.weighted({2, 1}) == 0 ? NONOISE : g.pick({1e-3, 0.05}), bias = g.coin() ? NONOISE : g.pick({0.1, 2.0}); bool exact = sd == NONOISE; g.d() << n << " points " << P << " planes " << N << " poses noise " << num(sd) << " bias " << num(bias) << "\n"; g.label("exact", exact); g.label("single pose", N == 1); g.label("more planes than points", P > n); g.nontrivial(n > 1 && N > 1);
    CreatePoints c(n, P, N, sd, bias); EXPECT("planes", c.get_number_planes() == P); EXPECT("poses", c.get_number_poses() == N); auto &gt = c.get_ground_truth_trajectory(); auto &pp = c.get_plane_poses(); auto &pl = c.get_all_planes(); EXPECT("trajectory length", gt.size() == N); EXPECT("plane poses", pp.size() == P); EXPECT("plane structures", pl.size() == P);
    EXPECT_CLOSE("starts at the identity", dT(gt[0]), D4(D4::Identity()), 1e-15); ref::M4 last = dT(c.get_ground_truth_last_pose()).cast<R>(); double tol = 1e-9; if (N > 1) EXPECT("the final pose is sampled, not the initial one", (rT(last) - D4::Identity()).cwiseAbs().maxCoeff() > 1e-6);
    for (uint_t t = 0; t < N; ++t) { EXPECT("rigid", proper(dT(gt[t]), 1e-12)); EXPECT_CLOSE("pose by index", dT(c.get_ground_truth_pose(t)), dT(gt[t]), 1e-14); if (N > 1 && (double)ref::angle(last.topLeftCorner<3, 3>()) < 3.1) { ref::V6 x = ref::log6(last) * ((R)t / (R)(N - 1)); EXPECT_CLOSE("interpolated", dT(gt[t]), rT(ref::exp6(x)), tol); } }
    uint_t used = 0; for (uint_t i = 0; i < P; ++i) { EXPECT("plane id", pl[i].first == i); EXPECT("plane pose rigid", proper(dT(pp[i]), 1e-12)); }
    std::vector<uint_t> perplane(P, 0);
    for (uint_t t = 0; t < N; ++t) { auto &X = c.get_point_cloud(t); auto &id = c.get_point_plane_ids(t); EXPECT("points", X.size() == n); EXPECT("labels", id.size() == n); std::vector<std::vector<Mat31>> by(P); D31 bmean = D31::Zero(); (void)bmean; double xlo = 1e9, xhi = -1e9, ylo = 1e9, yhi = -1e9;
        for (uint_t i = 0; i < n; ++i) { EXPECT("label exists", id[i] < P); by[id[i]].push_back(X[i]); ref::M4 T = dT(gt[t]).cast<R>(), Q = ref::inv4(dT(pp[id[i]]).cast<R>()); ref::V3 w = T.topLeftCorner<3, 3>() * D31(X[i]).cast<R>() + T.topRightCorner<3, 1>(); w = (Q.topLeftCorner<3, 3>() * w + Q.topRightCorner<3, 1>()).eval(); if (exact) EXPECT_NEAR_("on its plane", w(2), 0, 1e-12 * (10 + 10 * bias)); else EXPECT_NEAR_("near its plane", w(2), 0, 8 * sd); xlo = std::min(xlo, (double)w(0)); xhi = std::max(xhi, (double)w(0)); ylo = std::min(ylo, (double)w(1)); yhi = std::max(yhi, (double)w(1)); }
        EXPECT("patch extent", xhi - xlo <= 2 + 1e-9 && yhi - ylo <= 2 + 1e-9); if (bias == NONOISE) EXPECT("patch centred", xhi <= 1 + 1e-9 && xlo >= -1 - 1e-9 && yhi <= 1 + 1e-9 && ylo >= -1 - 1e-9);
        for (uint_t i = 0; i < P; ++i) { auto &v = pl[i].second->get_points(t); EXPECT("plane bookkeeping", v.size() == by[i].size() && pl[i].second->get_number_points(t) == by[i].size()); for (size_t k = 0; k < v.size(); ++k) EXPECT("plane points", v[k] == by[i][k]); perplane[i] = by[i].size(); used += by[i].size(); } }
    EXPECT("each point once", used == n * N);
    if (N < 2) return; PlaneRegistration r; int reps = (int)g.in_range(1, 2); for (int k = 0; k < reps; ++k) c.create_plane_registration(r);
    EXPECT("filled planes", r.get_number_planes() == P && r.get_all_planes().size() == P); EXPECT("filled poses", r.get_number_poses() == N); EXPECT("filled points", r.calculate_total_number_points() == n * N); for (uint_t t = 0; t < N; ++t) { EXPECT_CLOSE("fresh trajectory", dT(r.get_trajectory(t)), D4(D4::Identity()), 0.0); EXPECT("filled cloud", r.get_point_cloud(t).size() == n); }
    SE3 L = c.get_ground_truth_last_pose(); r.set_last_pose(L); if ((double)ref::angle(last.topLeftCorner<3, 3>()) > 3.1) return; std::vector<SE3> g2 = gt; EXPECT_NEAR_("rmse against the truth", r.calculate_poses_rmse(g2), 0, 1e-8); if (exact) EXPECT_NEAR_("error at the truth", r.get_current_error(), 0, 1e-12 * (double)n * N * 200 * (1 + bias * bias * 20));
}
// more points than a float can count: one case per run
PROPERTY(R09, huge_scene, 1e-9) {
    fake_clock = g.raw(1ULL << 40); uint_t n = 16777216u + 4 * (uint_t)g.in_range(1, 250000), P = (uint_t)g.in_range(1, 3); g.d() << n << " points " << P << " planes\n"; g.nontrivial();
    CreatePoints c(n, P, 1, NONOISE, NONOISE); auto &id = c.get_point_plane_ids(0); auto &X = c.get_point_cloud(0); EXPECT("points", X.size() == n && id.size() == n); std::vector<uint_t> per(P, 0); for (uint_t i = 0; i < n; ++i) { EXPECT("label exists", id[i] < P); ++per[id[i]]; }
    for (uint_t i = 0; i < P; ++i) { EXPECT("plane bookkeeping", c.get_all_planes()[i].second->get_number_points(0) == per[i] && per[i] > 0); }
    for (uint_t i = n - 1000; i < n; ++i) { ref::M4 Q = ref::inv4(dT(c.get_plane_poses()[id[i]]).cast<R>()); ref::V3 w = Q.topLeftCorner<3, 3>() * D31(X[i]).cast<R>() + Q.topRightCorner<3, 1>(); EXPECT_NEAR_("on its plane", w(2), 0, 1e-11); }
}
PROPERTY(R09, samplers, 1) {
    fake_clock = g.raw(1ULL << 40); double Rr = g.logmag(1e-3, 1.7), t = g.logmag(1e-3, 100); bool two = g.coin(); double r0 = -Rr, t0 = -t; if (two) { r0 = Rr * g.real(-1, 0.9); t0 = t * g.real(-1, 0.9); } g.d() << r0 << " " << Rr << " " << t0 << " " << t << "\n"; auto s = two ? SampleUniformSE3(r0, Rr, t0, t) : SampleUniformSE3(Rr, t); g.nontrivial(); int k = (int)g.in_range(1, 8); std::set<double> seen;
    for (int i = 0; i < k; ++i) { D31 p = s.samplePosition(); for (int j = 0; j < 3; ++j) { EXPECT("position range", p(j) >= t0 - 1e-12 && p(j) <= t + 1e-12); seen.insert(p(j)); } ref::V3 w = ref::log3(D3(s.sampleOrientation().R()).cast<R>()); for (int j = 0; j < 3; ++j) if (Rr * 1.74 < 3.1) EXPECT("orientation range", (double)w(j) >= r0 - 1e-9 && (double)w(j) <= Rr + 1e-9); D4 T = dT(s.samplePose()); EXPECT("pose", proper(T, 1e-12)); if (Rr * 1.74 < 3.1) { ref::V6 x = ref::log6(T.cast<R>()); for (int j = 0; j < 3; ++j) { EXPECT("pose rotation range", (double)x(j) >= r0 - 1e-9 && (double)x(j) <= Rr + 1e-9); EXPECT("pose translation range", (double)x(3 + j) >= t0 - 1e-8 * t && (double)x(3 + j) <= t + 1e-8 * t); } } }
    EXPECT("samples vary", k < 2 || seen.size() > 3);
}
#endif
PBT_MAIN
