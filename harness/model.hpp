// Reference model of the factor graph: variables, measurements, problems, written
// from the documented definitions and evaluated in long double, plus generators of
// random well-posed graphs and the code that hands such a problem to the library.
#pragma once
#include "ref.hpp"
#include <memory>
#include <numeric>
#include "mrob/SE3.hpp"
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor1Pose3d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"

namespace model {
using namespace ref;
using pbt::Case;
using mrob::Node; using mrob::Factor; using mrob::SE3; using mrob::FGraphSolve; using mrob::FGraphSolveDense;
using mrob::Mat1; using mrob::Mat2; using mrob::Mat3; using mrob::Mat4; using mrob::Mat6; using mrob::Mat21; using mrob::Mat31; using mrob::Mat41; using mrob::Mat61;
using mrob::MatX1; using mrob::factor_id_t;
typedef Eigen::MatrixXd DX; typedef Eigen::VectorXd Dv;
typedef std::shared_ptr<Node> NP; typedef std::shared_ptr<Factor> FP;

enum NK { P2, P3, L2, L3, PL };
static const char *NKN[] = {"Pose2d", "Pose3d", "Landmark2d", "Landmark3d", "Plane4d"};
static const int NDIM[] = {3, 6, 2, 3, 4};
enum FK { F1P2, F2P2, FODO, FL2, F1P3, F2P3, FL3, FPL, FPP };
static const char *FKN[] = {"1Pose2d", "2Poses2d", "2Poses2dOdom", "Landmark2d", "1Pose3d", "2Poses3d", "Landmark3d", "Plane4d", "Point2Plane"};
static const int FDIM[] = {3, 3, 3, 2, 6, 6, 3, 4, 1};
static const bool FUN[] = {1, 0, 0, 0, 1, 0, 0, 0, 1};       // unary?
static const NK FA[] = {P2, P2, P2, P2, P3, P3, P3, P3, P3};   // first variable
static const NK FB[] = {P2, P2, P2, L2, P3, P3, L3, PL, P3};   // second variable

// ---------------------------------------------------------------- states
struct St {
    NK k = P2; VX v; M4 T = M4::Identity();
    static St vec(NK k, const VX &v) { St s; s.k = k; s.v = v; return s; }
    static St pose(const M4 &T) { St s; s.k = P3; s.T = T; return s; }
};
inline DX mat(const St &s) { if (s.k == P3) return s.T.cast<double>(); return s.v.cast<double>(); }
inline St from(NK k, const DX &m) {
    St s; s.k = k;
    if (k == P3) s.T = m.cast<R>(); else s.v = m.col(0).cast<R>();
    return s;
}
inline void norm3(VX &v) { R n = std::sqrt(v(0) * v(0) + v(1) * v(1) + v(2) * v(2)); v(0) /= n; v(1) /= n; v(2) /= n; }
// what a constructor or set_state stores
inline St canon(St s) { if (s.k == P2) s.v(2) = wrap(s.v(2)); if (s.k == PL) norm3(s.v); return s; }
// the variable's own update rule
inline St upd(const St &a, const VX &dx) {
    St s = a;
    if (a.k == P3) { V6 x = dx; s.T = exp6(x) * a.T; return s; }
    s.v = a.v + dx; return canon(s);
}
// largest entry difference between a library state and a reference state (heading modulo a turn)
inline double sdiff(const St &a, const DX &m) {
    if (a.k == P3) return maxdiff(a.T, m);
    if (m.rows() != a.v.size() || m.cols() != 1) return INFINITY;
    double d = 0;
    for (int i = 0; i < a.v.size(); ++i) {
        if (!(m(i, 0) == m(i, 0))) return INFINITY;
        double e = a.k == P2 && i == 2 ? (double)angdist(a.v(i), m(i, 0)) : (double)std::fabs(a.v(i) - m(i, 0)); d = std::max(d, e);
    }
    return d;
}
inline double smag(const St &a) { return a.k == P3 ? (double)a.T.cwiseAbs().maxCoeff() : (double)a.v.cwiseAbs().maxCoeff(); }

// ---------------------------------------------------------------- measurements
struct Fac {
    FK k = F1P2; int a = 0, b = -1;   // a: pose / origin, b: target / landmark / plane
    Dv obs; Mat4 T = Mat4::Identity();// vector observation, or a 3D pose
    DX W; int robust = 0; bool init = false; bool se3ctor = false;
};
inline V3 h3(const VX &v) { return V3(v(0), v(1), v(2)); }
inline V3 act(const M4 &T, const V3 &p) { V3 q = T.topLeftCorner<3, 3>() * p; return q + V3(T.topRightCorner<3, 1>()); }
// predicted minus observed; the caller handles sign conventions of reversed pairs
inline VX residual(const Fac &f, const St &a, const St &b) {
    VX o = f.obs.cast<R>(), r;
    switch (f.k) {
    case F1P2: r = a.v - o; r(2) = wrap(r(2)); return r;
    case F2P2: { R c = std::cos(a.v(2)), s = std::sin(a.v(2)); VX d = b.v - a.v; r.resize(3); r << c * d(0) + s * d(1) - o(0), -s * d(0) + c * d(1) - o(1), wrap(d(2) - o(2)); return r; }
    case FODO: { r.resize(3); R th = a.v(2) + o(0); r << a.v(0) + o(1) * std::cos(th) - b.v(0), a.v(1) + o(1) * std::sin(th) - b.v(1), wrap(th + o(2) - b.v(2)); return r; }
    case FL2: { R dx = b.v(0) - a.v(0), dy = b.v(1) - a.v(1); r.resize(2); r << std::sqrt(dx * dx + dy * dy) - o(0), wrap(std::atan2(dy, dx) - a.v(2) - o(1)); return r; }
    case F1P3: { M4 Tm = a.T * inv4(f.T.cast<R>()); return log6(Tm); }
    case F2P3: { M4 Tm = a.T * f.T.cast<R>() * inv4(b.T); return log6(Tm); }
    case FL3: return act(inv4(a.T), h3(b.v)) - h3(o);
    case FPL: { norm3(o); VX p = a.T.transpose() * V4(b.v); r = p(3) < 0 ? VX(p + o) : VX(p - o); return r; }
    case FPP: { V3 x = h3(o), y(o(3), o(4), o(5)), n(o(6), o(7), o(8)); r.resize(1); r(0) = n.dot(act(a.T, x) - y); return r; }
    }
    return r;
}
inline NP make_node(const St &s, bool anchor) {
    auto m = anchor ? Node::nodeMode::ANCHOR : Node::nodeMode::STANDARD; DX x = mat(s);
    switch (s.k) {
    case P2: return std::make_shared<mrob::NodePose2d>(Mat31(x), m);
    case P3: return std::make_shared<mrob::NodePose3d>(Mat4(x), m);
    case L2: return std::make_shared<mrob::NodeLandmark2d>(Mat21(x), m);
    case L3: return std::make_shared<mrob::NodeLandmark3d>(Mat31(x), m);
    default: return std::make_shared<mrob::NodePlane4d>(Mat41(x), m);
    }
}
inline FP make_factor(const Fac &f, NP a, NP b) {
    auto rb = (Factor::robustFactorType)f.robust;
    switch (f.k) {
    case F1P2: return std::make_shared<mrob::Factor1Pose2d>(Mat31(f.obs), a, Mat3(f.W), rb);
    case F2P2: return std::make_shared<mrob::Factor2Poses2d>(Mat31(f.obs), a, b, Mat3(f.W), f.init, rb);
    case FODO: return std::make_shared<mrob::Factor2Poses2dOdom>(Mat31(f.obs), a, b, Mat3(f.W), f.init, rb);
    case FL2: return std::make_shared<mrob::Factor1Pose1Landmark2d>(Mat21(f.obs), a, b, Mat2(f.W), f.init, rb);
    case F1P3: if (f.se3ctor) return std::make_shared<mrob::Factor1Pose3d>(SE3(f.T), a, Mat6(f.W), rb);
        return std::make_shared<mrob::Factor1Pose3d>(f.T, a, Mat6(f.W), rb);
    case F2P3: if (f.se3ctor) return std::make_shared<mrob::Factor2Poses3d>(SE3(f.T), a, b, Mat6(f.W), f.init, rb);
        return std::make_shared<mrob::Factor2Poses3d>(f.T, a, b, Mat6(f.W), f.init, rb);
    case FL3: return std::make_shared<mrob::Factor1Pose1Landmark3d>(Mat31(f.obs), a, b, Mat3(f.W), f.init, rb);
    case FPL: return std::make_shared<mrob::Factor1Pose1Plane4d>(Mat41(f.obs), a, b, mrob::Mat4(f.W), rb);
    default: return std::make_shared<mrob::Factor1PosePoint2Plane>(Mat31(f.obs.head(3)), Mat31(f.obs.segment(3, 3)), Mat31(f.obs.segment(6, 3)), a, Mat1(f.W), rb);
    }
}
// reference robust weight
inline R weight(int robust, R u) {
    switch (robust) { case 1: return u < 1 ? 1 : 1 / u; case 2: return 1 / (1 + u * u); case 3: return 1 / ((1 + u * u) * (1 + u * u)); default: return 1; }
}

// ---------------------------------------------------------------- generators of states and measurements
inline double heading(Case &g) {
    switch (g.weighted({5, 2, 2})) {
    default: return g.sym(M_PI - 1e-9);
    case 1: { double e = g.logmag(1e-12, 0.2); return g.coin() ? M_PI - e : -M_PI + e; }
    case 2: return g.pick({0.0, M_PI / 2, -M_PI / 2, -M_PI, M_PI / 4, 1.0});
    }
}
inline M4 pose3(Case &g, double t, double maxang = 3.14) { V6 x; x.head<3>() = gen::rotvec_tame(g, maxang).cast<R>(); x.tail<3>().setZero(); M4 T = exp6(x); T.topRightCorner<3, 1>() = gen::vec3(g, t).cast<R>(); return T; }
// rounded to double, so that library and model start from the same numbers
inline M4 rnd(const M4 &T) { return T.cast<double>().cast<R>(); }
inline VX rnd(const VX &v) { return v.cast<double>().cast<R>(); }
inline St rnd(const St &s) { St r = s; if (s.k == P3) r.T = rnd(s.T); else r.v = rnd(s.v); return r; }
inline St gen_state(Case &g, NK k, double t = 5) {
    VX v;
    switch (k) {
    case P2: { v.resize(3); double x = g.sym(t), y = g.sym(t), h = heading(g); v << x, y, h; return rnd(St::vec(P2, v)); }
    case P3: return rnd(St::pose(pose3(g, t)));
    case L2: { double x = g.sym(t), y = g.sym(t); v.resize(2); v << x, y; return rnd(St::vec(L2, v)); }
    case L3: v = gen::vec3(g, t).cast<R>(); return rnd(St::vec(L3, v));
    default: { v.resize(4); V3 n = gen::unit3(g).cast<R>(); double d = g.sym(t); v << n(0), n(1), n(2), (R)d; return rnd(St::vec(PL, v)); }
    }
}
inline VX gen_dx(Case &g, NK k, double s) { VX v(NDIM[k]); for (int i = 0; i < v.size(); ++i) v(i) = g.sym(s); return rnd(v); }
inline DX gen_W(Case &g, FK k) {
    switch (FDIM[k]) { case 1: return DX::Constant(1, 1, g.logmag(0.05, 50)); case 2: return gen::info<2>(g); case 3: return gen::info<3>(g); case 4: return gen::info<4>(g); default: return gen::info<6>(g); }
}
// observation that the states a, b reproduce up to a perturbation of size `noise`
inline void observe(Case &g, Fac &f, const St &a, const St &b, double noise) {
    auto nz = [&](int n) { VX e(n); for (int i = 0; i < n; ++i) e(i) = noise > 0 ? g.sym(noise) : 0; return e; };
    VX o;
    switch (f.k) {
    case F1P2: o = a.v + nz(3); break;
    case F2P2: { R c = std::cos(a.v(2)), s = std::sin(a.v(2)); VX d = b.v - a.v; o.resize(3); o << c * d(0) + s * d(1), -s * d(0) + c * d(1), wrap(d(2)); o += nz(3); break; }
    case FODO: { o.resize(3); R dx = b.v(0) - a.v(0), dy = b.v(1) - a.v(1); R h = std::atan2(dy, dx); o << wrap(h - a.v(2)), std::sqrt(dx * dx + dy * dy), wrap(b.v(2) - h); o += nz(3); break; }
    case FL2: { o.resize(2); R dx = b.v(0) - a.v(0), dy = b.v(1) - a.v(1); o << std::sqrt(dx * dx + dy * dy), wrap(std::atan2(dy, dx) - a.v(2)); o += nz(2); if (o(0) < 0) o(0) = -o(0); break; }
    case F1P3: { V6 e = nz(6); f.T = (exp6(e) * a.T).cast<double>(); return; }
    case F2P3: { V6 e = nz(6); f.T = (inv4(a.T) * exp6(e) * b.T).cast<double>(); return; }
    case FL3: o = act(inv4(a.T), h3(b.v)) + V3(nz(3)); break;
    case FPL: { VX p = a.T.transpose() * V4(b.v); o = p(3) < 0 ? VX(-p) : p; o += nz(4); norm3(o); if (o(3) < 0) o = -o; break; }
    case FPP: { VX x = gen::vec3(g, 5).cast<R>(), n = gen::unit3(g).cast<R>(), y = act(a.T, h3(x)), e = gen::vec3(g, 3).cast<R>(); // y anywhere on the plane through Tx
        VX t = e - n * (n.dot(e)); y += t + nz(3); o.resize(9); o << x, y, n; break; }
    }
    f.obs = o.cast<double>();
}
inline std::string show(const St &s) { return std::string(NKN[s.k]) + " " + str(mat(s)); }
inline std::string show(const Fac &f) {
    std::string o = std::string(FKN[f.k]) + "(" + std::to_string(f.a) + (f.b >= 0 ? "," + std::to_string(f.b) : "") + ") obs ";
    o += f.k == F1P3 || f.k == F2P3 ? str(f.T) : str(f.obs);
    return o + " W " + str(f.W) + (f.robust ? " robust " + std::to_string(f.robust) : "");
}

// ---------------------------------------------------------------- problems
struct Var { St truth, init; bool anchor = false; };
struct Problem {
    std::vector<Var> v; std::vector<Fac> f;
    std::string show() const {
        std::string o;
        for (size_t i = 0; i < v.size(); ++i) o += "v" + std::to_string(i) + (v[i].anchor ? " anchor " : " ") + model::show(v[i].init) + "\n";
        for (size_t i = 0; i < f.size(); ++i) o += "f" + std::to_string(i) + " " + model::show(f[i]) + "\n";
        return o;
    }
};
struct Opts {
    int maxposes = 5, maxland = 3; double noise = 0.1, init = 0.1, extent = 5, prior_noise = -1; bool robust = true, planes = true, p2p = true, odom = true, anchors = true, mixed = true;
    int world = -1; bool fullinfo = true; double minrange = 0.5; bool unary3 = true, rel3 = true;
    int big = 0; // one case in this many is an order of magnitude larger
};
// random well-posed problem: every component tied to an anchor or an absolute measurement by
// fully informative measurements, plus loops and partial measurements on top.
// Variables are listed in a random creation order.
inline Problem gen_problem(Case &g, const Opts &o) {
    Problem p;
    int world = o.world >= 0 ? o.world : (int)g.weighted({3, 3, o.mixed ? 2 : 0}); // 0: 2D, 1: 3D, 2: both in one graph
    auto scaleW = [&](FK k) { return gen_W(g, k); };
    struct Idx { std::vector<int> poses, land, planes; } W[2];
    bool big = o.big > 0 && g.chance(1, o.big); if (big) g.label("large graph");
    for (int w = 0; w < 2; ++w) {
        if (world != 2 && world != w) continue;
        int np = (int)g.in_range(1, std::max(1, std::min<int>(o.maxposes, 1 + (int)g.size / 6))), nl = (int)g.in_range(0, std::min<int>(o.maxland, (int)g.size / 4)), npl = w && o.planes ? (int)g.in_range(0, std::min<int>(o.maxland, (int)g.size / 6)) : 0;
        if (big) { np = (int)g.in_range(9, w ? 16 : 30); nl = (int)g.in_range(0, 16); if (w && o.planes) npl = (int)g.in_range(0, 8); }
        auto add = [&](NK k, std::vector<int> &list) { Var v; v.truth = canon(gen_state(g, k, o.extent)); v.truth = rnd(v.truth); list.push_back((int)p.v.size()); p.v.push_back(v); };
        for (int i = 0; i < np; ++i) add(w ? P3 : P2, W[w].poses);
        for (int i = 0; i < nl; ++i) add(w ? L3 : L2, W[w].land);
        for (int i = 0; i < npl; ++i) add(PL, W[w].planes);
    }
    // random creation order
    std::vector<int> perm(p.v.size()); std::iota(perm.begin(), perm.end(), 0);
    if (g.chance(3, 4)) for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[g.raw(i - 1)]);
    { std::vector<Var> q(p.v.size()); for (size_t i = 0; i < perm.size(); ++i) q[perm[i]] = p.v[i]; p.v = q;
      for (auto &w : W) for (auto *l : {&w.poses, &w.land, &w.planes}) for (int &i : *l) i = perm[i]; }
    auto range_ok = [&](int a, int b) { // 2D range-bearing and odometry are singular at coincident positions
        return std::hypot((double)(p.v[a].truth.v(0) - p.v[b].truth.v(0)), (double)(p.v[a].truth.v(1) - p.v[b].truth.v(1))) >= o.minrange; };
    auto addf = [&](FK k, int a, int b, double noise) {
        if (k == FL2 && !range_ok(a, b)) return false;
        if (k == FODO && (!range_ok(a, b) || a > b)) k = F2P2;
        if (k == FPL) { VX q = p.v[a].truth.T.transpose() * V4(p.v[b].truth.v); if (std::fabs((double)q(3)) < 0.5) return false; }
        Fac f; f.k = k; f.a = a; f.b = b; f.W = scaleW(k); if (o.robust) f.robust = (int)g.weighted({4, 1, 1, 1}); f.se3ctor = (k == F1P3 || k == F2P3) && g.coin();
        observe(g, f, p.v[a].truth, b >= 0 ? p.v[b].truth : p.v[a].truth, noise); p.f.push_back(f); return true;
    };
    double pn = o.prior_noise >= 0 ? o.prior_noise : o.noise;
    for (int w = 0; w < 2; ++w) {
        auto &I = W[w]; if (I.poses.empty()) continue;
        // first pose: anchored or measured absolutely
        int n = (int)I.poses.size();
        bool anch = o.anchors && g.chance(1, 2) && !(n == 1 && I.land.empty() && I.planes.empty());
        if (w && !o.unary3 && !(n == 1 && I.land.empty() && I.planes.empty())) anch = true;
        if (anch) p.v[I.poses[0]].anchor = true; else addf(w ? F1P3 : F1P2, I.poses[0], -1, pn);
        for (int i = 1; i < n; ++i) { // spanning tree
            int j = (int)g.raw(i - 1), a = I.poses[j], b = I.poses[i]; if (g.coin()) std::swap(a, b);
            if (w && !o.rel3) { addf(F1P3, I.poses[i], -1, pn); continue; }
            addf(w ? F2P3 : (o.odom && g.chance(1, 3) ? FODO : F2P2), a, b, o.noise);
        }
        for (int l : I.land) { int a = I.poses[g.raw(n - 1)];
            if (!addf(w ? FL3 : FL2, a, l, o.noise)) { // too close: move the landmark out to a good range
                VX d(2); d << 1 + o.minrange, 0.7; p.v[l].truth.v = rnd(VX(p.v[a].truth.v.head(2) + d)); addf(FL2, a, l, o.noise); } }
        for (int l : I.planes) { int a = I.poses[g.raw(n - 1)];
            if (!addf(FPL, a, l, o.noise)) { V4 q = p.v[l].truth.v; V3 t = p.v[a].truth.T.topRightCorner<3, 1>(); q(3) = 1.5 - q.head<3>().dot(t); p.v[l].truth.v = rnd(VX(q)); addf(FPL, a, l, o.noise); } }
        // extra measurements: loops, parallel edges, partial ones
        int ex = (int)g.in_range(0, big ? 60 : (int)g.size / 4);
        for (int e = 0; e < ex; ++e) {
            int a = I.poses[g.raw(n - 1)], b = I.poses[g.raw(n - 1)];
            switch (g.weighted({4, 2, 4, 3, 3})) {
            case 0: if (a != b && (!w || o.rel3)) addf(w ? F2P3 : (o.odom && g.chance(1, 3) ? FODO : F2P2), a, b, o.noise); break;
            case 1: if (!w || o.unary3) addf(w ? F1P3 : F1P2, a, -1, pn); break;
            case 2: if (!I.land.empty()) addf(w ? FL3 : FL2, a, I.land[g.raw(I.land.size() - 1)], o.noise); break;
            case 3: if (!I.planes.empty()) addf(FPL, a, I.planes[g.raw(I.planes.size() - 1)], o.noise); break;
            case 4: if (w && o.p2p) addf(FPP, a, -1, o.noise); break;
            }
        }
        // further anchors anywhere
        if (o.anchors) for (auto *l : {&I.poses, &I.land, &I.planes}) for (int i : *l) if (g.chance(1, 8)) p.v[i].anchor = true;
    }
    // random measurement order
    if (g.chance(3, 4)) for (size_t i = p.f.size(); i > 1; --i) std::swap(p.f[i - 1], p.f[g.raw(i - 1)]);
    for (auto &v : p.v) v.init = v.anchor || o.init <= 0 ? v.truth : rnd(upd(v.truth, gen_dx(g, v.truth.k, o.init)));
    bool anyfree = false; for (auto &v : p.v) anyfree = anyfree || !v.anchor;
    if (!anyfree) p.v.back().anchor = false;
    if (p.f.empty()) { int i = 0; while (p.v[i].truth.k != P2 && p.v[i].truth.k != P3) ++i; addf(p.v[i].truth.k == P2 ? F1P2 : F1P3, i, -1, pn); }
    return p;
}

// ---------------------------------------------------------------- handing a problem to the library
template <class G> struct Built { std::shared_ptr<G> g; std::vector<NP> n; std::vector<FP> f; };
template <class G> Built<G> build(const Problem &p) {
    Built<G> B; B.g = std::make_shared<G>();
    for (auto &v : p.v) { NP n = make_node(v.init, v.anchor); B.g->add_node(n); B.n.push_back(n); }
    for (auto &f : p.f) { FP q = make_factor(f, B.n[f.a], f.b >= 0 ? B.n[f.b] : NP()); B.g->add_factor(q); B.f.push_back(q); }
    return B;
}
template <class G> std::vector<DX> states(const Built<G> &B) { std::vector<DX> s; for (auto &n : B.n) s.push_back(n->get_state()); return s; }
template <class G> void restore(const Built<G> &B, const std::vector<DX> &s) { for (size_t i = 0; i < s.size(); ++i) B.n[i]->set_state(s[i]); }

// dense linearisation of the whole graph from what the measurements report at the current state
struct Lin { MX A, W; VX r; std::vector<int> col; MX L; VX b; double cost; };
template <class G> Lin linearise(const Problem &p, const Built<G> &B) {
    Lin s; int N = 0, M = 0; s.col.resize(B.n.size());
    for (size_t i = 0; i < B.n.size(); ++i) { s.col[i] = N; if (!p.v[i].anchor) N += NDIM[p.v[i].truth.k]; }
    for (size_t i = 0; i < B.f.size(); ++i) M += FDIM[p.f[i].k];
    s.A = MX::Zero(M, N); s.W = MX::Zero(M, M); s.r = VX::Zero(M); s.cost = 0;
    int row = 0;
    for (size_t i = 0; i < B.f.size(); ++i) {
        FP f = B.f[i]; f->evaluate_residuals(); f->evaluate_jacobians(); f->evaluate_chi2();
        int d = FDIM[p.f[i].k]; VX r = Dv(f->get_residual()).cast<R>(); MX J = DX(f->get_jacobian()).cast<R>(); MX W = p.f[i].W.cast<R>();
        R q = r.dot(W * r), w = weight(p.f[i].robust, std::sqrt(q)); s.cost += (double)(q / 2);
        s.r.segment(row, d) = r; s.W.block(row, row, d, d) = w * W;
        std::vector<int> ids = {p.f[i].a}; if (p.f[i].b >= 0) ids.push_back(p.f[i].b);
        std::sort(ids.begin(), ids.end());
        int c = 0;
        for (int id : ids) { int nd = NDIM[p.v[id].truth.k]; if (!p.v[id].anchor) s.A.block(row, s.col[id], d, nd) = J.block(0, c, d, nd); c += nd; }
        row += d;
    }
    s.L = s.A.transpose() * s.W * s.A; s.b = s.A.transpose() * s.W * s.r;
    return s;
}
inline double cond(const MX &L) {
    if (L.rows() == 0) return INFINITY;
    DX Ld = L.cast<double>();
    Eigen::SelfAdjointEigenSolver<DX> es(Ld, Eigen::EigenvaluesOnly);
    double lo = es.eigenvalues()(0), hi = es.eigenvalues()(Ld.rows() - 1); return lo > 0 ? hi / lo : INFINITY;
}
inline double cost_ref(const Problem &p, const std::vector<St> &s) {
    R c = 0; for (auto &f : p.f) { VX r = residual(f, s[f.a], f.b >= 0 ? s[f.b] : s[f.a]); c += r.dot(f.W.cast<R>() * r) / 2; } return (double)c;
}
// largest difference between the states of the graph and the model states
template <class G> double gdiff(const Built<G> &B, const std::vector<St> &s) { double d = 0; for (size_t i = 0; i < s.size(); ++i) d = std::max(d, sdiff(s[i], DX(B.n[i]->get_state()))); return d; }
inline std::vector<St> as_states(const Problem &p, const std::vector<DX> &m) { std::vector<St> s; for (size_t i = 0; i < m.size(); ++i) s.push_back(from(p.v[i].truth.k, m[i])); return s; }
} // namespace model
