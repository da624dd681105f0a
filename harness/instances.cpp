// S05: independent instances, interleavings, threads, reproducibility.
#include "model.hpp"
#include <thread>
#include <atomic>
#include "mrob/SE3cov.hpp"
#include "mrob/SO3.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/plane.hpp"
#include "mrob/plane_registration.hpp"
using namespace model;
using mrob::Plane; using mrob::PlaneRegistration; using mrob::SO3; using mrob::SE3Cov;

// what an instance did, bit for bit
struct Trace {
    std::vector<uint64_t> v; std::vector<std::string> at;
    void put(const std::string &what, uint64_t x) { v.push_back(x); at.push_back(what); }
    void put(const std::string &what, double x) { uint64_t u; memcpy(&u, &x, 8); put(what, u); }
    template <class D> void mat(const std::string &what, const Eigen::MatrixBase<D> &m_) { auto m = m_.eval(); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) put(what, (double)m(i, j)); }
};
static std::string diff(const Trace &a, const Trace &b) {
    for (size_t i = 0; i < std::min(a.v.size(), b.v.size()); ++i) if (a.v[i] != b.v[i]) { double x, y; memcpy(&x, &a.v[i], 8); memcpy(&y, &b.v[i], 8); return a.at[i] + ": " + num(x) + " alone, " + num(y) + " here"; }
    return a.v.size() == b.v.size() ? "" : "different number of results";
}
// an instance of the library and the sequence of calls made on it
struct Actor { virtual ~Actor() {} virtual bool step(Trace &) = 0; };
struct Script { std::string name; std::function<std::unique_ptr<Actor>()> start; };

struct GraphOps { Problem p; std::vector<int> ops; std::vector<double> lam; bool dense; };
struct GraphActor : Actor {
    const GraphOps &o; size_t i = 0, nv = 0, nf = 0; Built<FGraphSolve> S; Built<FGraphSolveDense> D;
    GraphActor(const GraphOps &o_) : o(o_) { if (o.dense) D.g = std::make_shared<FGraphSolveDense>(); else S.g = std::make_shared<FGraphSolve>(); }
    bool step(Trace &t) override {
        if (o.dense) return run(D, t);
        return run(S, t);
    }
    template <class B> bool run(B &b, Trace &t) {
        if (nv < o.p.v.size()) { NP n = make_node(o.p.v[nv].init, o.p.v[nv].anchor); t.put("node id", (uint64_t)b.g->add_node(n)); b.n.push_back(n); ++nv; return true; }
        if (nf < o.p.f.size()) { auto &f = o.p.f[nf]; FP q = make_factor(f, b.n[f.a], f.b >= 0 ? b.n[f.b] : NP()); t.put("factor id", (uint64_t)b.g->add_factor(q)); b.f.push_back(q); ++nf; return true; }
        if (i >= o.ops.size()) return false;
        act(b.g.get(), b, t, o.ops[i], o.lam[i]); for (auto &n : b.n) t.mat("state", DX(n->get_state())); ++i; return true;
    }
    template <class B> void act(FGraphSolve *g, B &b, Trace &t, int op, double l) {
        switch (op) {
        case 0: g->solve(FGraphSolve::GN); break;
        case 1: g->solve(FGraphSolve::LM, 5, l); break;
        case 2: t.put("chi2", (double)g->chi2()); break;
        case 3: g->solve(FGraphSolve::GN); t.mat("information", DX(g->get_information_matrix())); t.mat("vector b", DX(g->get_vector_b())); t.mat("chi2 array", DX(g->get_chi2_array())); break;
        default: for (auto &f : b.f) { f->evaluate_residuals(); f->evaluate_jacobians(); f->evaluate_chi2(); t.mat("residual", DX(f->get_residual())); t.mat("jacobian", DX(f->get_jacobian())); t.put("measurement chi2", (double)f->get_chi2()); }
        }
    }
    template <class B> void act(FGraphSolveDense *g, B &b, Trace &t, int op, double l) {
        switch (op) {
        case 0: t.put("iterations", (uint64_t)g->solve(mrob::Optimizer::NEWTON_RAPHSON, 1)); break;
        case 1: t.put("iterations", (uint64_t)g->solve(mrob::Optimizer::LEVENBERG_MARQUARDT_SPHER, 5, l)); break;
        case 2: t.put("error", (double)g->calculate_error()); break;
        case 3: t.put("iterations", (uint64_t)g->solve(mrob::Optimizer::LEVENBERG_MARQUARDT_ELLIP, 3, l)); break;
        default: for (auto &f : b.f) { f->evaluate_residuals(); f->evaluate_jacobians(); f->evaluate_chi2(); t.mat("residual", DX(f->get_residual())); t.put("measurement chi2", (double)f->get_chi2()); }
        }
    }
};
struct RegOps { int N, P; std::vector<int> ops; std::vector<V6> xi; std::vector<std::tuple<int, int, Eigen::Vector3d>> pts; };
struct RegActor : Actor {
    const RegOps &o; size_t i = 0, k = 0; PlaneRegistration r; RegActor(const RegOps &o_) : o(o_) { r.set_number_planes_and_poses(o.P, o.N); for (int p = 0; p < o.P; ++p) r.add_new_plane(p * 2); }
    bool step(Trace &t) override {
        if (k < o.pts.size()) { for (int c = 0; c < 8 && k < o.pts.size(); ++c, ++k) { Mat31 x = std::get<2>(o.pts[k]); r.plane_push_back_point(std::get<0>(o.pts[k]) * 2, std::get<1>(o.pts[k]), x); } return true; }
        if (i >= o.ops.size()) return false;
        switch (o.ops[i]) {
        case 0: { SE3 x(Mat4(exp6(o.xi[i]).cast<double>())); r.set_last_pose(x); break; }
        case 1: t.put("error", (double)r.get_current_error()); break;
        case 2: r.solve(PlaneRegistration::LM_SPHER); break;
        case 3: r.solve(PlaneRegistration::LM_ELLIP); break;
        case 4: r.reset_solution(); break;
        case 5: t.put("initialised", (uint64_t)r.solve(PlaneRegistration::INITIALIZE)); break;
        case 6: { auto e = r.print_evaluate(); for (size_t q = 0; q < e.size(); ++q) if (q != 4) t.put("evaluation " + std::to_string(q), e[q]); break; } // entry 4 is elapsed time
        default: for (auto &p : r.get_all_planes()) t.mat("plane", Eigen::Vector4d(p.second->get_plane())); t.put("error", (double)r.get_current_error());
        }
        for (int s = 0; s < o.N; ++s) t.mat("trajectory", Mat4(r.get_trajectory(s).T())); ++i; return true;
    }
};
struct PoseOps { std::vector<int> ops; std::vector<V6> xi; std::vector<Mat6> C; DX X, Y, CX; Dv w; };
struct PoseActor : Actor {
    const PoseOps &o; size_t i = 0; SE3 T; SO3 Rr; SE3Cov U; PoseActor(const PoseOps &o_) : o(o_) {}
    bool step(Trace &t) override {
        if (i >= o.ops.size()) return false;
        Mat61 x = o.xi[i].cast<double>();
        switch (o.ops[i]) {
        case 0: T.update_lhs(x); break;
        case 1: T = T.mul(SE3(x)); break;
        case 2: T.regenerate(); break;
        case 3: T = T.inv(); t.mat("log", Mat61(T.ln_vee())); break;
        case 4: { SE3Cov V(SE3(x), o.C[i]); U.compound_2nd_order(V); t.mat("covariance", Mat6(U.cov())); break; }
        case 5: { SE3Cov V(SE3(x), o.C[i]); U.compound_4th_order(V); t.mat("covariance", Mat6(U.cov())); break; }
        case 6: { SE3 a; t.put("arun", (uint64_t)mrob::PCRegistration::arun(o.X, o.Y, a)); t.mat("alignment", Mat4(a.T())); break; }
        case 7: { SE3 a; t.put("weighted", (uint64_t)mrob::PCRegistration::weighted_point(o.X, o.Y, o.w, a)); t.mat("alignment", Mat4(a.T())); break; }
        case 8: { SE3 a; t.put("gicp", (uint64_t)mrob::PCRegistration::gicp(o.X, o.Y, o.CX, o.CX, a)); t.mat("alignment", Mat4(a.T())); break; }
        case 9: Rr.update_lhs(Mat31(x.head<3>())); t.mat("rotation log", Mat31(Rr.ln_vee())); break;
        default: t.mat("adjoint", Mat6(T.adj())); t.mat("transformed", Mat31(T.transform(Mat31(x.tail<3>())))); t.put("distance", (double)T.distance(SE3(x)));
        }
        t.mat("pose", Mat4(T.T())); ++i; return true;
    }
};
static Script gen_script(Case &g, int i) {
    Script s; int k = (int)g.weighted({4, 2, 3, 3});
    if (k < 2) { auto o = std::make_shared<GraphOps>(); Opts q; q.maxposes = 5; o->dense = k == 1; o->p = gen_problem(g, q); int n = (int)g.in_range(1, 5); for (int j = 0; j < n; ++j) { o->ops.push_back((int)g.raw(4)); o->lam.push_back(g.logmag(1e-5, 10)); } s.name = k ? "dense graph" : "graph"; g.d() << i << ": " << s.name << " " << o->p.v.size() << " variables " << o->p.f.size() << " measurements, " << n << " operations\n"; s.start = [o] { return std::unique_ptr<Actor>(new GraphActor(*o)); }; return s; }
    if (k == 2) { auto o = std::make_shared<RegOps>(); o->N = (int)g.in_range(2, 4); o->P = (int)g.in_range(3, 5); for (int p = 0; p < o->P; ++p) { Eigen::Vector3d n = gen::unit3(g); double d = g.sym(2); int c = (int)g.in_range(4, 8); for (int t = 0; t < o->N; ++t) for (int j = 0; j < c; ++j) { Eigen::Vector3d x = gen::vec3(g, 2); x -= n * (n.dot(x) + d - g.sym(0.1)); o->pts.emplace_back(p, t, x); } } int n = (int)g.in_range(1, 6); for (int j = 0; j < n; ++j) { o->ops.push_back((int)g.raw(7)); o->xi.push_back(gen::twist_tame(g, 1.0, 1).cast<R>()); } s.name = "plane registration"; g.d() << i << ": plane registration " << o->P << " planes " << o->N << " poses, " << n << " operations\n"; s.start = [o] { return std::unique_ptr<Actor>(new RegActor(*o)); }; return s; }
    auto o = std::make_shared<PoseOps>(); int n = (int)g.in_range(1, 12); for (int j = 0; j < n; ++j) { o->ops.push_back((int)g.raw(10)); o->xi.push_back(gen::twist_tame(g, 2.5, 3).cast<R>()); o->C.push_back(gen::spd<6>(g, 0.01, 0.2)); } int m = (int)g.in_range(4, 10); o->X.resize(m, 3); o->Y.resize(m, 3); o->CX.resize(3 * m, 3); o->w.resize(m); M4 T = exp6(gen::twist_tame(g, 0.4, 0.5).cast<R>()); for (int j = 0; j < m; ++j) { V3 x = gen::vec3(g, 2).cast<R>(), y = ref::V3(T.topLeftCorner<3, 3>() * x) + ref::V3(T.topRightCorner<3, 1>()); o->X.row(j) = x.cast<double>().transpose(); o->Y.row(j) = y.cast<double>().transpose() + gen::vec3(g, 0.05).transpose(); o->CX.block<3, 3>(3 * j, 0) = gen::spd<3>(g, 0.1, 1); o->w(j) = g.logmag(0.1, 3); } s.name = "poses"; g.d() << i << ": poses and alignments, " << n << " operations\n"; s.start = [o] { return std::unique_ptr<Actor>(new PoseActor(*o)); }; return s;
}
// leaves `fill` on the part of the stack the next calls use
static void __attribute__((noinline)) scrub(int fill) { char b[1 << 15]; memset(b, fill, sizeof b); __asm__ volatile("" : : "r"(b) : "memory"); }
// the same calls, with whatever memory happens to contain being different
static Trace on_dirty_memory(const Script &s, int fill) {
    Trace t;
#ifdef VP_HEAP_FILL
    int was = pbt::heap_fill; pbt::heap_fill = fill;
    auto a = s.start(); do scrub(fill); while (a->step(t)); pbt::heap_fill = was;
#else
    auto a = s.start(); do scrub(fill); while (a->step(t));
#endif
    return t;
}
static Trace alone(const Script &s) { Trace t; auto a = s.start(); while (a->step(t)) {} return t; }
static void same(Case &g, const Script &s, const Trace &a, const Trace &b, const char *when) { std::string d = diff(a, b); if (!d.empty()) g.fail(std::string(when) + ": " + s.name, std::string(when) + ", " + s.name + ": " + d); }

PROPERTY(S05, repeated, 4) {
    Script s = gen_script(g, 0); Trace ref = alone(s); g.nontrivial(ref.v.size() > 8); g.label(s.name); same(g, s, ref, alone(s), "repeated"); for (int fill : {0x00, 0x3f, 0xbf, 0xff}) same(g, s, ref, on_dirty_memory(s, fill), "repeated on other memory contents");
}
PROPERTY(S05, interleaved, 4) {
    int n = (int)g.in_range(2, 3); std::vector<Script> s; std::vector<Trace> ref; bool twin = g.chance(1, 4); for (int i = 0; i < n; ++i) { if (i && twin) s.push_back(s[0]); else s.push_back(gen_script(g, i)); } for (auto &x : s) ref.push_back(alone(x)); for (int i = 0; i < n; ++i) same(g, s[i], ref[i], alone(s[i]), "repeated");
    std::vector<std::unique_ptr<Actor>> a(n); std::vector<Trace> t(n); std::vector<char> fin(n, 0); int left = n, switches = 0, last = -1; g.d() << "schedule"; while (left) { int i = (int)g.raw(n - 1); while (fin[i]) i = (i + 1) % n; if (!a[i]) a[i] = s[i].start(); int burst = (int)g.in_range(1, 3); for (int b = 0; b < burst && !fin[i]; ++b) if (!a[i]->step(t[i])) { fin[i] = 1; --left; if (g.coin()) a[i].reset(); } if (i != last) ++switches; last = i; g.d() << " " << i << "x" << burst; } g.d() << "\n";
    for (int i = 0; i < n; ++i) same(g, s[i], ref[i], t[i], "interleaved"); g.nontrivial(switches > n); g.label("identical twins", twin);
}
PROPERTY(S05, threads, 2) {
    int n = (int)g.in_range(2, 4); std::vector<Script> s; std::vector<Trace> ref; bool twin = g.chance(1, 3); for (int i = 0; i < n; ++i) { if (i && twin) s.push_back(s[0]); else s.push_back(gen_script(g, i)); }
    for (auto &x : s) ref.push_back(alone(x));
    std::vector<std::string> bad(n); std::atomic<int> ready(0); std::vector<std::thread> th; int reps = 3;
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] { ++ready; while (ready < n) {} for (int r = 0; r < reps && bad[i].empty(); ++r) bad[i] = diff(ref[i], alone(s[i])); });
    for (auto &t : th) t.join(); g.nontrivial(); g.label("identical twins", twin); for (int i = 0; i < n; ++i) if (!bad[i].empty()) g.fail("threads: " + s[i].name, "in threads, " + s[i].name + ": " + bad[i]);
}
// copies of poses and uncertain poses
PROPERTY(S05, copies, 1) {
    Mat61 x = gen::twist_tame(g, 2.5, 3), y = gen::twist_tame(g, 2.5, 3); Mat6 C = gen::spd<6>(g, 0.01, 0.3); g.nontrivial(x.norm() > 1e-3 && y.norm() > 1e-3); g.d() << "x " << str(x) << " y " << str(y) << "\n"; bool assign = g.coin(), change = g.coin();
    { SE3 a(x); Mat4 was = a.T(); SE3 b(a), c; c = a; SE3 &cp = assign ? c : b; EXPECT_CLOSE("SE3 copy", Mat4(cp.T()), was, 0.0); SE3 &mod = change ? a : cp, &kept = change ? cp : a; switch (g.raw(3)) { case 0: mod.update_lhs(y); break; case 1: mod = mod.mul(SE3(y)); break; case 2: mod = mod.inv(); break; default: mod.ref2T()(0, 3) += 1; } EXPECT_CLOSE("SE3 kept", Mat4(kept.T()), was, 0.0); }
    { SO3 a(Mat31(x.head<3>())); mrob::Mat3 was = a.R(); SO3 b(a), c; c = a; SO3 &cp = assign ? c : b; EXPECT_CLOSE("SO3 copy", mrob::Mat3(cp.R()), was, 0.0); SO3 &mod = change ? a : cp, &kept = change ? cp : a; if (g.coin()) mod.update_lhs(Mat31(y.head<3>())); else mod.ref2R()(0, 0) += 1; EXPECT_CLOSE("SO3 kept", mrob::Mat3(kept.R()), was, 0.0); }
    { SE3Cov a(SE3(x), C); Mat4 was = a.T(); Mat6 wasc = a.cov(); SE3Cov b(a), c; c = a; SE3Cov &cp = assign ? c : b; EXPECT_CLOSE("SE3Cov copy", Mat4(cp.T()), was, 0.0); EXPECT_CLOSE("SE3Cov copied covariance", Mat6(cp.cov()), wasc, 0.0); SE3Cov &mod = change ? a : cp, &kept = change ? cp : a; if (g.coin()) mod.compound_2nd_order(SE3Cov(SE3(y), C)); else mod.compound_4th_order(SE3Cov(SE3(y), C)); EXPECT_CLOSE("SE3Cov kept", Mat4(kept.T()), was, 0.0); EXPECT_CLOSE("SE3Cov kept covariance", Mat6(kept.cov()), wasc, 0.0); }
    { // variables, measurements and plane landmarks copy what they are given
        Mat31 p = x.head<3>(); Mat4 T = SE3(x).T(); NP n3 = std::make_shared<mrob::NodePose3d>(T); Mat4 was = DX(n3->get_state()); T(0, 3) += 1; EXPECT_CLOSE("node state is a copy", DX(n3->get_state()), DX(was), 0.0); SE3 S(x); auto n4 = std::make_shared<mrob::NodePose3d>(S); S.update_lhs(y); EXPECT_CLOSE("node state is a copy of the pose", DX(n4->get_state()), DX(SE3(x).T()), 0.0);
        Mat6 W = C; Mat4 ob = SE3(y).T(); mrob::Factor1Pose3d f(ob, n3, W); f.evaluate_residuals(); DX r0 = f.get_residual(); ob(1, 3) += 2; W(0, 0) += 5; f.evaluate_residuals(); EXPECT_CLOSE("measurement keeps its observation", DX(f.get_residual()), r0, 0.0); f.evaluate_chi2(); double q = r0.col(0).dot(C * r0.col(0)) / 2; EXPECT_NEAR_("measurement keeps its information", f.get_chi2(), q, 1e-12 * (1 + q));
        Plane pl(1); pl.push_back_point(p, 0); Mat31 c = p; p(0) += 1; EXPECT("plane keeps its points", pl.get_points(0)[0] == c); }
}
PBT_MAIN
