// S04: legal but unkind call histories.  The oracle is the sanitizers, the assertions of the library and the CPU limit;
// wrong numbers are the business of the other properties.
#include "model.hpp"
#include "mrob/SE3cov.hpp"
#include "mrob/SO3.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/plane.hpp"
#include "mrob/plane_registration.hpp"
#include "mrob/create_points.hpp"
#include "mrob/time_profiling.hpp"
using namespace model;
using mrob::CreatePoints; using mrob::SamplePlanarSurface; using mrob::TimeProfiling; using mrob::Plane; using mrob::PlaneRegistration; using mrob::SO3; using mrob::SE3Cov;

// the memory a history holds is released with its objects: repeating it leaves no block behind
static void life(Case &g, void (*body)(Case &)) {
    bool leaks = g.chance(1, 6); size_t k = g.rec.size(); body(g);
#ifdef VP_HEAP_FILL
    if (leaks) { std::vector<uint64_t> in(g.rec.begin() + k, g.rec.end()); long at = 0, before = 0; for (int i = 0; i < 2; ++i) { before = pbt::live_blocks(); { Case c; c.size = g.size; c.replay = true; c.in = in; body(c); } at = pbt::live_blocks(); } g.label("leak check"); if (at != before) g.fail("leak", "repeating the history leaves " + std::to_string(at - before) + " more blocks allocated each time"); }
#endif
    (void)leaks; (void)k;
}
#define LIFE(name, weight) static void body_##name(Case &); PROPERTY(S04, name, weight) { life(g, body_##name); } static void body_##name(Case &g)
static double finite(Case &g) { switch (g.weighted({5, 3, 2, 1})) { default: return g.sym(5); case 1: return g.pick({0.0, 1.0, -1.0, M_PI, -M_PI, M_PI / 2}); case 2: return g.sym(1) * g.logmag(1e-12, 1e8); case 3: return g.pick({1e-300, 1e15, -1e15, 1e30, -1e100, -0.0}); } }
static St wild_state(Case &g, NK k) { if (g.chance(2, 3)) { St s = gen_state(g, k); if (g.chance(1, 4) && k != P3) s.v.setZero(); if (k == PL && s.v.head(3).norm() < 0.1L) s.v(0) = 1; return s; } if (k == P3) { M4 T = M4::Identity(); if (g.coin()) { V3 t; for (int i = 0; i < 3; ++i) t(i) = finite(g); T.topRightCorner<3, 1>() = t; } return St::pose(T); } VX v(NDIM[k]); for (int i = 0; i < v.size(); ++i) v(i) = finite(g); if (k == PL) { V3 n = gen::unit3(g).cast<R>(); v.head(3) = n; } return rnd(St::vec(k, v)); }
template <class G> struct Life { std::shared_ptr<G> g; std::vector<NP> n; std::vector<NK> kind; std::vector<FP> f; };
template <class G> static void grow_node(Case &c, Life<G> &L) { NK k = (NK)c.raw(4); St s = !L.n.empty() && L.n[0]->get_state().allFinite() && c.chance(1, 3) ? from(L.kind[0], DX(L.n[0]->get_state())) : wild_state(c, k); if (s.k != k) k = s.k; bool a = c.chance(1, 6); NP n = make_node(s, a); c.d() << "node " << L.n.size() << (a ? " anchor " : " ") << show(s) << "\n"; L.g->add_node(n); if (c.chance(1, 8)) L.g->add_node(n); L.n.push_back(n); L.kind.push_back(k); }
template <class G> static void grow_factor(Case &c, Life<G> &L) {
    FK k = (FK)c.raw(8); std::vector<int> A, B; for (size_t i = 0; i < L.n.size(); ++i) { if (L.kind[i] == FA[k]) A.push_back((int)i); if (L.kind[i] == FB[k]) B.push_back((int)i); } if (A.empty() || B.empty()) return; Fac f; f.k = k; f.a = A[c.raw(A.size() - 1)]; if (!FUN[k]) { f.b = B[c.raw(B.size() - 1)]; if (f.b == f.a) return; if (k == FODO && f.a > f.b) std::swap(f.a, f.b); }
    f.W = c.chance(1, 6) ? DX(DX::Zero(FDIM[k], FDIM[k])) : gen_W(c, k); f.robust = (int)c.weighted({4, 1, 1, 1}); f.init = c.chance(1, 3); f.se3ctor = c.coin(); f.T = pose3(c, 3).cast<double>(); int d = k == FPP ? 9 : FDIM[k]; f.obs.resize(d); for (int i = 0; i < d; ++i) f.obs(i) = c.chance(1, 6) ? 0 : finite(c); if (k == FPL) f.obs.head(3) = gen::unit3(c); if (k == FL2) f.obs(0) = std::fabs(f.obs(0));
    FP q = make_factor(f, L.n[f.a], f.b >= 0 ? L.n[f.b] : NP()); c.d() << show(f) << (f.init ? " init" : "") << "\n"; L.g->add_factor(q); if (c.chance(1, 8)) L.g->add_factor(q); L.f.push_back(q);
}
template <class G> static void touch(Case &c, Life<G> &L) {
    if (L.n.empty()) return; size_t i = c.raw(L.n.size() - 1); NP n = L.n[i]; VX dx(NDIM[L.kind[i]]); for (int j = 0; j < dx.size(); ++j) dx(j) = c.chance(1, 3) ? 0 : finite(c);
    switch (c.raw(7)) { case 0: n->update(Dv(dx.cast<double>())); c.d() << "update " << i << " by " << str(dx) << "\n"; break; case 1: n->update_from_auxiliary(Dv(dx.cast<double>())); break; case 2: n->set_state(mat(wild_state(c, L.kind[i]))); break; case 3: if (n->get_state().allFinite()) n->set_auxiliary_state(DX(n->get_state())); break; case 4: if (n->get_auxiliary_state().allFinite()) n->set_state(DX(n->get_auxiliary_state())); break; case 5: n->print(); break;
    case 6: if (!L.f.empty()) { FP f = L.f[c.raw(L.f.size() - 1)]; auto v = *n->get_neighbour_factors(); bool has = std::find(v.begin(), v.end(), f) != v.end(); n->rm_factor(f); n->rm_factor(f); if (has) n->add_factor(f); } break; default: { auto *v = n->get_neighbour_factors(); for (auto &f : *v) f->get_id(); } }
}
template <class G> static void ask(Case &c, Life<G> &L) { if (L.f.empty()) return; FP f = L.f[c.raw(L.f.size() - 1)]; switch (c.raw(7)) { case 0: f->evaluate_residuals(); break; case 1: f->evaluate_residuals(); f->evaluate_jacobians(); break; case 2: f->evaluate_residuals(); f->evaluate_chi2(); f->get_chi2(); break; case 3: f->print(); break; case 4: f->get_residual(); f->get_jacobian(); f->get_information_matrix(); break; case 5: f->evaluate_residuals(); f->evaluate_robust_weight(c.pick({0.0, 1.0, 1e10})); break; case 6: f->get_obs(); break; default: f->get_neighbour_nodes(); f->get_dim(); f->get_all_nodes_dim(); } }
// destroying the graph breaks the node-factor cycles; what the caller still holds stays usable
template <class G> static void release(Case &c, Life<G> &L) {
    std::vector<std::weak_ptr<Node>> wn(L.n.begin(), L.n.end()); std::vector<std::weak_ptr<Factor>> wf(L.f.begin(), L.f.end());
    if (c.coin()) { L.g.reset(); for (auto &n : L.n) { n->get_state(); n->print(); n->get_neighbour_factors()->size(); } for (auto &f : L.f) { f->evaluate_residuals(); f->evaluate_jacobians(); f->evaluate_chi2(); f->get_neighbour_nodes()->at(0)->get_state(); } L.f.clear(); L.n.clear(); }
    else { L.f.clear(); L.n.clear(); L.g.reset(); }
    for (auto &w : wn) if (!w.expired()) c.fail("node leak", "a node outlives its graph, the factors and every reference to it"); for (auto &w : wf) if (!w.expired()) c.fail("factor leak", "a factor outlives its graph, the nodes and every reference to it");
}
LIFE(sparse_graph_life, 4) {
    Life<FGraphSolve> L; L.g = std::make_shared<FGraphSolve>(); int steps = (int)g.in_range(1, (int)g.size + 5), solves = 0;
    for (int s = 0; s < steps; ++s) switch (g.weighted({6, 8, 3, 2, 3, 2, 1, 1})) {
        case 0: grow_node(g, L); break; case 1: if (!L.n.empty()) grow_factor(g, L); break; case 2: touch(g, L); break; case 3: ask(g, L); break;
        case 4: { bool any = false; for (auto &f : L.f) any = any || f; bool lm = g.coin(); double lam = g.pick({0.0, 1e-6, 1.0, 1e12}); uint_t it = (uint_t)g.raw(6); bool st = false; for (auto &n : L.n) st = st || n->get_node_mode() != Node::nodeMode::ANCHOR; if (!st || !any) break; /* asserted preconditions */ g.d() << (lm ? "LM " : "GN ") << it << " " << num(lam) << "\n"; if (lm) L.g->solve(FGraphSolve::LM, it, lam, g.pick({1e-2, 1e-8, 0.0})); else L.g->solve(FGraphSolve::GN); ++solves; break; }
        case 5: L.g->chi2(g.coin()); L.g->get_estimated_state(); if (g.coin()) L.g->get_chi2_array(); break;
        case 6: { auto a = L.g->get_information_matrix(); auto b = L.g->get_vector_b(); auto w = L.g->get_W_matrix(); auto j = L.g->get_adjacency_matrix(); (void)a; (void)b; (void)w; (void)j; break; }
        default: L.g->print(g.coin()); L.g->number_nodes(); L.g->get_dimension_state(); if (!L.n.empty()) L.g->get_node(g.raw(L.n.size() - 1)); if (!L.f.empty()) L.g->get_factor(g.raw(L.f.size() - 1)); }
    g.nontrivial(solves > 0 && L.f.size() > 1); g.label("solved", solves > 0); g.label("nothing added", L.n.empty()); release(g, L);
}
LIFE(dense_graph_life, 2) {
    Life<FGraphSolveDense> L; L.g = std::make_shared<FGraphSolveDense>(); int steps = (int)g.in_range(1, (int)g.size + 5), solves = 0;
    for (int s = 0; s < steps; ++s) switch (g.weighted({6, 8, 3, 2, 3, 1})) {
        case 0: grow_node(g, L); break; case 1: if (!L.n.empty()) grow_factor(g, L); break; case 2: touch(g, L); break; case 3: ask(g, L); break;
        case 4: { if (L.f.empty() && g.chance(3, 4)) break; auto m = (mrob::Optimizer::optimMethod)g.raw(2); uint_t it = (uint_t)g.raw(6); double lam = g.pick({0.0, 1e-6, 1.0}); g.d() << "solve " << (int)m << " " << it << "\n"; L.g->solve(m, it, lam); ++solves; break; }
        default: L.g->calculate_error(); L.g->print(g.coin()); }
    g.nontrivial(solves > 0 && L.f.size() > 1); release(g, L);
}
static Eigen::Vector3d wpoint(Case &g) { switch (g.weighted({5, 2, 1, 1})) { default: return gen::vec3(g, 3); case 1: return Eigen::Vector3d(0, 0, 0); case 2: return gen::vec3(g, 1e8); case 3: return Eigen::Vector3d(1, 0, 0) * g.sym(3); } }
LIFE(plane_life, 2) {
    uint_t N = (uint_t)g.in_range(1, 5); Plane pl(N); std::shared_ptr<std::vector<SE3>> tr(new std::vector<SE3>(N)); pl.set_trajectory(tr); int steps = (int)g.in_range(1, (int)g.size + 5); bool s = false, e = false, gr = false; int pts = 0;
    for (int i = 0; i < steps; ++i) { uint_t t = (uint_t)g.raw(N - 1); int op = (int)g.raw(13); g.d() << op << "@" << t << " "; switch (op) {
        case 0: case 1: case 2: { Mat31 p = wpoint(g); pl.push_back_point(p, t); ++pts; break; } case 3: { Mat31 p = wpoint(g); pl.push_back_point(p, N + (uint_t)g.raw(4)); break; } case 4: pl.estimate_plane(); s = e = true; break; case 5: pl.clear_points(); s = false; break; case 6: pl.reset(); s = e = gr = false; break;
        case 7: tr->at(t) = SE3(gen::twist(g)); break; case 8: if (s && e) pl.estimate_plane_incrementally(t); break; case 9: if (s && e) pl.get_error_incremental(t); break; case 10: if (e) { pl.calculate_gradient(t); pl.calculate_hessian(t); gr = true; } break; case 11: pl.calculate_all_matrices_S(g.coin()); s = true; break; case 12: pl.reserve((uint_t)g.raw(50), (uint_t)g.raw(N + 2)); pl.print(); { double sum = 0; for (uint_t u : {t, N, N + (uint_t)g.raw(3)}) for (auto &x : pl.get_points(u)) sum += x.sum(); if (sum == 0.12345) g.d() << sum; } pl.get_number_points(t); break; default: if (s && pl.get_number_points(t)) pl.get_mean_point(t); } }
    g.nontrivial(pts > 2 && e); (void)gr;
}
LIFE(plane_registration_life, 3) {
    PlaneRegistration r; uint_t N = 0, P = 0; std::vector<uint_t> ids; auto setup = [&] { P = (uint_t)g.in_range(0, 6); N = (uint_t)g.in_range(1, 5); r.set_number_planes_and_poses(P, N); ids.clear(); g.d() << "set " << P << " " << N << "\n"; }; if (g.chance(1, 4)) { r.calculate_total_number_points(); r.get_current_error(); r.get_last_pose(); r.print(); r.print_evaluate(); r.get_point_cloud(0); } setup(); int steps = (int)g.in_range(1, (int)g.size + 5), solves = 0;
    for (int i = 0; i < steps; ++i) switch (g.weighted({3, 12, 2, 3, 2, 1, 1, 2})) {
        case 0: { uint_t id = (uint_t)g.raw(9); if (g.coin()) r.add_new_plane(id); else { std::shared_ptr<Plane> p(new Plane(N)); r.add_plane(id, p); } ids.push_back(id); g.d() << "plane " << id << "\n"; break; }
        case 1: { if (ids.empty()) break; int k = (int)g.in_range(1, 5); uint_t t = (uint_t)g.raw(N - 1), id = ids[g.raw(ids.size() - 1)]; for (int j = 0; j < k; ++j) { Mat31 x = wpoint(g); r.plane_push_back_point(id, t, x); } g.d() << k << " points of " << id << " at " << t << "\n"; break; }
        case 2: { if (N < 2 && g.chance(1, 2)) break; SE3 T(gen::twist(g)); r.set_last_pose(T); g.d() << "last pose\n"; break; }
        case 3: { auto m = g.pick({PlaneRegistration::LM_SPHER, PlaneRegistration::LM_ELLIP, PlaneRegistration::INITIALIZE, PlaneRegistration::GN_HESSIAN, PlaneRegistration::GRADIENT_ALL_POSES, PlaneRegistration::GRADIENT_BENGIOS_NAG, PlaneRegistration::GN_CLAMPED_HESSIAN}); bool single = g.chance(3, 4); g.d() << "solve " << (int)m << (single ? " once" : "") << "\n"; r.solve(m, single); ++solves; break; }
        case 4: r.get_current_error(); r.print_evaluate(); r.calculate_total_number_points(); break; case 5: r.reset_solution(); break; case 6: if (g.chance(1, 4)) setup(); break;
        default: { uint_t t = (uint_t)g.raw(N - 1); r.get_point_cloud(t); r.get_trajectory(t); r.get_last_pose(); std::vector<SE3> gt(N + g.raw(2)); r.calculate_poses_rmse(gt); r.print(g.coin()); if (!ids.empty()) r.get_all_planes(); } }
    g.nontrivial(solves > 0 && !ids.empty()); g.label("solved", solves > 0); g.label("single pose", N == 1);
}
LIFE(alignment_extremes, 2) {
    int n = (int)g.in_range(3, 12); int kind = (int)g.raw(4); DX X(n, 3), Y(n, 3); Eigen::Vector3d a = wpoint(g), b = wpoint(g); for (int i = 0; i < n; ++i) { Eigen::Vector3d x = kind == 0 ? a : kind == 1 ? Eigen::Vector3d(a * g.sym(1)) : kind == 2 ? Eigen::Vector3d(a * g.sym(1) + b * g.sym(1)) : wpoint(g); X.row(i) = x.transpose(); Y.row(i) = (g.coin() ? wpoint(g) : x).transpose(); } if (g.coin()) Y = X; g.nontrivial(); g.label(kind == 0 ? "coincident" : kind == 1 ? "collinear" : kind == 2 ? "planar" : "any");
    SE3 T; if (g.coin()) T = SE3(gen::twist(g)); g.d() << "kind " << kind << " n " << n << " X " << str(X) << " Y " << str(Y) << "\n"; switch (g.raw(3)) {
    case 0: mrob::PCRegistration::arun(X, Y, T); break;
    case 1: { Dv w(n); bool zero = g.chance(1, 4); for (int i = 0; i < n; ++i) w(i) = zero || g.chance(1, 4) ? 0 : g.logmag(1e-6, 1e3); mrob::PCRegistration::weighted_point(X, Y, w, T); break; }
    case 2: { DX C(3 * n, 3), D(3 * n, 3); for (int i = 0; i < n; ++i) { C.block<3, 3>(3 * i, 0) = g.chance(1, 4) ? Eigen::Matrix3d(Eigen::Matrix3d::Zero()) : gen::spd<3>(g, 0.0, 1.0, g.coin()); D.block<3, 3>(3 * i, 0) = gen::spd<3>(g, 1e-6, 1.0, g.coin()); } mrob::PCRegistration::gicp(X, Y, C, D, T); break; }
    default: mrob::estimate_plane(X); mrob::estimate_normal(X); mrob::estimate_centroid(X); }
}
LIFE(scenes_and_profiles, 0.3) {
    uint_t n = (uint_t)g.in_range(1, 25), P = (uint_t)g.in_range(1, 6), N = (uint_t)g.in_range(1, 4); CreatePoints c(n, P, N, g.pick({0.01, 1e-9, 10.0}), g.pick({0.1, 1e-9, 100.0})); g.d() << n << " points " << P << " planes " << N << " poses\n"; g.nontrivial(n > 1 && N > 1); c.print(); { PlaneRegistration r; c.create_plane_registration(r); if (g.coin()) c.create_plane_registration(r); r.get_current_error(); if (N > 1 && g.coin()) { for (int i = 0; i < 3; ++i) r.solve(g.pick({PlaneRegistration::GRADIENT, PlaneRegistration::GRADIENT_BENGIOS_NAG, PlaneRegistration::GRADIENT_ALL_POSES, PlaneRegistration::LM_SPHER, PlaneRegistration::GN_CLAMPED_HESSIAN}), true); r.print_evaluate(); } r.print(); }
    SamplePlanarSurface *s = new SamplePlanarSurface(0.1, 0.2); for (int i = 0; i < 3; ++i) { s->sampleBias(); s->samplePoint(); } delete s; TimeProfiling t; int k = (int)g.raw(4); for (int i = 0; i < k; ++i) { t.start(); t.stop(g.coin() ? "step" : ""); } double sum = t.total_time(); if (!(sum >= 0)) g.fail("profile", "total time " + num(sum)); t.print(); t.reset(); if (t.total_time() != 0) g.fail("profile", "total time after reset");
}
LIFE(geometry_extremes, 2) {
    Mat61 x; for (int i = 0; i < 6; ++i) x(i) = g.chance(1, 4) ? 0 : finite(g); Mat61 y = gen::twist(g); g.nontrivial(); g.d() << str(x) << " " << str(y) << "\n"; SE3 T(x), U(y); T.ln_vee(); T.update_lhs(y); T.update_rhs(x); T.inv(); T.adj(); T.transform(Mat31(x.tail<3>())); int n = (int)g.raw(5); DX P = DX::Random(n, 3); T.transform_array(P); T.distance(U); T.regenerate(); (T * U).ln_vee(); T.print(); T.print_lie(); SO3 Rr(Mat31(x.head<3>())); Rr.print(); Rr.print_lie(); Rr.ln_vee(); Rr.update_lhs(Mat31(y.head<3>())); Rr.inv(); Rr.adj(); Rr.distance(SO3(Mat31(y.head<3>())));
    double a = finite(g) * g.pick({1.0, 1e10, 1e200}); double w = mrob::wrap_angle(a); if (std::isfinite(a) && !(w >= -M_PI && w <= M_PI)) g.fail("wrap", "wrap_angle(" + num(a) + ") = " + num(w)); Mat6 C = gen::spd<6>(g, 0, 1, true); SE3Cov A(T, C), B(U, Mat6(Mat6::Zero())); A.compound_2nd_order(B); B.compound_4th_order(A); A.print(); mrob::isSE3(T.T()); mrob::isSO3(Rr.R());
}
PBT_MAIN
