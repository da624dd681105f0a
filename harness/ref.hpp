// Reference mathematics, written independently of the library and evaluated in
// 80-bit long double: matrix exponential by scaling and squaring of the Taylor
// series, logarithm through unit quaternions, adjoints from first principles.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <iomanip>
#include "pbt.hpp"

namespace ref {
typedef long double R;
template <int A, int B> using M = Eigen::Matrix<R, A, B>;
typedef M<3, 1> V3; typedef M<6, 1> V6; typedef M<4, 1> V4; typedef M<3, 3> M3; typedef M<4, 4> M4; typedef M<6, 6> M6; typedef M<2, 1> V2; typedef M<2, 2> M2;
typedef Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> MX;
typedef Eigen::Matrix<R, Eigen::Dynamic, 1> VX;
static const R PI = 3.14159265358979323846264338327950288L;

inline M3 skew(const V3 &w) { M3 S; S << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return S; }
inline M4 twist(const V6 &x) { M4 S = M4::Zero(); S.topLeftCorner<3, 3>() = skew(x.head<3>()); S.topRightCorner<3, 1>() = x.tail<3>(); return S; }
template <class Mat> Mat expm(const Mat &A0) {
    R n = A0.cwiseAbs().rowwise().sum().maxCoeff();
    int s = 0; while (n > 0.125L && s < 200) { n /= 2; ++s; }
    Mat A = A0 * std::pow(2.0L, -(R)s), T = Mat::Identity(A.rows(), A.cols()), E = T;
    for (int k = 1; k < 24; ++k) { T = (T * A / (R)k).eval(); E += T; }
    for (int k = 0; k < s; ++k) E = (E * E).eval();
    return E;
}
inline M3 exp3(const V3 &w) { return expm<M3>(skew(w)); }
// unit quaternion (x,y,z,w) of a rotation matrix, largest-component method, w >= 0
inline V4 quat(const M3 &m) {
    R q[4] = {1 + m(0, 0) - m(1, 1) - m(2, 2), 1 - m(0, 0) + m(1, 1) - m(2, 2), 1 - m(0, 0) - m(1, 1) + m(2, 2), 1 + m(0, 0) + m(1, 1) + m(2, 2)};
    int b = 0; for (int i = 1; i < 4; ++i) if (q[i] > q[b]) b = i;
    V4 v;
    switch (b) {
    case 0: v << q[0], m(0, 1) + m(1, 0), m(0, 2) + m(2, 0), m(2, 1) - m(1, 2); break;
    case 1: v << m(0, 1) + m(1, 0), q[1], m(1, 2) + m(2, 1), m(0, 2) - m(2, 0); break;
    case 2: v << m(0, 2) + m(2, 0), m(1, 2) + m(2, 1), q[2], m(1, 0) - m(0, 1); break;
    default: v << m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1), q[3];
    }
    v.normalize();
    if (v(3) < 0) v = -v;
    return v;
}
inline M3 quat_to_R(const V4 &q0) {
    V4 q = q0.normalized(); R x = q(0), y = q(1), z = q(2), w = q(3); M3 m;
    m << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y);
    return m;
}
inline V3 log3(const M3 &m) {
    V4 q = quat(m); V3 v = q.head<3>(); R n = v.norm();
    if (n < 1e-18L) return 2 * v;
    return v * (2 * std::atan2(n, q(3)) / n);
}
inline R angle(const M3 &m) { V4 q = quat(m); return 2 * std::atan2(q.head<3>().norm(), q(3)); }
// V matrix of the translation part: integral of exp(s w^) ds, by the 6x6 block trick
inline M3 Vmat(const V3 &w) {
    MX B = MX::Zero(6, 6); B.block(0, 0, 3, 3) = skew(w); B.block(0, 3, 3, 3) = M3::Identity();
    MX E = expm<MX>(B); return E.block(0, 3, 3, 3);
}
// rotation and translation separately, so that a large translation does not cost the rotation any accuracy
inline M4 exp6(const V6 &x) { M4 E = M4::Identity(); V3 w = x.head<3>(); E.topLeftCorner<3, 3>() = exp3(w); E.topRightCorner<3, 1>() = Vmat(w) * x.tail<3>(); return E; }
inline V6 log6(const M4 &T) {
    V3 w = log3(T.topLeftCorner<3, 3>()); V6 x; x.head<3>() = w;
    V3 t = T.topRightCorner<3, 1>(); M3 V = Vmat(w); x.tail<3>() = V.fullPivLu().solve(t); return x;
}
inline M4 inv4(const M4 &T) { M4 I = M4::Identity(); M3 Rt = T.topLeftCorner<3, 3>().transpose(); I.topLeftCorner<3, 3>() = Rt; I.topRightCorner<3, 1>() = -Rt * T.topRightCorner<3, 1>(); return I; }
// rotation-first adjoint
inline M6 Ad(const M4 &T) { M6 A = M6::Zero(); M3 C = T.topLeftCorner<3, 3>(); V3 t = T.topRightCorner<3, 1>(); A.topLeftCorner<3, 3>() = C; A.bottomRightCorner<3, 3>() = C; A.bottomLeftCorner<3, 3>() = skew(t) * C; return A; }
inline M6 ad(const V6 &x) { M6 A = M6::Zero(); A.topLeftCorner<3, 3>() = skew(x.head<3>()); A.bottomRightCorner<3, 3>() = skew(x.head<3>()); A.bottomLeftCorner<3, 3>() = skew(x.tail<3>()); return A; }
// left Jacobian of SE(3): integral of exp(s ad) ds
inline M6 Jl(const V6 &x) { MX B = MX::Zero(12, 12); B.block(0, 0, 6, 6) = ad(x); B.block(0, 6, 6, 6) = M6::Identity(); MX E = expm<MX>(B); return E.block(0, 6, 6, 6); }
inline R wrap(R a) { R r = std::fmod(a + PI, 2 * PI); if (r < 0) r += 2 * PI; return r - PI; }
// circular difference
inline R angdist(R a, R b) { return std::fabs(wrap(a - b)); }
template <class D> auto L(const Eigen::MatrixBase<D> &m) { return m.template cast<R>().eval(); }
template <class D> auto Dbl(const Eigen::MatrixBase<D> &m) { return m.template cast<double>().eval(); }
} // namespace ref

namespace gen {
using pbt::Case;
typedef Eigen::Vector3d V3; typedef Eigen::Matrix<double, 6, 1> V6;

inline V3 vec3(Case &g, double s) { double a = g.sym(s), b = g.sym(s), c = g.sym(s); return V3(a, b, c); }
// unit vector; sometimes axis aligned or with exactly equal components
inline V3 unit3(Case &g) {
    switch (g.weighted({6, 2, 1, 1})) {
    default: { V3 v = vec3(g, 1); if (v.norm() < 1e-3) return V3(1, 0, 0); return v.normalized(); }
    case 1: { V3 v = V3::Zero(); v(g.raw(2)) = g.coin() ? -1 : 1; return v; }
    case 2: { V3 v(g.coin() ? -1 : 1, g.coin() ? -1 : 1, g.coin() ? -1 : 1); return v.normalized(); }
    case 3: { V3 v = vec3(g, 1); v(g.raw(2)) = 0; if (v.norm() < 1e-3) return V3(0, 1, 0); return v.normalized(); }
    }
}
// rotation angle, biased to every regime of the formulas
inline double angle(Case &g, bool multi = true) {
    switch (g.weighted({5, 3, 2, 2, 3, 1, multi ? 3 : 0})) {
    default: return g.real(0.01, M_PI - 0.01);
    case 1: return g.logmag(1e-9, 1e-1);                          // small-angle bands
    case 2: return g.pick({1e-3, 1e-4, 1e-5, 1e-6, 5e-3, 1e-2}) * (1 + g.sym(0.02)); // around thresholds
    case 3: return M_PI - g.logmag(1e-15, 1e-1);                  // just below a half turn
    case 4: return g.pick({M_PI / 2, M_PI / 3, 2 * M_PI / 3, M_PI / 4, 3 * M_PI / 4, 1.0, 2.0, 3.0}) + g.pick({0.0, 1e-9, -1e-9, 1e-4, -1e-4});
    case 5: return 0;
    case 6: return g.real(M_PI, 6 * M_PI);                        // beyond a half turn
    }
}
inline V3 rotvec(Case &g, bool multi = true) { V3 u = unit3(g); return u * angle(g, multi); }
inline double tmag(Case &g) { return g.weighted({5, 1, 1, 1}) == 0 ? 5.0 : g.pick({1e-6, 1e-2, 100.0, 1e4}); }
inline V6 twist(Case &g, bool multi = true) { V6 x; x.head<3>() = rotvec(g, multi); x.tail<3>() = vec3(g, tmag(g)); return x; }
// smooth generic rotation vector well inside the injectivity radius
inline V3 rotvec_tame(Case &g, double maxang = 3.0) { V3 u = unit3(g); return u * g.real(0, maxang); }
inline V6 twist_tame(Case &g, double maxang = 3.0, double t = 5) { V6 x; x.head<3>() = rotvec_tame(g, maxang); x.tail<3>() = vec3(g, t); return x; }
// random symmetric positive (semi)definite matrix with correlated entries
template <int N> Eigen::Matrix<double, N, N> spd(Case &g, double lo, double hi, bool psd = false) {
    Eigen::Matrix<double, N, N> A;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) A(i, j) = g.sym(1);
    Eigen::Matrix<double, N, N> S = A * A.transpose() * (hi / N);
    if (!psd) for (int i = 0; i < N; ++i) S(i, i) += lo;
    if (psd && g.chance(1, 3)) { // make it singular
        Eigen::Matrix<double, N, 1> v = A.col(0);
        S = v * v.transpose() * hi;
    }
    return S;
}
template <int N> Eigen::Matrix<double, N, N> info(Case &g) {
    switch (g.weighted({4, 2, 1})) {
    default: return spd<N>(g, 0.1, g.pick({1.0, 10.0, 0.2}));
    case 1: { Eigen::Matrix<double, N, N> D = Eigen::Matrix<double, N, N>::Zero(); for (int i = 0; i < N; ++i) D(i, i) = g.logmag(0.05, 50); return D; }
    case 2: return Eigen::Matrix<double, N, N>::Identity();
    }
}
} // namespace gen

template <class D> std::string str(const Eigen::MatrixBase<D> &m_) {
    auto m = m_.eval();
    std::ostringstream o; o << std::setprecision(17);
    if (m.cols() == 1) { o << "["; for (int i = 0; i < m.rows(); ++i) o << (i ? ", " : "") << (double)m(i, 0); o << "]"; return o.str(); }
    o << "[";
    for (int i = 0; i < m.rows(); ++i) { o << (i ? "; " : ""); for (int j = 0; j < m.cols(); ++j) o << (j ? " " : "") << (double)m(i, j); }
    o << "]"; return o.str();
}
inline std::string num(double x) { std::ostringstream o; o << std::setprecision(17) << x; return o.str(); }
// max-abs difference; NaN counts as infinite
template <class A, class B> double maxdiff(const Eigen::MatrixBase<A> &a_, const Eigen::MatrixBase<B> &b_) {
    auto a = a_.eval(); auto b = b_.eval();
    if (a.rows() != b.rows() || a.cols() != b.cols()) return INFINITY;
    double m = 0;
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) {
        long double d = (long double)a(i, j) - (long double)b(i, j);
        if (!(d == d)) { if (!(a(i, j) == a(i, j)) || !(b(i, j) == b(i, j))) return INFINITY; }
        m = std::max(m, (double)std::fabs(d));
    }
    return m;
}
#define EXPECT_CLOSE(key, A, B, tol) do { double _d = maxdiff((A), (B)); double _t = (tol); \
    if (!(_d <= _t)) g.fail(key, std::string(key) + ": |diff| = " + num(_d) + " > " + num(_t) + "\n got  " + str(A) + "\n want " + str(B)); } while (0)
#define EXPECT_NEAR_(key, a, b, tol) do { double _a = (double)(a), _b = (double)(b), _t = (tol); \
    if (!(std::fabs(_a - _b) <= _t)) g.fail(key, std::string(key) + ": " + num(_a) + " vs expected " + num(_b) + " tol " + num(_t)); } while (0)
#define EXPECT(key, cond) do { if (!(cond)) g.fail(key, std::string(key) + ": " #cond); } while (0)
