"""S02: the Python geometry and registration interface."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "pystub")); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from pypbt import prop, main
from pyref import *
import mrob
G = mrob.geometry; R = mrob.registration
SE3, SO3, SE3Cov = G.SE3, G.SO3, G.SE3Cov


def lay1(g, H, v):
    """vectors: also as a column"""
    return H(v) if g.chance(4, 5) else H(np.asarray(v).reshape(-1, 1))


def make(g, H, x=None):
    """an SE3 through a random constructor, with its matrix"""
    x = twist(g) if x is None else x; T = exp6(x)
    k = g.raw(5)
    if k == 0: P = SE3(lay1(g, H, x))
    elif k == 1: P = SE3(H(T))
    elif k == 2: P = SE3(SE3(H(T)))
    elif k == 3: P = SE3(SO3(lay1(g, H, x[:3])), H(T[:3, 3]))
    elif k == 4: P = SE3(SO3(H(T[:3, :3])), lay1(g, H, T[:3, 3]))
    else: P = SE3(SE3Cov(SE3(H(T)), np.eye(6)))
    g.label("constructor %d" % k)
    return P, T


def scale(*Ts): return 1 + sum(float(np.abs(T).max()) for T in Ts)


def log_ok(g, key, v, T):
    """v is a logarithm of T: exp(v) = T, rotation at most pi (near pi the library is accurate to 1.5e-7)"""
    v = np.asarray(v); g.check(v.shape == (6,) or v.shape == (3,), key, "shape %s" % (v.shape,))
    o = float(np.linalg.norm(v[:3])); g.check(o <= math.pi + 1e-6, key, "rotation %g" % o)
    s = scale(T); tol = (1e-6 if o > 3.1 else 1e-9) * s
    g.close(key, exp6(v) if v.size == 6 else exp3(v), T, tol, "exp of the logarithm")


@prop("S02", "poses", 4)
def poses(g):
    H = Handed(g, True); A, TA = make(g, H); B, TB = make(g, H); g.d("A", TA, "B", TB); s = scale(TA, TB) ** 2; tol = 1e-12 * s
    g.nontrivial(angle(TA[:3, :3]) > 1e-9)
    g.close("T", A.T(), TA, tol); g.close("R", A.R(), TA[:3, :3], tol); g.close("t", A.t(), TA[:3, 3], tol)
    C = A * B; D = A.mul(B); g.close("product", C.T(), TA @ TB, tol); g.check(np.array_equal(C.T(), D.T()), "mul and * differ")
    g.check(type(C) is SE3, "product type", str(type(C)))
    g.close("inverse", A.inv().T(), inv4(TA), tol); g.close("adjoint", A.adj(), Ad(TA), tol)
    p = vec3(g, 5); q = A.transform(lay1(g, H, p)); g.close("transform", q, TA[:3, :3] @ p + TA[:3, 3], tol * 10)
    n = g.in_range(1, 7) if g.chance(49, 50) else g.in_range(8, 600); P = np.array([vec3(g, 5) for _ in range(n)]); Q = A.transform_array(H(P)); g.close("transform_array", Q, P @ TA[:3, :3].T + TA[:3, 3], tol * 10)
    log_ok(g, "Ln", A.Ln(), TA)
    rel = TA @ inv4(TB); w = angle(rel[:3, :3])
    g.close("distance_trans", A.distance_trans(B), np.linalg.norm(TA[:3, 3] - TB[:3, 3]), tol); g.close("distance_rotation", A.distance_rotation(B), w, 1e-6 if w > 3.1 else 1e-7)
    if w < 3.1: g.close("distance", A.distance(B), np.linalg.norm(log6(rel)), 1e-7 * s)
    I = SE3(); g.check(np.array_equal(I.T(), np.eye(4)), "identity")
    for f in ("distance", "distance_rotation", "distance_trans"):
        g.check(getattr(A, f)() == getattr(A, f)(I) == getattr(A, f)(rhs=I), "default argument of " + f)
    g.check(G.isSE3(H(TA)) and G.isSO3(H(TA[:3, :3])), "valid transformation rejected")
    M = TA.copy(); i, j = g.raw(2), g.raw(2); M[i, j] += g.pick([0.1, -0.3, 1.0]); g.check(not G.isSO3(H(M[:3, :3])) and not G.isSE3(H(M)), "invalid rotation accepted", lambda: str(M))
    M = TA.copy(); M[3, g.raw(2)] = g.pick([1.0, -0.5]); g.check(not G.isSE3(H(M)), "last row")
    H.untouched()


@prop("S02", "updates_and_snapshots", 3)
def updates(g):
    H = Handed(g, True); A, T = make(g, H); C = SE3(A); T0 = T.copy(); shots = []; g.nontrivial(); g.d("start", T)
    def shoot():
        for a in (A.T(), A.R(), A.t(), A.adj(), A.Ln(), A.inv().T()): shots.append((a, a.copy()))
    shoot()
    for _ in range(g.in_range(1, 5)):
        x = twist(g, 3.0, 3); k = g.raw(3); g.d("update", k, x)
        if k == 0: A.update(lay1(g, H, x)); T = exp6(x) @ T
        elif k == 1: A.update_lhs(H(x)); T = exp6(x) @ T
        elif k == 2: A.update_rhs(H(x)); T = T @ exp6(x)
        else:
            M = A.T(); M[:3, :] = 9.0; V = A.t(); V += 100; W = A.R(); W[0, 0] = -7   # writing into what was returned
        g.close("update", A.T(), T, 1e-11 * scale(T) ** 2)
        if g.coin(): shoot()
    for a, b in shots: g.check(np.array_equal(a, b), "returned array changed later", lambda: "%s was %s" % (a, b))
    g.close("copy is independent", C.T(), T0, 1e-12 * scale(T0)); H.untouched()


@prop("S02", "rotations", 3)
def rotations(g):
    H = Handed(g, True); a, b = rotvec(g), rotvec(g); RA, RB = exp3(a), exp3(b); A = SO3(lay1(g, H, a)) if g.coin() else SO3(H(RA)); B = SO3(SO3(H(RB))); g.d(a, b); g.nontrivial(np.linalg.norm(a) > 1e-9); tol = 1e-13 * 10
    g.check(np.array_equal(SO3().R(), np.eye(3)), "identity")
    g.close("R", A.R(), RA, tol); g.close("mul", A.mul(B).R(), RA @ RB, tol); g.close("inv", A.inv().R(), RA.T, tol); g.close("adj", A.adj(), RA, tol); log_ok(g, "Ln", A.Ln(), RA)
    g.close("distance", A.distance(B), angle(RA @ RB.T), 2e-6 if angle(RA @ RB.T) > 3.1 else 1e-7)
    keep = A.R(); k0 = keep.copy(); C = SO3(A); x = rotvec(g, 3.0); k = g.raw(2); [A.update, A.update_lhs, A.update_rhs][k](lay1(g, H, x)); want = exp3(x) @ RA if k < 2 else RA @ exp3(x); g.close("update", A.R(), want, tol); g.check(np.array_equal(keep, k0), "snapshot"); g.close("copy", C.R(), RA, tol)
    g.close("hat3", G.hat3(lay1(g, H, a)), hat(a), 0); x6 = twist(g); W = np.zeros((4, 4)); W[:3, :3] = hat(x6[:3]); W[:3, 3] = x6[3:]; g.close("hat6", G.hat6(H(x6)), W, 0); g.close("curley_wedge", G.curley_wedge(H(x6)), ad(x6), 0)
    q = quat(RA) * (g.pick([1.0, -1.0, 2.0, 0.25]) if g.coin() else 1.0); g.close("quat_to_so3", G.quat_to_so3(H(q)), RA, tol * 10); p = np.asarray(G.so3_to_quat(H(RA))); g.check(p.shape == (4,), "quaternion shape"); g.close("unit quaternion", np.linalg.norm(p), 1, 1e-12); g.close("so3_to_quat", p * np.sign(p @ quat(RA)), quat(RA), 1e-9)
    v = np.array([g.sym(math.pi), g.sym(1.5), g.sym(math.pi)]); g.close("rpy_to_so3", G.rpy_to_so3(H(v)), exp3([v[0], 0, 0]) @ exp3([0, v[1], 0]) @ exp3([0, 0, v[2]]), tol); H.untouched()


@prop("S02", "uncertain_poses", 2)
def uncertain(g):
    H = Handed(g, True); A, TA = make(g, H); B, TB = make(g, H); S1, S2 = (spd(g, 6, 1e-3, 0.5, True) for _ in range(2)); a, b = SE3Cov(A, H(S1)), SE3Cov(B, H(S2)); g.nontrivial(); g.d(TA, TB, S1, S2); Z = SE3Cov(); g.check(np.array_equal(Z.T(), np.eye(4)), "default pose")
    g.close("pose", a.T(), TA, 1e-12 * scale(TA)); g.close("cov", a.cov(), S1, 0); s = scale(TA) ** 2; want = S1 + Ad(TA) @ S2 @ Ad(TA).T; TAB = TA @ TB; tol = 1e-12 * s; w4 = fourth(TA, S1, S2); keep = a.cov(); k0 = keep.copy()
    for nm, c in (("compound_2nd_order", a.compound_2nd_order(b)), ("compound_2nd_order(pose, cov)", a.compound_2nd_order(B, H(S2))), ("mul", a.mul(b)), ("*", a * b)):
        g.check(type(c) is SE3Cov, "type of " + nm); g.close(nm + " pose", c.T(), TAB, 1e-12 * scale(TA, TB) ** 2); g.close(nm, c.cov(), want, tol)
    for nm, c in (("compound_4th_order", a.compound_4th_order(b)), ("compound_4th_order(pose, cov)", a.compound_4th_order(B, H(S2)))):
        g.close(nm + " pose", c.T(), TAB, 1e-12 * scale(TA, TB) ** 2); g.close(nm, c.cov(), w4, 1e-11 * s * s)
    c = SE3Cov(a); a.update_lhs(twist(g, 1.0, 1)); g.close("copy", c.T(), TA, 1e-12 * scale(TA)); g.check(np.array_equal(keep, k0) and np.array_equal(c.cov(), k0), "covariance snapshot"); g.close("inherited transform", b.transform(H(np.ones(3))), TB[:3, :3] @ np.ones(3) + TB[:3, 3], 1e-11 * scale(TB)); H.untouched()


def kabsch(X, Y, w=None):
    w = np.ones(len(X)) if w is None else w; cx, cy = w @ X / w.sum(), w @ Y / w.sum(); M = (X - cx).T * w @ (Y - cy); U, S, Vt = np.linalg.svd(M); d = np.sign(np.linalg.det(Vt.T @ U.T)); Q = Vt.T @ np.diag([1, 1, d]) @ U.T; T = np.eye(4); T[:3, :3] = Q; T[:3, 3] = cy - Q @ cx
    gap = (S[1] + d * S[2]) / S[0] if S[0] > 0 else 0
    return T, gap


def cloud(g, n, lo=3):
    off = vec3(g, g.pick([0.0, 1.0, 5.0])); k = g.weighted([3, 1]); X = np.array([vec3(g, 1) for _ in range(n)])
    if k == 1: X = X @ exp3(rotvec(g)) @ np.diag([1, 1, 0.0])
    return X @ exp3(rotvec(g)) * g.pick([1.0, 0.3, 3.0]) + off


@prop("S02", "alignment", 3)
def alignment(g):
    H = Handed(g); n = g.in_range(4, max(5, g.size)) if g.chance(49, 50) else g.in_range(50, 600); X = cloud(g, n); noise = g.pick([0.0, 0.0, 1e-3, 0.05]); m = g.raw(2); T = exp6(twist(g, 3.0 if m == 0 else 0.3, 3 if m == 0 else 0.3)); Y = X @ T[:3, :3].T + T[:3, 3]
    if noise: Y = Y + np.array([vec3(g, noise) for _ in range(n)])
    g.label(("arun", "weighted", "gicp")[m]); g.d("X", X, "Y", Y); s = scale(X, Y)
    spread = np.linalg.svd(X - X.mean(0), compute_uv=False)[1] / math.sqrt(n)
    if m and spread < max(0.2, 6 * noise): return   # the iterative methods start at the identity and need a determined problem
    if m == 0:
        W, gap = kabsch(X, Y); res = R.arun(H(X), H(Y)); g.check(type(res) is SE3, "type")
        if gap < 1e-3: return
        g.nontrivial(); g.close("arun", res.T(), W, 1e-9 * s / gap)
    elif m == 1:
        w = np.array([g.logmag(0.1, 5) for _ in range(n)]); W, gap = kabsch(X, Y, w)
        if gap < 1e-2: return
        res = R.weighted(H(X), H(Y), H(w) if g.coin() else H(w.reshape(-1, 1))); g.nontrivial(); cost = lambda A: float(w @ ((Y - X @ A[:3, :3].T - A[:3, 3]) ** 2).sum(1)); c0, c1 = cost(W), cost(res.T())
        g.check(c1 <= c0 * 1.02 + 1e-5 * s * s * w.sum() / gap, "weighted is not minimal", lambda: "cost %g although %g is attainable" % (c1, c0))
        if noise == 0: g.close("weighted", res.T(), W, 2e-3 * s / gap)
    else:
        if noise == 0.05: noise = 0; Y = X @ T[:3, :3].T + T[:3, 3]
        iso = g.chance(1, 3); CX = [np.eye(3) * 0.1 if iso else spd(g, 3, 0.05, 1.0) for _ in range(n)]; CY = [np.eye(3) * 0.4 if iso else spd(g, 3, 0.05, 1.0) for _ in range(n)]; W, gap = kabsch(X, Y)
        if gap < 1e-2: return
        res = R.gicp(H(X), H(Y), H(np.vstack(CX)), H(np.vstack(CY))); g.nontrivial(); g.close("gicp", res.T(), W, (2e-3 + 20 * noise) * s / gap)
        # the metric: the normal equations are satisfied at the solution
        A = res.T(); b = np.zeros(6); N = np.zeros((6, 6))
        for i in range(n):
            z = A[:3, :3] @ X[i] + A[:3, 3]; J = np.hstack([hat(z), -np.eye(3)]); V = np.linalg.inv(CY[i] + A[:3, :3] @ CX[i] @ A[:3, :3].T); b += J.T @ V @ (Y[i] - z); N += J.T @ V @ J
        if np.linalg.cond(N) < 1e5: g.close("gicp normal equations", np.linalg.norm(np.linalg.solve(N, b)), 0, 2e-3 * s)
    H.untouched()


@prop("S02", "plane_estimation", 2)
def planes(g):
    H = Handed(g); n = g.in_range(4, max(5, g.size)) if g.chance(49, 50) else g.in_range(50, 600); T = exp6(twist(g, 3.0, g.pick([0.0, 1.0, 10.0]))); noise = g.pick([0.0, 1e-3, 0.02]); P = np.array([[g.sym(1), g.sym(1), g.sym(noise) if noise else 0.0] for _ in range(n)]) @ T[:3, :3].T + T[:3, 3]; g.d(P)
    c = P.mean(0); e, V = np.linalg.eigh((P - c).T @ (P - c)); g.close("centroid", R.estimate_centroid(H(P)), c, 1e-12 * scale(P))
    if e[1] < 0.05 * n or e[1] < 50 * e[0]: return
    g.nontrivial(); nrm = V[:, 0]; m = np.asarray(R.estimate_normal(H(P))); g.check(m.shape == (3,), "normal shape"); g.close("normal", m * np.sign(m @ nrm), nrm, 1e-9 * scale(P) ** 2)
    pi = np.asarray(R.estimate_plane(H(P))); g.check(pi.shape == (4,), "plane shape"); pi = pi * np.sign(pi[:3] @ nrm); g.close("plane", pi, np.append(nrm, -nrm @ c), 1e-8 * scale(P) ** 2); H.untouched()


def lmin(S): return float(np.linalg.eigvalsh(S)[0])


@prop("S02", "plane_registration", 3)
def registration(g):
    H = Handed(g); N, P = g.in_range(2, 5), g.in_range(1, 5); r = R.PlaneRegistration(); r.set_number_planes_and_poses(P, N); pts = {}; traj = [np.eye(4)] * N; g.d(P, "planes", N, "poses")
    ids = [i * g.pick([1, 3]) + g.raw(1) * 100 for i in range(P)]; ids = sorted(set(ids))
    for i in ids: r.add_plane(i); pts[i] = [[] for _ in range(N)]
    errs = lambda: sum(lmin(sum((traj[t] @ np.outer(h, h) @ traj[t].T for t in range(N) for h in (np.append(x, 1) for x in pts[i][t])), np.zeros((4, 4)))) for i in pts)
    mag = lambda: 1e-9 + sum((1 + np.linalg.norm(traj[t][:3, 3])) ** 2 * (1 + x @ x) for i in pts for t in range(N) for x in pts[i][t])
    ops = 0; shots = []
    for _ in range(g.in_range(2, max(3, g.size))):
        k = g.weighted([8, 1, 2, 2, 1, 1])
        if k == 0:
            i, t = g.pick(ids), g.raw(N - 1)
            for _ in range(g.in_range(1, 4)): x = vec3(g, 3); r.plane_push_back_point(i, t, lay1(g, H, x)); pts[i][t].append(x)
            ops += 1; g.d("points", i, t)
        elif k == 1:
            x = twist(g, 2.5, 3); r.initialize_last_pose_solution(SE3(x)); w = log6(exp6(x)); traj = [exp6(w * t / (N - 1)) for t in range(N)]; g.d("last pose", x); ops += 1
        elif k == 2:
            tol = 1e-11 * mag(); e = errs(); g.close("error", r.get_error(), e, tol); g.close("get_plane_error", r.get_plane_error(), e, tol)
        elif k == 3:
            t = g.raw(N - 1); got = np.array(r.get_point_cloud(t)).reshape(-1, 3); want = [x for i in ids for x in pts[i][t]]
            g.check(sorted(map(tuple, got)) == sorted(map(tuple, want)), "point cloud", lambda: "%d points instead of %d at %d" % (len(got), len(want), t)); shots.append((got, got.copy()))
        elif k == 4:
            for t in range(N): g.close("trajectory", r.get_trajectory(t).T(), traj[t], 1e-11 * scale(traj[t]))
            L = r.get_last_pose(); g.close("last pose", L.T(), traj[-1], 1e-11 * scale(traj[-1])); L.update_lhs(twist(g, 1.0, 1)); g.close("last pose is a copy", r.get_last_pose().T(), traj[-1], 1e-11 * scale(traj[-1])); Q = r.get_trajectory(0); Q.update_lhs(np.ones(6)); g.close("trajectory is a copy", r.get_trajectory(0).T(), traj[0], 1e-11)
            g.check(r.get_number_poses() == N, "number of poses")
        else:
            r.reset_solution(); traj = [np.eye(4)] * N; g.d("reset")
    for a, b in shots: g.check(np.array_equal(a, b), "snapshot")
    g.nontrivial(ops > 2); H.untouched()


@prop("S02", "synthetic_scenes", 1)
def scenes(g):
    n, P, N = g.in_range(60, 150), g.in_range(4, 7), g.in_range(2, 4); noisy = g.coin(); c = R.CreatePoints(n, P, N, 0.01 if noisy else 0.0, g.pick([0.0, 0.1])); gt = [c.get_trajectory(t).T() for t in range(N)]; g.d(n, P, N, noisy); g.nontrivial()
    g.check(np.allclose(gt[0], np.eye(4)), "starts at the identity"); g.close("last pose", c.get_ground_truth_last_pose().T(), gt[-1], 1e-9 * scale(gt[-1])); by = {}
    for t in range(N):
        X, ids = np.array(c.get_point_cloud(t)).reshape(-1, 3), list(c.get_point_plane_ids(t)); g.check(len(X) == n and len(ids) == n and all(0 <= i < P for i in ids), "labels")
        for x, i in zip(X, ids): by.setdefault(i, []).append(gt[t][:3, :3] @ x + gt[t][:3, 3])
    for i, v in by.items():
        v = np.array(v); s = np.linalg.svd(v - v.mean(0), compute_uv=False); g.check(s[-1] <= (0.1 if noisy else 1e-9) * math.sqrt(len(v)) * (1 if noisy else 10), "points of plane %d are not coplanar in the world" % i, lambda: str(s))
    r = R.PlaneRegistration(); c.create_plane_registration(r); g.check(r.get_number_poses() == N, "poses"); tot = sum(len(r.get_point_cloud(t)) for t in range(N)); g.check(tot == n * N, "all points handed over", "%d of %d" % (tot, n * N))
    for t in range(N): g.check(sorted(map(tuple, np.array(r.get_point_cloud(t)))) == sorted(map(tuple, np.array(c.get_point_cloud(t)))), "clouds agree")
    if angle(gt[-1][:3, :3]) > 3.0: return
    def truth():
        T = [r.get_trajectory(t).T() for t in range(N)]; q = {}
        for t in range(N):
            for x, i in zip(c.get_point_cloud(t), c.get_point_plane_ids(t)): h = T[t] @ np.append(np.asarray(x).ravel(), 1); q[i] = q.get(i, 0) + np.outer(h, h)
        return sum(lmin(S) for S in q.values())
    m = n * N * 50 * scale(*gt) ** 2; e0 = r.get_error(); g.close("error", e0, truth(), 1e-11 * m); mode = g.pick([R.LM_SPHER, R.LM_ELLIP]); its = r.solve(mode, False) if g.coin() else r.solve(mode=mode, singleIteration=False); e1 = r.get_error(); g.check(e1 <= e0 * (1 + 1e-9) + 1e-9 * m, "solving increased the error", "%g -> %g" % (e0, e1)); g.close("error after", e1, truth(), 1e-11 * m)
    r.reset_solution(); g.close("reset", r.get_error(), e0, 1e-11 * m); r.initialize_last_pose_solution(c.get_ground_truth_last_pose()); g.close("error at the truth", r.get_error(), truth(), 1e-11 * m)
    if not noisy: g.close("truth has no error", r.get_error(), 0, 1e-11 * m)


if __name__ == "__main__": main()
