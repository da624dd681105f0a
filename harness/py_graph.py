"""S03: the Python factor-graph interface, driven by generated call histories next to a reference model."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "pystub")); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from pypbt import prop, main
from pyref import *
import mrob
SE3 = mrob.geometry.SE3
DIM = {"p2": 3, "p3": 6, "l2": 2, "l3": 3, "pl": 4}
ROB = {"QUADRATIC": 0, "HUBER": 1, "CAUCHY": 2, "MCCLURE": 3}


def weight(rob, u):
    return {"QUADRATIC": 1.0, "HUBER": 1.0 if u < 1 else 1 / u, "CAUCHY": 1 / (1 + u * u), "MCCLURE": 1 / (1 + u * u) ** 2}[rob]


def act(T, p): return T[:3, :3] @ p + T[:3, 3]


def upd(k, x, dx):
    if k == "p3": return exp6(dx) @ x
    y = x + dx
    if k == "p2": y[2] = wrap(y[2])
    if k == "pl": y = y / np.array([np.linalg.norm(y[:3])] * 3 + [1.0])
    return y


class Factor:
    def __init__(s, k, ids, obs, W):
        if k == "2p3" and ids[0] > ids[1]: ids, obs = ids[::-1], inv4(obs)   # the library keeps the variables in order of creation
        s.k, s.ids, s.obs, s.W = k, ids, obs, W

    def residual(s, X):
        x = [X[i] for i in s.ids]; o = s.obs
        if s.k == "1p2": r = x[0] - o; r[2] = wrap(r[2]); return r
        if s.k == "2p2":
            c, q = math.cos(x[0][2]), math.sin(x[0][2]); d = x[1] - x[0]; return np.array([c * d[0] + q * d[1] - o[0], -q * d[0] + c * d[1] - o[1], wrap(d[2] - o[2])])
        if s.k == "odo": th = x[0][2] + o[0]; return np.array([x[0][0] + o[1] * math.cos(th) - x[1][0], x[0][1] + o[1] * math.sin(th) - x[1][1], wrap(th + o[2] - x[1][2])])
        if s.k == "l2": d = x[1] - x[0][:2]; return np.array([math.hypot(*d) - o[0], wrap(math.atan2(d[1], d[0]) - x[0][2] - o[1])])
        if s.k == "1p3": return log6(x[0] @ inv4(o))
        if s.k == "2p3": return log6(x[0] @ o @ inv4(x[1]))
        if s.k == "l3": return act(inv4(x[0]), x[1]) - o
        if s.k == "pl": p = x[0].T @ x[1]; q = o / np.array([np.linalg.norm(o[:3])] * 3 + [1.0]); return p + q if p[3] < 0 else p - q
        if s.k == "p2p": return np.array([o[6:] @ (act(x[0], o[:3]) - o[3:6])])

    def jacobians(s, X):
        """one block per variable; the 3D pose measurements are linearised about a zero residual, the others differentiated"""
        if s.k == "1p3": return [np.eye(6)]
        if s.k == "2p3": return [np.eye(6), -Ad(X[s.ids[0]] @ s.obs @ inv4(X[s.ids[1]]))]
        out = []
        for j, i in enumerate(s.ids):
            k = KIND[s.k][j]; J = []
            for c in range(DIM[k]):
                e = np.zeros(DIM[k]); h = 1e-5; v = []
                for m in (1, -1, 2, -2):
                    e[c] = m * h
                    Y = dict((q, X[q]) for q in s.ids); Y[i] = X[i] + e if k != "p3" else exp6(e) @ X[i]; v.append(s.residual(Y))
                d1, d2 = v[0] - v[1], v[2] - v[3]
                if s.k in ("l2", "1p2", "2p2", "odo"):
                    a = 1 if s.k == "l2" else 2; d1[a], d2[a] = wrap(d1[a]), wrap(d2[a])
                J.append((8 * d1 - d2) / (12 * h))
            out.append(np.array(J).T)
        return out


KIND = {"1p2": ["p2"], "2p2": ["p2", "p2"], "odo": ["p2", "p2"], "l2": ["p2", "l2"], "1p3": ["p3"], "2p3": ["p3", "p3"], "l3": ["p3", "l3"], "pl": ["p3", "pl"], "p2p": ["p3"]}
OBS = {"1p2": 3, "2p2": 3, "odo": 3, "l2": 2, "1p3": 6, "2p3": 6, "l3": 3, "pl": 4, "p2p": 1}


class Model:
    def __init__(s, g, rob):
        s.g, s.rob, s.kind, s.anchor, s.X, s.f, s.H = g, rob, [], [], [], [], Handed(g)
        s.G = mrob.FGraph() if rob == "QUADRATIC" and g.coin() else mrob.FGraph(getattr(mrob, rob)) if g.coin() else mrob.FGraph(robust_type=getattr(mrob, rob))

    # ---- variables
    def node(s, k, x, anchor):
        g, H, G = s.g, s.H, s.G; y = SE3(H(x)) if k == "p3" else H(x) if g.chance(4, 5) else H(x.reshape(-1, 1)); add = {"p2": G.add_node_pose_2d, "p3": G.add_node_pose_3d, "l2": G.add_node_landmark_2d, "l3": G.add_node_landmark_3d, "pl": G.add_node_plane_4d}[k]
        i = add(y, mrob.NODE_ANCHOR) if anchor and g.coin() else add(y, mode=mrob.NODE_ANCHOR) if anchor else add(y) if g.coin() else add(x=y, mode=mrob.NODE_STANDARD)
        g.check(i == len(s.X), "node id", "id %s for variable %d" % (i, len(s.X))); s.kind.append(k); s.anchor.append(anchor); s.X.append(x.copy()); g.d("node", i, k, "anchor" if anchor else "", x)
        return i

    # ---- measurements
    def factor(s, k, ids, obs, W, init):
        g, H, G = s.g, s.H, s.G; f = Factor(k, ids, obs, W); g.d(k, ids, "obs", obs, "W", W, "init" if init else ""); w = H(W); o = obs if k in ("1p3", "2p3") else H(obs) if g.chance(4, 5) else H(obs.reshape(-1, 1)); n = len(s.f); a = ids[0]; b = ids[-1]; kw = g.coin()
        if k in ("1p3", "2p3"): o = SE3(H(obs))
        if k == "1p2": r = G.add_factor_1pose_2d(o, a, w)
        elif k == "1p3": r = G.add_factor_1pose_3d(o, a, w)
        elif k == "odo": r = G.add_factor_2poses_2d_odom(o, a, b, w) if not kw else G.add_factor_2poses_2d_odom(obs=o, nodeOriginId=a, nodeTargetId=b, obsInvCov=w); init = True
        elif k == "p2p": r = G.add_factor_1pose_point2plane(H(obs[:3]), H(obs[3:6]), H(obs[6:]), a, w if g.coin() else H(W.reshape(1)))
        elif k == "pl": r = G.add_factor_1pose_1plane_4d(o, a, b, w) if not kw else G.add_factor_1pose_1plane_4d(obs=o, nodePoseId=a, nodeLandmarkId=b, obsInvCov=w)
        else:
            add = {"2p2": G.add_factor_2poses_2d, "2p3": G.add_factor_2poses_3d, "l2": G.add_factor_1pose_1landmark_2d, "l3": G.add_factor_1pose_1landmark_3d}[k]; name = "updateNodeTarget" if k in ("2p2", "2p3") else "initializeLandmark"
            r = add(o, a, b, w) if not init else add(o, a, b, w, True) if not kw else add(o, a, b, w, **{name: True})
        if r is not None: g.check(r == n, "factor id", "id %s for measurement %d" % (r, n))
        s.f.append(f)
        if init:
            x = s.X[a]
            if k == "2p2" : c, q = math.cos(x[2]), math.sin(x[2]); s.X[b] = np.array([x[0] + c * obs[0] - q * obs[1], x[1] + q * obs[0] + c * obs[1], wrap(x[2] + obs[2])])
            elif k == "odo": th = x[2] + obs[0]; s.X[b] = np.array([x[0] + obs[1] * math.cos(th), x[1] + obs[1] * math.sin(th), wrap(th + obs[2])])
            elif k == "2p3": s.X[b] = x @ obs
            elif k == "l2": th = x[2] + obs[1]; s.X[b] = np.array([x[0] + obs[0] * math.cos(th), x[1] + obs[0] * math.sin(th)])
            elif k == "l3": s.X[b] = act(x, obs)

    # ---- queries
    def dists(s): return [math.sqrt(max(0, f.residual(s.X) @ f.W @ f.residual(s.X))) for f in s.f]
    def cost(s): return 0.5 * sum(u * u for u in s.dists())

    def check_state(s, tol, what="state"):
        g = s.g; E = s.G.get_estimated_state(); g.check(isinstance(E, list) and len(E) == len(s.X), "length of the state", "%d entries for %d variables" % (len(E), len(s.X)))
        for i, (e, x) in enumerate(zip(E, s.X)):
            e = np.asarray(e); e = e if s.kind[i] == "p3" else e.reshape(-1); d = e - x if e.shape == x.shape else g.fail(what, "variable %d has shape %s" % (i, e.shape))
            if s.kind[i] == "p2": d[2] = wrap(d[2])
            if not (np.abs(d) <= tol * (1 + np.abs(x).max())).all(): g.fail(what, "variable %d (%s) is %s, expected %s" % (i, s.kind[i], e, x))
        return E

    def check_chi2(s, scale=1e-10):
        g = s.g; c = s.cost(); m = 1e-9 + sum(np.abs(f.W).sum() for f in s.f) * 1e-7; tol = scale * (c + 1) + 1e-13 * sum(np.abs(f.W).sum() for f in s.f) * 1e3 + math.sqrt(c) * 1e-9; a = s.G.chi2() if g.coin() else s.G.chi2(evaluateResidualsFlag=True); g.close("chi2", a, c, tol); g.close("chi2 without evaluation", s.G.chi2(False), c, tol)
        v = np.asarray(s.G.get_chi2_array()).reshape(-1); g.check(len(v) == len(s.f), "length of the chi2 array"); g.close("chi2 array", v, np.array([0.5 * u * u for u in s.dists()]), tol)

    def resync(s):
        for i, e in enumerate(s.G.get_estimated_state()): e = np.asarray(e); s.X[i] = np.array(e if s.kind[i] == "p3" else e.reshape(-1))

    def system(s):
        col, n = {}, 0
        for i, k in enumerate(s.kind):
            if not s.anchor[i]: col[i] = n; n += DIM[k]
        m = sum(OBS[f.k] for f in s.f); A, W, r, q = np.zeros((m, n)), np.zeros((m, m)), np.zeros(m), 0
        for f in s.f:
            d = OBS[f.k]; r[q:q + d] = e = f.residual(s.X); W[q:q + d, q:q + d] = f.W * weight(s.rob, math.sqrt(max(0, e @ f.W @ e)))
            for i, J in zip(f.ids, f.jacobians(s.X)):
                if i in col: A[q:q + d, col[i]:col[i] + DIM[s.kind[i]]] = J
            q += d
        return A, W, r, col

    def gn(s):
        """a Gauss-Newton step with the reference; compares everything the solver reports"""
        g = s.g; A, W, r, col = s.system(); L = A.T @ W @ A; b = A.T @ W @ r; sv = np.linalg.svd(L, compute_uv=False); c = sv[0] / sv[-1] if sv[-1] > 1e-12 * sv[0] else math.inf
        k = g.raw(3); G = s.G; g.d("GN")
        if k == 0: G.solve()
        elif k == 1: G.solve(mrob.GN)
        elif k == 2: G.solve(method=mrob.GN, maxIters=7)
        else: G.solve(mrob.GN, 1, 0.5, 1e-3)
        if not c < 1e8: g.label("singular or ill-conditioned"); s.resync(); return False
        la = 1 + np.abs(A.T) @ W @ np.abs(A); la = np.abs(la).max() + np.abs(L).max()
        sa, sw, sl, sb = G.get_adjacency_matrix(), G.get_W_matrix(), G.get_information_matrix(), np.asarray(G.get_vector_b()).reshape(-1)
        g.close("adjacency", sa.toarray(), A, 1e-7 * (1 + np.abs(A).max())); w = sw.toarray(); w = np.triu(w) + np.triu(w, 1).T; g.close("W", w, W, 1e-8 * (1 + np.abs(W).max())); l = sl.toarray(); l2 = np.tril(l) + np.tril(l, -1).T
        g.close("information matrix", l2 if np.abs(l - L).max() > 1e-7 * la else l, L, 1e-7 * la); g.close("vector b", sb, b, 1e-7 * (1 + np.abs(A.T) @ np.abs(W) @ np.abs(r)).max())
        dx = np.linalg.solve(L, b); old = [x.copy() for x in s.X]
        for i, j in col.items(): s.X[i] = upd(s.kind[i], s.X[i], -dx[j:j + DIM[s.kind[i]]])
        tol = min(1e-3, 1e-7 * (1 + np.abs(dx).max()) * (1 + c * 1e-4)); s.check_state(tol, "state after a Gauss-Newton step"); s.resync()
        for i, x in enumerate(old):
            if s.anchor[i]: g.check(np.abs(s.X[i] - x).max() <= 1e-14 * (1 + np.abs(x).max()), "anchor moved")
        return np.abs(dx).max() > 1e-9


def observe(g, k, x, noise):
    e = lambda n: np.array([g.sym(noise) for _ in range(n)]) if noise else np.zeros(n)
    if k == "1p2": return x[0] + e(3)
    if k == "2p2": c, s = math.cos(x[0][2]), math.sin(x[0][2]); d = x[1] - x[0]; return np.array([c * d[0] + s * d[1], -s * d[0] + c * d[1], wrap(d[2])]) + e(3)
    if k == "odo": d = x[1] - x[0]; h = math.atan2(d[1], d[0]); return np.array([wrap(h - x[0][2]), math.hypot(d[0], d[1]), wrap(x[1][2] - h)]) + e(3)
    if k == "l2": d = x[1] - x[0][:2]; return np.array([math.hypot(*d), wrap(math.atan2(d[1], d[0]) - x[0][2])]) + e(2)
    if k == "1p3": return exp6(e(6)) @ x[0]
    if k == "2p3": return inv4(x[0]) @ exp6(e(6)) @ x[1]
    if k == "l3": return act(inv4(x[0]), x[1]) + e(3)
    if k == "pl":
        p = x[0].T @ x[1]; p = -p if p[3] < 0 else p; p = p + e(4); p = p / np.array([np.linalg.norm(p[:3])] * 3 + [1.0]); return -p if p[3] < 0 else p
    if k == "p2p":
        a, n = vec3(g, 5), unit3(g); y = act(x[0], a); t = vec3(g, 3); return np.concatenate([a, y + t - n * (n @ t) + n * (e(1)[0]), n])


def gen_state(g, k):
    if k == "p2": return np.array([g.sym(5), g.sym(5), g.sym(math.pi - 1e-9) if g.chance(5, 6) else g.pick([math.pi - 1e-9, -math.pi + 1e-6, 0.0, math.pi / 2])])
    if k == "p3": T = exp6(np.concatenate([rotvec(g), np.zeros(3)])); T[:3, 3] = vec3(g, 5); return T
    if k == "l2": return np.array([g.sym(5), g.sym(5)])
    if k == "l3": return vec3(g, 5)
    n = unit3(g); return np.append(n, g.sym(5))


def usable(k, x):
    """inside the domain of the measurement, away from its singularities"""
    if k in ("l2", "odo"): return math.hypot(x[1][0] - x[0][0], x[1][1] - x[0][1]) > 0.3
    if k == "pl": return abs((x[0].T @ x[1])[3]) > 0.3
    return True


def away(s, f, lim=3.05):
    """residual angles away from the cut, so that rounding does not decide the branch"""
    r = f.residual(s.X)
    return {"1p2": abs(r[2]) if f.k == "1p2" else 0, "2p2": abs(r[-1]), "odo": abs(r[-1]), "l2": abs(r[-1]), "1p3": np.linalg.norm(r[:3]), "2p3": np.linalg.norm(r[:3])}.get(f.k, 0) < lim


def info(g, k): return spd(g, OBS[k], 0.1, 5.0)


@prop("S03", "call_histories", 4)
def histories(g):
    s = Model(g, g.pick(["QUADRATIC", "QUADRATIC", "HUBER", "CAUCHY", "MCCLURE"])); g.label(s.rob); worlds = g.pick([["p2", "l2"], ["p3", "l3", "pl"], ["p2", "l2", "p3", "l3", "pl"]]); kinds = [k for k in KIND if KIND[k][0] in worlds]; steps = 0; shots = []
    for _ in range(g.in_range(3, g.size + 4)):
        op = g.weighted([5, 9, 2, 2, 2, 1])
        if op == 0 or not s.X:
            k = worlds[0] if not s.X else g.pick(worlds); i = s.node(k, gen_state(g, k), g.chance(1, 6))
            if g.chance(7, 8):   # most variables get one measurement right away, so that most systems can be solved
                k = {"p2": "1p2", "p3": "1p3", "l2": "l2", "l3": "l3", "pl": "pl"}[k]; cand = [j for j in range(i) if s.kind[j] == KIND[k][0]]; ids = [i] if len(KIND[k]) == 1 else [g.pick(cand), i] if cand else None
                if ids and usable(k, [s.X[j] for j in ids]):
                    obs = observe(g, k, [s.X[j] for j in ids], g.pick([0.0, 0.1, 0.5]))
                    if k != "l2" or obs[0] > 0.3: s.factor(k, ids, obs, info(g, k), False)
        elif op == 1:
            k = g.pick(kinds); cand = [[i for i in range(len(s.X)) if s.kind[i] == t] for t in KIND[k]]
            if not all(cand): continue
            ids = [g.pick(c) for c in cand]
            if len(ids) == 2 and ids[0] == ids[1]: continue
            if k == "odo" and ids[0] > ids[1]: ids.reverse()
            x = [s.X[i] for i in ids]
            if not usable(k, x): continue
            init = k in ("2p2", "2p3", "l2", "l3") and not s.anchor[ids[-1]] and g.chance(1, 4)
            if k == "odo" and s.anchor[ids[1]]: continue
            obs = observe(g, k, [gen_state(g, t) for t in KIND[k]] if init else x, g.pick([0.0, 0.1, 0.5]))
            if k in ("l2", "odo") and obs[0 if k == "l2" else 1] < 0.3: continue
            f = Factor(k, ids, obs, info(g, k))
            if (init or k == "odo"):
                # moving the target must keep the other measurements inside their domain: only a target seen by nothing else
                if any(ids[-1] in q.ids for q in s.f): continue
            s.factor(k, ids, obs, f.W, init)
            s.check_state(1e-12, "state after adding a measurement")
        elif op == 2:
            E = s.check_state(1e-12); shots.append(([np.asarray(e) for e in E], [np.array(e) for e in E]))
        elif op == 3 and s.f and all(away(s, f) for f in s.f): s.check_chi2()
        elif op == 4 and s.f and not all(s.anchor):
            if not all(away(s, f, 2.5) for f in s.f) or not all(usable(f.k, [s.X[i] for i in f.ids]) for f in s.f): continue
            moved = s.gn(); steps += 1; g.nontrivial(moved and len(s.f) > 2)
            if not all(np.isfinite(x).all() for x in s.X) or max(np.abs(x).max() for x in s.X) > 1e3: break
        else: g.check(s.G.number_nodes() == len(s.X) and s.G.number_factors() == len(s.f), "counts", lambda: "%d %d" % (s.G.number_nodes(), s.G.number_factors()))
    s.check_state(1e-12); s.H.untouched()
    for got, was in shots:
        for a, b in zip(got, was): g.check(np.array_equal(a, b), "snapshot changed", lambda: "%s was %s" % (a, b))


@prop("S03", "solving", 3)
def solving(g):
    """well-posed graphs: exact measurements are met, the cost never grows under Levenberg-Marquardt, anchors stay"""
    three = g.coin(); rob = "QUADRATIC" if g.chance(2, 3) else g.pick(["HUBER", "CAUCHY"]); s = Model(g, rob); noise = g.pick([0.0, 0.02]); pk = "p3" if three else "p2"; n = g.in_range(1, 4); truth = []; anchor = g.coin()
    def add(k, a=False):
        x = gen_state(g, k); truth.append(x); d = np.array([g.sym(0.05) for _ in range(DIM[k])]); s.node(k, x if a else upd(k, x, d), a); return len(truth) - 1
    poses = [add(pk, anchor and i == 0) for i in range(n)]
    def fac(k, ids):
        x = [truth[i] for i in ids]
        if not usable(k, x): return False
        s.factor(k, ids, observe(g, k, x, noise), info(g, k), False); return True
    if not anchor: fac("1p3" if three else "1p2", [poses[0]])
    for i in range(1, n): a, b = poses[g.raw(i - 1)], poses[i]; fac("2p3" if three else "2p2", [a, b] if g.coin() else [b, a])
    for _ in range(g.in_range(0, 3)):
        k = "l3" if three else "l2"; l = add(k)
        for p in poses: fac(k, [p, l])
    for _ in range(g.in_range(0, 2)): fac("1p3" if three else "1p2", [g.pick(poses)])
    used = {i for f in s.f for i in f.ids}
    if not s.f or len(used) < len(truth) or all(s.anchor): return
    A, W, r, _ = s.system(); sv = np.linalg.svd(A.T @ W @ A, compute_uv=False)
    if sv[0] > 1e5 * sv[-1]: return
    g.nontrivial(); c0 = s.cost(); s.check_chi2(); E0 = s.G.get_estimated_state(); keep = [np.array(e) for e in E0]; old = [x.copy() for x in s.X]
    if g.coin(): s.G.solve(mrob.LM, 40, g.pick([1e-6, 1e-2]), 1e-12); g.label("LM")
    elif g.coin(): s.G.solve(method=mrob.LM, maxIters=40, solutionTolerance=1e-12, **{"lambda": 1e-4}); g.label("LM")
    else:
        g.label("GN")
        for _ in range(8): s.G.solve(mrob.GN)
    s.resync(); c1 = s.cost(); g.close("chi2 after", s.G.chi2(), c1, 1e-9 * (1 + c1)); g.check(c1 <= c0 * (1 + 1e-9) + 1e-9, "the cost grew", lambda: "%g -> %g" % (c0, c1))
    for a, b in zip(E0, keep): g.check(np.array_equal(np.asarray(a), b), "snapshot changed")
    for i, x in enumerate(old):
        if s.anchor[i]: g.check(np.abs(s.X[i] - x).max() <= 1e-14 * (1 + np.abs(x).max()), "anchor moved")
    if noise == 0: g.check(c1 <= 1e-7, "exact measurements are not met", lambda: "cost %g from %g" % (c1, c0))
    else:   # a stationary point of the (weighted) problem, to first order
        A, W, r, _ = s.system(); dx = np.linalg.solve(A.T @ W @ A, A.T @ W @ r)
        if rob == "QUADRATIC": g.check(dx @ (A.T @ W @ r) <= 1e-5, "not stationary", lambda: str(dx))
    s.H.untouched()


@prop("S03", "two_graphs", 1)
def two(g):
    """the same description twice, interleaved with another graph: equal results"""
    def build(seedrec):
        s = Model(g, "QUADRATIC"); return s
    a, b = mrob.FGraph(), mrob.FGraph(); other = mrob.FGraph(mrob.HUBER); n = g.in_range(2, 5); X = [gen_state(g, "p2") for _ in range(n)]; W = info(g, "1p2"); O = [observe(g, "2p2", [X[i], X[i + 1]], 0.1) for i in range(n - 1)]; g.d(X, O); g.nontrivial()
    for x in X:
        for G in (a, b): G.add_node_pose_2d(x)
        other.add_node_pose_2d(x + 1)
    for G in (a, b, other): G.add_factor_1pose_2d(X[0] + 0.1, 0, W)
    for i, o in enumerate(O):
        for G in (a, b): G.add_factor_2poses_2d(o, i, i + 1, W)
        other.add_factor_2poses_2d(o, i, i + 1, 2 * W)
    for _ in range(g.in_range(1, 3)):
        a.solve(mrob.LM); other.solve(mrob.GN); b.solve(mrob.LM); other.chi2()
        for u, v in zip(a.get_estimated_state(), b.get_estimated_state()): g.check(np.array_equal(u, v), "same description, different result", lambda: "%s %s" % (u, v))
        g.check(a.chi2() == b.chi2(), "same description, different cost")


if __name__ == "__main__": main()
