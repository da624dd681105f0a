"""Reference mathematics for the Python interface checks, written from the definitions (numpy, double precision)."""
import math
import numpy as np


def hat(w): return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0.0]])


def coeffs(o):
    if o < 1e-2:
        q = o * o
        return 1 - q / 6 + q * q / 120, 0.5 - q / 24 + q * q / 720, 1 / 6 - q / 120 + q * q / 5040
    return math.sin(o) / o, (1 - math.cos(o)) / o ** 2, (o - math.sin(o)) / o ** 3


def exp3(w):
    a, b, _ = coeffs(float(np.linalg.norm(w))); W = hat(w)
    return np.eye(3) + a * W + b * W @ W


def exp6(x):
    x = np.asarray(x, float); w = x[:3]
    a, b, c = coeffs(float(np.linalg.norm(w))); W = hat(w); T = np.eye(4)
    T[:3, :3] = np.eye(3) + a * W + b * W @ W; T[:3, 3] = (np.eye(3) + b * W + c * W @ W) @ x[3:]
    return T


def quat(R):
    """[x y z w], w >= 0, from the largest component"""
    K = np.array([[R[0, 0] - R[1, 1] - R[2, 2], 0, 0, 0], [R[0, 1] + R[1, 0], R[1, 1] - R[0, 0] - R[2, 2], 0, 0],
                  [R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], R[2, 2] - R[0, 0] - R[1, 1], 0],
                  [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], R[0, 0] + R[1, 1] + R[2, 2]]]) / 3
    e, v = np.linalg.eigh(K, UPLO="L"); q = v[:, 3]
    return q if q[3] >= 0 else -q


def log3(R):
    q = quat(R); n = np.linalg.norm(q[:3])
    if n < 1e-14: return 2 * q[:3] / q[3]
    return q[:3] / n * 2 * math.atan2(n, q[3])


def log6(T):
    w = log3(T[:3, :3]); o = float(np.linalg.norm(w)); _, b, c = coeffs(o); W = hat(w)
    V = np.eye(3) + b * W + c * W @ W
    return np.concatenate([w, np.linalg.solve(V, T[:3, 3])])


def inv4(T):
    R = T[:3, :3].T; I = np.eye(4); I[:3, :3] = R; I[:3, 3] = -R @ T[:3, 3]
    return I


def Ad(T):
    A = np.zeros((6, 6)); A[:3, :3] = A[3:, 3:] = T[:3, :3]; A[3:, :3] = hat(T[:3, 3]) @ T[:3, :3]
    return A


def ad(x):
    A = np.zeros((6, 6)); A[:3, :3] = A[3:, 3:] = hat(x[:3]); A[3:, :3] = hat(x[3:])
    return A


def angle(R): return float(np.linalg.norm(log3(R)))


def wrap(a):
    return math.atan2(math.sin(a), math.cos(a))


def fourth(T1, S1, S2raw):
    A = Ad(T1); S2 = A @ S2raw @ A.T

    def roots(S):
        e, U = np.linalg.eigh((S + S.T) / 2); return U * np.sqrt(np.maximum(0, e))
    U, V = roots(S1), roots(S2); B = np.zeros((6, 6)); A1 = B.copy(); A2 = B.copy()
    for i in range(6):
        cu, cv = ad(U[:, i]), ad(V[:, i]); A1 += cu @ cu; A2 += cv @ cv
        for j in range(6):
            w = cu @ V[:, j]; B += np.outer(w, w)
    return S1 + S2 + (A1 @ S2 + S2 @ A1.T + A2 @ S1 + S1 @ A2.T) / 12 + B / 4


# ------------------------------------------------------------------ generators
def vec3(g, s):
    return np.array([g.sym(s), g.sym(s), g.sym(s)]) if g.chance(5, 6) else np.array([float(g.in_range(-2, 2)) for _ in range(3)]) * min(1, s)


def unit3(g):
    v = np.array([g.sym(1), g.sym(1), g.sym(1)]); n = np.linalg.norm(v)
    return v / n if n > 1e-3 else np.array([0, 0, 1.0])


def rotvec(g, mx=3.13):
    k = g.weighted([6, 2, 1, 1])
    o = [lambda: g.real(0, mx), lambda: g.logmag(1e-12, 1e-2), lambda: 0.0, lambda: g.pick([math.pi / 2, 1.0, min(mx, 3.1)])][k]()
    return unit3(g) * o


def twist(g, mx=3.13, t=10): return np.concatenate([rotvec(g, mx), vec3(g, t)])


def spd(g, n, lo=0.1, hi=2.0, singular=False):
    Q, _ = np.linalg.qr(np.array([[g.sym(1) + (3 if i == j else 0) for j in range(n)] for i in range(n)]))
    d = np.array([g.logmag(lo, hi) for _ in range(n)])
    if singular and g.chance(1, 3): d[g.raw(n - 1)] = 0
    S = Q * d @ Q.T
    return (S + S.T) / 2


class Handed:
    """Hands an array to the library in some layout and remembers what it looked like."""

    def __init__(self, g, neg=False):
        self.g, self.given, self.neg = g, [], neg   # views with negative strides are refused (an exception) where the library takes a reference

    def __call__(self, a, lay=None):
        g = self.g; a = np.asarray(a, float); k = g.weighted([4, 2, 2, 2, 1, 1, 1]) if lay is None else lay
        if k == 0: r = np.array(a, order="C")
        elif k == 1: r = np.array(a, order="F")
        elif k == 2:   # every other entry of a larger buffer
            big = np.full([2 * s + 1 for s in a.shape], 777.0); v = big[tuple(slice(1, 2 * s + 1, 2) for s in a.shape)]; v[...] = a; r = v
        elif k == 3 and a.ndim == 2:   # a window of a wider array
            big = np.full((a.shape[0] + 2, a.shape[1] + 3), -555.0); v = big[1:1 + a.shape[0], 2:2 + a.shape[1]]; v[...] = a; r = v
        elif k == 4 and self.neg:   # a reversed view
            r = np.array(a[tuple(slice(None, None, -1) for _ in a.shape)])[tuple(slice(None, None, -1) for _ in a.shape)]
        elif k == 5 and a.ndim == 2: r = np.array(a.T, order="C").T
        elif k == 6: r = np.array(a); r.setflags(write=False)
        else: r = np.array(a)
        g.label("layout %d" % k)
        self.given.append((r, np.array(a)))
        return r

    def untouched(self):
        for r, a in self.given:
            if not np.array_equal(r, a, equal_nan=True): self.g.fail("argument changed", "an argument array was modified: %s instead of %s" % (r, a))
