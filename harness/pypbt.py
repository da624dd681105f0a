"""Property-based testing core for the Python interface: the counterpart of pbt.hpp.

A case is a function of a stream of bounded integers ("choices").  Choices come from a counter-based generator (so a case is a
function of seed, sub-check and index) or from a replay file; a failing case is shrunk on its choices in forked children, so that
crashes and hangs shrink too.
"""
import argparse, hashlib, json, math, mmap, os, random, signal, struct, sys, time, traceback
import numpy as np


class Fail(Exception):
    def __init__(self, key, msg=""):
        super().__init__(msg); self.key, self.msg = key, msg


class Case:
    def __init__(self, seed=0, choices=None, size=30):
        self.rng = random.Random(seed); self.replay = choices; self.rec = []
        self.labels = []; self.nontriv = False; self.desc = []; self.size = size

    def raw(self, mx):
        """uniform in [0, mx]"""
        if self.replay is not None:
            v = self.replay[len(self.rec)] if len(self.rec) < len(self.replay) else 0
            v = min(v, mx)
        else:
            v = self.rng.randrange(mx + 1)
        self.rec.append(v)
        return v

    def in_range(self, lo, hi): return lo + self.raw(hi - lo)
    def coin(self): return self.raw(1) == 1
    def chance(self, num, den): return self.raw(den - 1) >= den - num
    def pick(self, v): return v[self.raw(len(v) - 1)]

    def weighted(self, w):
        r = self.raw(sum(w) - 1)
        for i, x in enumerate(w):
            if r < x: return i
            r -= x

    def sym(self, s):
        k = self.raw((1 << 41) - 1); m = (k >> 1) / ((1 << 40) - 1)
        return -m * s if k & 1 else m * s

    def unit(self): return self.raw((1 << 40) - 1) / ((1 << 40) - 1)
    def real(self, lo, hi): return lo + (hi - lo) * self.unit()
    def logmag(self, lo, hi): return lo * (hi / lo) ** self.unit()
    def label(self, l, on=True):
        if on: self.labels.append(l)
    def nontrivial(self, b=True): self.nontriv = self.nontriv or bool(b)
    def d(self, *a): self.desc.append(" ".join(show(x) for x in a))
    def fail(self, key, msg=""): raise Fail(key, msg)
    def check(self, ok, key, msg=""):
        if not ok: raise Fail(key, msg() if callable(msg) else msg)

    def close(self, key, a, b, tol, what=""):
        """|a - b| <= tol entrywise, shapes equal; nothing undefined"""
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
        if a.shape != b.shape: raise Fail(key, "%s shape %s instead of %s" % (what, a.shape, b.shape))
        e = np.abs(a - b)
        if not np.all(e <= tol): raise Fail(key, "%s got %s expected %s (error %.3g, tolerance %.3g)" % (what, show(a), show(b), np.nanmax(e) if e.size else 0, np.max(tol)))


def show(x):
    if isinstance(x, np.ndarray): return np.array2string(x, precision=17, separator=",", max_line_width=10 ** 6, threshold=200).replace("\n", "")
    return str(x)


SUBS = {}


def prop(pid, name, weight=1.0):
    def deco(f):
        SUBS.setdefault(pid, []).append((name, weight, f)); return f
    return deco


CPU = 40


def sizes(i): return [4, 8, 12, 20, 30, 45][i % 6]


def seed_of(seed, pid, name, i): return int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (seed, pid, name, i)).encode()).digest()[:8], "little")


def quiet():
    fd = os.open("/dev/null", os.O_WRONLY); os.dup2(fd, 1); os.close(fd)


def run_one(f, c):
    """(status, key, msg): 1 ok, 2 failed"""
    try:
        f(c); return 1, "", ""
    except Fail as e:
        return 2, e.key, e.msg
    except MemoryError:
        raise
    except Exception as e:
        return 2, "exception", "unexpected %s: %s at %s" % (type(e).__name__, e, traceback.format_tb(e.__traceback__)[-1].strip()[:300])


def forked(f, size, choices=None, seed=0, earlier=()):
    r, w = os.pipe(); sys.stdout.flush()
    mm = mmap.mmap(-1, 8 * (1 << 16))
    pid = os.fork()
    if pid == 0:
        os.close(r); quiet()
        for ef, es, ez in earlier:   # failures that depend on what ran before in the same process
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU); run_one(ef, Case(es, None, ez))
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
        c = Case(seed, choices, size)
        base = c.raw
        def raw(mx):
            v = base(mx); n = len(c.rec)
            if n < (1 << 16) - 1:
                mm[8 * n:8 * n + 8] = struct.pack("<Q", v); mm[0:8] = struct.pack("<Q", n)
            return v
        c.raw = raw
        st, k, m = run_one(f, c)
        data = json.dumps([st, k, m[:3000], "\n".join(c.desc)[:6000]]).encode()
        with os.fdopen(w, "wb") as o: o.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i: data = i.read()
    _, st = os.waitpid(pid, 0)
    n = struct.unpack("<Q", mm[0:8])[0]
    rec = [struct.unpack("<Q", mm[8 * k:8 * k + 8])[0] for k in range(1, n + 1)]
    mm.close()
    if os.WIFSIGNALED(st):
        sg = os.WTERMSIG(st); h = sg == signal.SIGVTALRM
        return 3, "hang" if h else "crash", "does not terminate" if h else "terminated by signal %d" % sg, "", rec
    if not data: return 3, "crash", "process ended with status %d" % st, "", rec
    a = json.loads(data)
    return a[0], a[1], a[2], a[3], rec


def shrink(f, size, best, budget):
    t0 = time.time()
    simpler = lambda a, b: (len(a), a) < (len(b), b)

    def attempt(c):
        nonlocal best
        if time.time() - t0 > budget: return False
        o = forked(f, size, c)
        if o[0] >= 2 and o[1] == best[1] and simpler(o[4], best[4]):
            best = o; return True
        return False
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        ln = max(1, len(best[4]) // 2)
        while ln >= 1:
            i = 0
            while i + ln <= len(best[4]) and time.time() - t0 < budget:
                if attempt(best[4][:i] + best[4][i + ln:]): improved = True
                else: i += ln
            ln //= 2
        i = 0
        while i < len(best[4]) and time.time() - t0 < budget:
            if best[4][i] and attempt(best[4][:i] + [0] + best[4][i + 1:]): improved = True
            elif best[4][i]:
                lo, hi = 0, best[4][i]
                for _ in range(12):
                    if i >= len(best[4]) or lo >= best[4][i]: break
                    mid = (lo + best[4][i]) // 2
                    if attempt(best[4][:i] + [mid] + best[4][i + 1:]): improved = True
                    else: lo = mid + 1
            i += 1
    return best


def load_known(path, pid):
    out = set()
    if path and os.path.exists(path):
        for l in open(path):
            if l.startswith("known:"):
                t = dict(x.split("=", 1) for x in l.split() if "=" in x)
                if t.get("property") == pid and "key" in t: out.add(t["key"])
    return out


def worker(wi, W, subs, pid, a, t0, known, path, stop):
    quiet()
    stats = {n: dict(cases=0, hashes=set(), labels={}, samples=[], known=0) for n, _, _ in subs}
    fail = None
    rounds = 40
    for r in range(rounds):
        for n, wt, f in subs:
            tot = max(1, int(a.cases * wt))
            for i in range(tot * r // rounds, tot * (r + 1) // rounds):
                if i % W != wi: continue
                if stop[0] or time.time() - t0 > a.budget: break
                stop[16 * (wi + 1):16 * (wi + 1) + 16] = struct.pack("<QQ", [x[0] for x in subs].index(n), i)
                c = Case(seed_of(a.seed, pid, n, i), None, sizes(i // W))
                signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
                st, k, m = run_one(f, c)
                q = stats[n]; q["cases"] += 1
                if st == 2 and k in known: q["known"] += 1; st = 1
                if st == 2:
                    fail = (n, i, k, m); stop[0] = 1; break
                for l in c.labels: q["labels"][l] = q["labels"].get(l, 0) + 1
                if c.nontriv:
                    q["hashes"].add(hash((n, tuple(c.rec))))
                    if len(q["samples"]) < 1 and c.desc: q["samples"].append("\n".join(c.desc)[:1200])
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    import pickle
    with open("%s.%d" % (path, wi), "wb") as o: pickle.dump((stats, fail), o)
    os._exit(3 if fail else 0)


def history(a, subs, pid, name, idx):
    """the cases the worker ran up to this one, in order: (function, seed, size, name, index)"""
    W, h, rounds = a.workers, [], 40
    for r in range(rounds):
        for n, wt, f in subs:
            tot = max(1, int(a.cases * wt))
            for i in range(tot * r // rounds, tot * (r + 1) // rounds):
                if i % W != idx % W: continue
                h.append((f, seed_of(a.seed, pid, n, i), sizes(i // W), n, i))
                if n == name and i == idx: return h
    return h


def replay_history(h, limit):
    """shortest failing tail of the history, in place, with its outcome appended; False if it does not fail"""
    t0 = time.time(); last = h[-1]; go = lambda n: forked(last[0], last[2], None, last[1], [x[:3] for x in h[len(h) - 1 - n:-1]])
    n, good = 1, 0
    while True:
        n = min(n, len(h) - 1); o = go(n)
        if o[0] >= 2: break
        good = n
        if n == len(h) - 1 or time.time() - t0 > limit: return False
        n *= 4
    while n - good > 1 and time.time() - t0 < limit:
        m = (n + good) // 2; q = go(m)
        if q[0] >= 2: n, o = m, q
        else: good = m
    h[:] = h[len(h) - 1 - n:] + [o]
    return True


def main():
    p = argparse.ArgumentParser(); p.add_argument("prop")
    for k, t, d in (("seed", int, 1), ("cases", int, 200), ("budget", float, 60), ("workers", int, 8), ("shrink", float, 25)):
        p.add_argument("--" + k, type=t, default=d)
    for k in ("out", "replay-out", "known", "replay", "sub"): p.add_argument("--" + k)
    a = p.parse_args(); pid = a.prop
    subs = [s for s in SUBS.get(pid, []) if not a.sub or s[0] == a.sub]
    if a.replay:
        sub, size, ch, hist = None, 30, [], []
        for l in open(a.replay):
            t = l.split()
            if t and t[0] == "sub": sub = t[1]
            elif t and t[0] == "size": size = int(t[1])
            elif t and t[0] == "choices": ch = [int(x) for x in t[1:]]
            elif t and t[0] == "case": hist.append(([f for n, _, f in subs if n == t[1]][0], int(t[4]), int(t[3])))
        for n, _, f in subs:
            if n == sub:
                o = forked(hist[-1][0], hist[-1][2], None, hist[-1][1], hist[:-1]) if hist else forked(f, size, ch)
                print("%s %s: %s %s\n%s\n%s" % (pid, n, "HOLDS" if o[0] == 1 else "FAILS", o[1], o[2], o[3])); sys.exit(0 if o[0] == 1 else 1)
        print("replay: unknown sub-check", sub); sys.exit(2)
    known = load_known(a.known, pid)
    import pickle, tempfile
    t0 = time.time(); tmp = tempfile.mkdtemp(); path = os.path.join(tmp, "w")
    stop = mmap.mmap(-1, 16 * (a.workers + 1))
    pids = []
    for w in range(a.workers):
        q = os.fork()
        if q == 0:
            try: worker(w, a.workers, subs, pid, a, t0, known, path, stop)
            except BaseException: traceback.print_exc(); os._exit(9)
        pids.append(q)
    fails = []
    for w, q in enumerate(pids):
        _, st = os.waitpid(q, 0)
        if os.WIFSIGNALED(st) or (os.WIFEXITED(st) and os.WEXITSTATUS(st) not in (0, 3)):
            si, i = struct.unpack("<QQ", stop[16 * (w + 1):16 * (w + 1) + 16]); stop[0] = 1
            fails.append((subs[si][0], i, "crash", "worker ended with status %d" % st))
    tot = {n: dict(cases=0, hashes=set(), labels={}, samples=[], known=0) for n, _, _ in subs}
    for w in range(a.workers):
        try: stats, fail = pickle.load(open("%s.%d" % (path, w), "rb"))
        except FileNotFoundError: continue
        os.unlink("%s.%d" % (path, w))
        if fail: fails.append(fail)
        for n, q in stats.items():
            t = tot[n]; t["cases"] += q["cases"]; t["hashes"] |= q["hashes"]; t["known"] += q["known"]
            for l, k in q["labels"].items(): t["labels"][l] = t["labels"].get(l, 0) + k
            if len(t["samples"]) < 2: t["samples"] += q["samples"][:1]
    os.rmdir(tmp)
    gen = time.time() - t0; rc = 0; rep = dict(sub="", key="", msg="")
    if fails:
        n, i, k, m = min(fails, key=lambda x: ([s[0] for s in subs].index(x[0]), x[1]))
        f = [s[2] for s in subs if s[0] == n][0]; size = sizes(i // a.workers)
        o = forked(f, size, None, seed_of(a.seed, pid, n, i))
        if o[0] >= 2:
            o = shrink(f, size, o, a.shrink); rc = 1; rep = dict(sub=n, key=o[1], msg=o[2])
            with open(a.replay_out or "/tmp/pypbt.replay", "w") as w:
                w.write("property %s\nsub %s\nsize %d\nchoices %s\n# key: %s\n# message: %s\n# case:\n" % (pid, n, size, " ".join(map(str, o[4])), o[1], o[2].replace("\n", " ")))
                for l in o[3].split("\n"): w.write("#   %s\n" % l)
        elif replay_history(hist := history(a, subs, pid, n, i), a.shrink + 60):
            o = hist.pop(); rc = 1; rep = dict(sub=n, key=o[1], msg="%s (only after the %d cases before it in the same process)" % (o[2], len(hist) - 1))
            with open(a.replay_out or "/tmp/pypbt.replay", "w") as w:
                w.write("property %s\nsub %s\n%s# key: %s\n# message: %s\n# last case:\n" % (pid, n, "".join("case %s %d %d %d\n" % (h[3], h[4], h[2], h[1]) for h in hist), o[1], rep["msg"].replace("\n", " ")))
                for l in o[3].split("\n"): w.write("#   %s\n" % l)
        else:
            rc = 4; rep["msg"] = "failure in %s case %d did not reproduce (%s: %s)" % (n, i, k, m)
    out = dict(subs=[dict(name=n, planned=max(1, int(a.cases * wt)), cases=tot[n]["cases"], distinct_nontrivial=len(tot[n]["hashes"]), known=tot[n]["known"],
                          labels=tot[n]["labels"], samples=tot[n]["samples"]) for n, wt, _ in subs],
               evaluations=sum(t["cases"] for t in tot.values()), distinct_nontrivial=sum(len(t["hashes"]) for t in tot.values()),
               known=sum(t["known"] for t in tot.values()), rc=rc, gen_s=gen, fail=rep)
    if a.out: json.dump(out, open(a.out, "w"))
    sys.exit(rc)
