"""what singular spectrum analysis has to return.  In the symbolic run the eigenvector basis that eigh returns is a
parameter of the configuration (the claim is about every basis); a replay uses the real decomposition."""
import math
import numpy as np


def basis(L, kind):
    q = np.array([[math.sqrt((1 if j == 0 else 2) / L) * math.cos(math.pi * (i + 0.5) * j / L) for j in range(L)] for i in range(L)])
    if kind == "dct":
        return q
    if kind == "rev":
        return -q[:, ::-1]
    if kind == "eye":
        return np.eye(L)
    if kind == "hh":                      # Householder reflection: dense, no symmetry
        v = np.array([1.0 + (i * i) % 5 for i in range(L)])
        return np.eye(L) - 2 * np.outer(v, v) / (v @ v)
    if kind == "mix":                     # alternate low and high columns
        o = [j // 2 if j % 2 == 0 else L - 1 - j // 2 for j in range(L)]
        return q[:, o] * np.array([(-1) ** j for j in range(L)])
    raise AssertionError(kind)


def mobility(v):
    n = len(v)
    a = np.around(math.sqrt(float(np.sum(np.square(v)))) / n, 4)
    d = math.sqrt(float(np.sum(np.square(np.diff(v))))) / (n - 1)
    return d / a if a else math.inf


def select(Q, fs, f):
    """columns kept, and the distance of the closest mobility from the threshold"""
    L = Q.shape[0]
    t = mobility(np.sin(2 * np.pi * np.arange(L) * f / fs))
    m = [mobility(Q[:, j]) for j in range(L)]
    return [j for j in range(L) if m[j] <= t], min(abs(v - t) / t for v in m)


class Model:
    def __init__(self, env, n, fs, f, kind, none=False):
        """none: no column qualifies, and the lag covariance is a multiple of the identity, whose computed
        eigenvectors are the unit vectors"""
        self.env, self.n, self.fs, self.f = env, n, fs, f
        self.L = math.ceil(fs / f)
        self.K = n - self.L + 1
        self.calls = 0
        self.none = none
        if env.symbolic:
            self.Q = basis(self.L, kind)
            sel, gap = select(self.Q, fs, f)
            assert gap > 1e-4 and bool(sel) != none, (kind, gap, sel)

    def install(self, x):
        """x: the samples the next decomposition is of"""
        env = self.env
        self.x = x
        if not env.symbolic:
            return

        def eigh(a):
            self.calls += 1
            L, K, x = self.L, self.K, self.x
            got = env.vals(a, L * L, "decomposed matrix")
            want = [env.sum([x[i + k] * x[j + k] for k in range(K)]) for i in range(L) for j in range(L)]
            for g, w in zip(got, want):
                env.require(env.eq(g * want[0], w * got[0]), "the matrix decomposed is the lag covariance of the series")
            Q = [env.const(float(v)) for v in self.Q.reshape(-1)]
            return env.arr([env.const(i) for i in range(L)]), env.arr(Q, shape=(L, L))
        env.set_eigh(eigh)

    def expected(self):
        """unrounded result (numbers in a replay); None when the real decomposition is ambiguous"""
        env, L, K, n, x = self.env, self.L, self.K, self.n, self.x
        if env.symbolic:
            sel, _ = select(self.Q, self.fs, self.f)
            P = self.Q[:, sel] @ self.Q[:, sel].T
            xs = x
            c = lambda v: env.const(float(v))
            total = env.sum
        else:
            xs = [v.v for v in x]
            X = np.array([[xs[i + k] for k in range(K)] for i in range(L)])
            w, Q = np.linalg.eigh(X @ X.T)
            sel, gap = select(Q, self.fs, self.f)
            w = np.array([v for v in w if v > 1e-9 * max(w[-1], 1e-30)])
            if self.none and abs(abs(Q) - np.eye(L)).max() == 0 and not sel:
                return [0.0] * n
            if gap < 1e-3 or (len(w) > 1 and np.min(np.diff(w)) < 1e-5 * w[-1]) or len(w) < min(L, K) or not len(w):
                return None
            P = Q[:, sel] @ Q[:, sel].T
            c = float
            total = sum
        out = []
        for t in range(n):
            terms = []
            for k in range(max(0, t - L + 1), min(K, t + 1)):
                i = t - k
                terms.append(total([c(P[i, j]) * xs[j + k] for j in range(L)]))
            out.append(total(terms) / len(terms))
        return out

    def compare(self, got, exp, t, label):
        env = self.env
        if env.symbolic:
            env.close(got, env.round(exp, 4), label)
        else:
            env.check(abs(got.v - exp) <= 6e-5 + 1e-9 * abs(exp), "%s: got %r, expected %r" % (label, got.v, exp))
