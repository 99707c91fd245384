"""ssa: low-mobility part of the singular spectrum, averaged over anti-diagonals"""
from .common import SER, layout
from .ssa_model import Model, select, basis
BOUNDS = ("every (window L, n) with 3 <= L <= 6 (thorough 9), L+1 <= n <= 14 (thorough 20), and n in {60,130,200} with L in {3,4,6}, all samples symbolic, for several "
          "orthonormal bases returned by the eigendecomposition (cosine basis in several orders and signs, unit vectors, a Householder "
          "basis); integral and fractional fs/f; single impulses of which no component qualifies; two-call histories; |x| <= 1000; replays use the real eigendecomposition")
ASSUMES = ["numpy.linalg.eigh returns an orthonormal basis of eigenvectors of the matrix it is given (library function)"]


def configs(tier):
    import math
    out = []
    LM, NM = (6, 14) if tier == "quick" else (9, 20)
    par = {3: [(3, 1), (5, 2)], 4: [(4, 1), (7.5, 2)], 5: [(50, 10), (9, 2)], 6: [(6, 1), (11, 2)], 7: [(7, 1)], 8: [(100, 13)], 9: [(9, 1)]}
    for L in range(3, LM + 1):
        for n in range(L + 1, NM + 1):
            for q in ("dct", "rev", "mix", "hh", "eye"):
                if tier == "quick" and q != "dct" and n % 3 != L % 3 and n not in (2 * L - 2, 2 * L - 1, 2 * L):
                    continue
                for fs, f in par[L][:2 if q == "dct" else 1]:
                    assert math.ceil(fs / f) == L
                    sel, gap = select(basis(L, q), fs, f)
                    if not sel or gap < 1e-4:
                        continue
                    out.append(dict(id="L%d-n%d-%s-fs%g" % (L, n, q, fs), n=n, fs=fs, f=f, q=q, noval=True))
    for L, n, fs, f in ((6, 14, 6, 1), (6, 19, 11, 2), (8, 17, 100, 13)):
        out.append(dict(id="none-L%d-n%d" % (L, n), n=n, fs=fs, f=f, q="eye", none=n // 2, noval=True))
    for L, n, fs, f in ((4, 60, 4, 1), (6, 130, 11, 2), (3, 200, 3, 1)):
        out.append(dict(id="long-L%d-n%d" % (L, n), n=n, fs=fs, f=f, q="dct", noval=True))
    out.append(dict(id="hist", n=8, fs=4, f=1, q="dct", hist=True, noval=True))
    for how in ("strided", "reversed"):
        out.append(dict(id="view-" + how, n=8, fs=4, f=1, q="dct", how=how, noval=True))
    return out


def run(env, cfg):
    n, fs, f = cfg["n"], cfg["fs"], cfg["f"]
    m = Model(env, n, fs, f, cfg["q"], "none" in cfg)
    if cfg.get("hist"):
        z = env.vec("z", n)
        m.install(z)
        env.call(SER, "ssa", env.arr(z), fs, f)
    if "none" in cfg:
        x = [env.real("x") if i == cfg["none"] else env.const(0) for i in range(n)]
        env.assume(env.gt(env.abs(x[cfg["none"]]), 1))
    else:
        x = env.vec("x", n)
    m.install(x)
    a = layout(env, x, cfg.get("how", "plain"))
    s = env.snapshot(a)
    r = env.call(SER, "ssa", a, fs, f)
    env.unchanged(a, s, "input left as it was")
    y = env.vals(r, n)
    e = m.expected()
    if e is None:
        return
    for t in range(n):
        m.compare(y[t], e[t], t, "sample %d" % t)
