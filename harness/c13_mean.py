"""mean: arithmetic mean, numeric strings counted, other strings ignored"""
from .common import DES, layout, sparse
BOUNDS = ("arrays of length n <= 8 and {64,700} fully symbolic, n=5000 with 8 symbolic samples; lists, tuples, integer arrays, "
          "views; lists of length <= 4 (thorough 5) over every pattern of number / numeric string / non-numeric string; "
          "scalars; empty input; |x| <= 1000")


def configs(tier):
    out = [dict(id="n%d" % n, n=n, as_="arr") for n in range(1, 9)]
    out += [dict(id="n64", n=64, as_="arr"), dict(id="n700", n=700, as_="arr"),
            dict(id="sparse-n5000", n=5000, as_="arr", sparse=True)]
    for n in (1, 2, 3, 5):
        out.append(dict(id="list-n%d" % n, n=n, as_="list"))
        out.append(dict(id="int-n%d" % n, n=n, as_="int"))
        out.append(dict(id="intlist-n%d" % n, n=n, as_="intlist"))
    out.append(dict(id="tuple-n3", n=3, as_="tuple"))
    out.append(dict(id="npscalars-n3", n=3, as_="npscalars"))
    for how in ("strided", "reversed", "tail"):
        out.append(dict(id="view-" + how, n=5, as_="arr", how=how))
    out.append(dict(id="scalar", n=1, as_="scalar"))
    out.append(dict(id="iscalar", n=1, as_="iscalar"))
    out.append(dict(id="history", n=3, as_="arr", hist=True))
    out.append(dict(id="empty-list", n=0, as_="list", invalid=True))
    out.append(dict(id="empty-arr", n=0, as_="arr", invalid=True))
    import itertools
    L = 4 if tier == "quick" else 5
    for n in range(1, L + 1):
        for pat in itertools.product("nsxi", repeat=n):
            if "s" not in pat and "x" not in pat:
                continue
            if n == L and "i" in pat:
                continue
            if all(c == "x" for c in pat):
                continue
            out.append(dict(id="mix-" + "".join(pat), mix="".join(pat)))
    out.append(dict(id="mix-equal", mix="ssxn", equal=True))
    out.append(dict(id="mix-equal2", mix="nsxsx", equal=True))
    for i, lits in enumerate((["2", "3.5"], [" 4 ", "abc", "1e2"], ["abc", "-7"], ["+.5", "", "x1"], ["12", "12", "1 2"])):
        out.append(dict(id="literal-%d" % i, lits=lits))
    for pat in ("ns", "nsx", "sxn", "xs", "xsnxs", "ssx"):
        out.append(dict(id="strarr-" + pat, mix=pat, strarr=True))
    return out


def run(env, cfg):
    if "lits" in cfg:
        v = env.vec("v", 2)
        ok = []
        for t in cfg["lits"]:
            try:
                ok.append(env.const(float(t)))
            except ValueError:
                pass
        a = [env.pyfloat(v[0])] + [env.string(t) for t in cfg["lits"]] + [env.pyfloat(v[1])]
        env.close(env.val(env.call(DES, "mean", a)), env.sum(ok + v) / (len(ok) + 2), "mean of the numeric entries")
        return
    if "mix" in cfg:
        a, good = [], []
        for i, c in enumerate(cfg["mix"]):
            if c == "x":
                a.append(env.string("abc" if cfg.get("equal") or i % 2 else "x-%d" % i))
                continue
            if c == "i":
                v = env.int("v%d" % i, -1000, 1000)
            elif cfg.get("equal"):
                v = env.real("v")
            else:
                v = env.real("v%d" % i)
            good.append(v)
            a.append(env.string(v) if c == "s" else env.pyint(v) if c == "i" else env.pyfloat(v))
        if cfg.get("strarr"):
            r = env.call(DES, "mean", env.strarr(a))
            env.close(env.val(r), env.sum(good) / len(good), "mean of the numeric entries")
            return
        keep = list(a)
        r = env.call(DES, "mean", a)
        env.check(len(a) == len(keep) and all(p is q for p, q in zip(a, keep)), "input list left as it was")
        env.close(env.val(r), env.sum(good) / len(good), "mean of the numeric entries")
        return
    n, k = cfg["n"], cfg["as_"]
    if k in ("int", "intlist", "iscalar"):
        x = [env.int("x%d" % i, -1000, 1000) for i in range(n)]
    elif cfg.get("sparse"):
        x = sparse(env, "x", n, (0, 1, 2, n // 3, n // 2, n - 3, n - 2, n - 1))
    else:
        x = env.vec("x", n)
    a = {"arr": lambda: layout(env, x, cfg.get("how", "plain")), "list": lambda: [env.pyfloat(v) for v in x],
         "int": lambda: env.arr(x, dtype="i8"), "intlist": lambda: [env.pyint(v) for v in x],
         "tuple": lambda: tuple(env.pyfloat(v) for v in x), "npscalars": lambda: [env.npfloat(v) for v in x],
         "scalar": lambda: env.pyfloat(x[0]), "iscalar": lambda: env.pyint(x[0])}[k]()
    if cfg.get("hist"):
        env.call(DES, "mean", env.arr(env.vec("z", n)))
    snap = env.snapshot(a) if k in ("arr", "int") else None
    r = env.call(DES, "mean", a)
    if cfg.get("invalid"):
        env.check(isinstance(r, str), "empty input gives the error message")
        return
    if snap is not None:
        env.unchanged(a, snap, "input left as it was")
    env.close(env.val(r), env.sum(x) / n, "mean")
