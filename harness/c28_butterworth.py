"""butterworth and buttap"""
import math
from .common import raises
MOD = "proadv.statistics.signal.butter"
BUDGET = {"quick": 60, "thorough": 600}
BOUNDS = ("orders 1..5 (thorough 8); lowpass, highpass, bandpass, bandstop; analog and digital; critical frequencies and sampling rate symbolic; "
          "zero-pole-gain and polynomial output at a symbolic real point; section output at fixed critical frequencies; defaults, keywords, "
          "letter case; every documented error condition")


def configs(tier):
    out = []
    T = tier != "quick"
    for q in range(0, 9):
        out.append(dict(id="buttap-%d" % q, what="ap", q=q))
    for i, q in enumerate((-1, 1.5, -2.5)):
        out.append(dict(id="buttap-bad%d" % i, what="aperr", q=q))
    for bt in ("lp", "hp", "bp", "bs"):
        two = bt[0] == "b"
        for ag in (True, False):
            for q in range(1, (6 if not two else 4 if ag else 3) + 2 * T):
                out.append(dict(id="%s-%s-q%d-zps" % (bt, "an" if ag else "di", q), what="f", bt=bt, ag=ag, q=q, out="zps", weight=q))
            for q in range(1, (3 if two else 4) + 2 * T):
                out.append(dict(id="%s-%s-q%d-nd" % (bt, "an" if ag else "di", q), what="f", bt=bt, ag=ag, q=q, out="nd", weight=q))
            for q in range(1, 6 + T):
                for k, w in enumerate(((0.3, 0.45), (0.05, 0.9))):
                    for o in ("sop", "nd"):
                        out.append(dict(id="%s-%s-q%d-%s-w%d" % (bt, "an" if ag else "di", q, o, k), what="f", bt=bt, ag=ag, q=q, out=o, w=w))
        out.append(dict(id="%s-sr" % bt, what="f", bt=bt, ag=False, q=2, out="zps", sr=True))
        out.append(dict(id="%s-upper" % bt, what="f", bt=bt.upper(), ag=False, q=2, out="ZPS"))
        out.append(dict(id="%s-kw" % bt, what="f", bt=bt, ag=True, q=1, out="zps", kw=True))
        out.append(dict(id="%s-hist" % bt, what="f", bt=bt, ag=False, q=1, out="zps", hist=True))
    out.append(dict(id="default-out", what="f", bt="lp", ag=False, q=2, out="nd", w=(0.3, 0.5), drop=1))
    out.append(dict(id="defaults", what="f", bt="bp", ag=False, q=2, out="nd", w=(0.3, 0.5), drop=3))
    E = [("w-zero", "lp", [0.0], {}), ("w-neg", "hp", [-0.2], {}), ("w-neg2", "bp", [-0.2, 0.4], {}), ("w-order", "bp", [0.5, 0.5], {}), ("w-order2", "bs", [0.6, 0.5], {}),
         ("w-one", "lp", [1.0], {}), ("w-big", "bp", [0.5, 1.25], {}), ("w-nyq", "lp", [50.0], dict(sr=100.0)), ("lp-two", "lp", [0.2, 0.4], {}), ("hp-two", "hp", [0.2, 0.4], {}),
         ("out", "lp", [0.2], dict(output="ba")), ("sr-analog", "lp", [0.2], dict(ag=True, sr=10.0)), ("order", "lp", [0.2], dict(q=-1)), ("order2", "lp", [0.2], dict(q=1.5)),
         ("an-zero", "lp", [0.0], dict(ag=True)), ("an-neg", "hp", [-2.0], dict(ag=True)), ("an-zero2", "bp", [0.0, 2.0], dict(ag=True)),
         ("an-order", "bp", [3.0, 3.0], dict(ag=True)), ("an-order2", "bs", [3.0, 2.0], dict(ag=True)), ("an-lp-two", "lp", [0.2, 3.0], dict(ag=True)),
         ("an-out", "hp", [2.0], dict(ag=True, output="tf")), ("bp-one", "bp", [0.4], {}), ("bs-one", "bs", [0.4], {}), ("an-bs-one", "bs", [4.0], dict(ag=True)),
         ("bp-neg-sr", "bp", [-5.0, 10.0], dict(sr=50.0)), ("sr-list", "lp", [0.2], dict(sr=[10.0, 20.0]))]
    for nm, bt, w, kw in E:
        out.append(dict(id="err-" + nm, what="err", bt=bt, w=w, kw=kw, exc=["ValueError"]))
    out.append(dict(id="err-type", what="err", bt="ap", w=[0.2], kw={}, exc=["NotImplementedError"]))
    for bt in ("lp", "hp", "bp", "bs"):
        out.append(dict(id="err-sym-%s" % bt, what="errsym", bt=bt))
        out.append(dict(id="err-sym-%s-an" % bt, what="errsym", bt=bt, ag=True))
    for c in out:
        c["noval"] = True
        c["base"] = dict(w0=0.3, w1=0.55, sr=50.0, s=0.75) if not c.get("ag") else dict(w0=1.5, w1=4.0, s=0.75)
        if c["what"] == "errsym":
            c["base"] = dict(w0=-0.3, w1=0.55)
        if c.get("bt", "x").lower() in ("bp", "bs") and c.get("ag") is False and c.get("q", 0) > 1:
            c.update(branch_timeout=0.5, weight=0)
    return out


def prod(env, xs):
    t = env.const(1)
    for x in xs:
        t = t * x
    return t


def proto(env, q, N, D):
    """Butterworth polynomial of degree q at N/D, times D^q"""
    t = env.const(1)
    for k in range(q // 2):
        c = 2 * math.sin(math.pi * (2 * k + 1) / (2 * q))
        t = t * (N * N + N * D * env.const(c) + D * D)
    return t * (N + D) if q % 2 else t


def polyval(env, cs, s):
    t = env.const(0)
    for c in cs:
        t = t * s + c
    return t


def run(env, cfg):
    what = cfg["what"]
    if what == "aperr":
        raises(env, ["ValueError"], MOD, "buttap", cfg["q"])
        return
    if what == "ap":
        q = cfg["q"]
        r = env.call(MOD, "buttap", q)
        env.check(isinstance(r, tuple) and len(r) == 3, "zeros, poles and gain")
        env.vals(r[0], 0)
        p = env.vals(r[1], q)
        s = env.real("s", -4, 4)
        env.close(prod(env, [s - v for v in p]), proto(env, q, s, env.const(1)), "prototype polynomial")
        env.close(env.val(r[2]), env.const(1), "gain")
        return
    if what == "err":
        kw = dict(cfg["kw"])
        q = kw.pop("q", 2)
        w = cfg["w"][0] if len(cfg["w"]) == 1 else list(cfg["w"])
        raises(env, cfg["exc"], MOD, "butterworth", q, w, cfg["bt"], **kw)
        return
    bt = cfg["bt"].lower()
    two = bt[0] == "b"
    if what == "errsym":
        ws = [env.real("w%d" % i, -10, 10) for i in range(2 if two else 1)]
        good = [env.gt(ws[0], 0)] + ([] if cfg.get("ag") else [env.lt(ws[-1], 1)]) + ([env.lt(ws[0], ws[1])] if two else [])
        env.assume(env.not_(env.and_(*good)))
        raises(env, ["ValueError"], MOD, "butterworth", 2, env.pyfloat(ws[0]) if not two else [env.pyfloat(v) for v in ws], bt, *([True] if cfg.get("ag") else []))
        return
    q, ag = cfg["q"], cfg["ag"]
    if "w" in cfg:
        ws = [env.const(v) for v in cfg["w"][:2 if two else 1]]
    else:
        top, bot = (1000, 0.005) if ag else (0.95, 0.05) if two else (0.995, 0.005)
        ws = [env.real("w%d" % i, 0, top) for i in range(2 if two else 1)]
        env.assume(env.ge(ws[0], env.const(bot)))
        if two:
            env.assume(env.ge(ws[1] - ws[0], env.const(0.01)))
    c = [4 * env.tan(env.const(math.pi / 2) * v) for v in ws] if not ag else ws
    if not ag and "w" not in cfg:
        env.assume(env.gt(c[0], 0))             # the tangent is positive and increasing there
        if two:
            env.assume(env.gt(c[1], c[0]))
    sr = None
    if cfg.get("sr"):
        sr = env.real("sr", 1, 10000)
        env.assume(env.ge(sr, 1))
        arg = [env.pyfloat(v * sr / 2) for v in ws]
    else:
        arg = [env.pyfloat(v) for v in ws]
    arg = arg if two else arg[0]
    full = [cfg["bt"], ag, cfg["out"]][:3 - cfg.get("drop", 0)]
    kw = {} if sr is None else dict(sr=env.pyfloat(sr))
    if cfg.get("kw"):
        kw.update(btype=cfg["bt"], ag=ag, output=cfg["out"])
        full = []
    if cfg.get("hist"):
        env.call(MOD, "butterworth", 3, [0.2, 0.7] if not two else 0.4, "bs" if not two else "hp", False, "zps")
    r = env.call(MOD, "butterworth", q, arg, *full, **kw)
    x = env.real("s", -4, 4)
    sn, sd = (x, env.const(1)) if ag else (4 * (x - 1), x + 1)
    # lowpass prototype variable N/D
    if bt == "lp":
        N, D = sn, c[0] * sd
    elif bt == "hp":
        N, D = c[0] * sd, sn
    else:
        N, D = sn * sn + c[0] * c[1] * sd * sd, (c[1] - c[0]) * sn * sd
        if bt == "bs":
            N, D = D, N
    B = proto(env, q, N, D)
    Dq = prod(env, [D] * q)
    m = 2 * q if two else q
    o = cfg["out"].lower()
    if o == "zps":
        env.check(isinstance(r, tuple) and len(r) == 3, "zeros, poles and gain")
        p = env.vals(r[1], m)
        z = env.vals(r[0])
        num, den = env.val(r[2]) * prod(env, [x - v for v in z]), prod(env, [x - v for v in p])
        nz = len(z)
    elif o == "nd":
        env.check(isinstance(r, tuple) and len(r) == 2, "numerator and denominator")
        a = env.vals(r[1], m + 1)
        b = env.vals(r[0])
        nz = len(b) - 1
        env.close(a[0], env.const(1), "leading coefficient")
        num, den = polyval(env, b, x), polyval(env, a, x)
    else:
        sh = env.shape(r)
        env.check(len(sh) == 2 and sh[1] == 6 and sh[0] == (m + 1) // 2, "sections")
        v = env.vals(r)
        num, den, nz = env.const(1), env.const(1), None
        for i in range(sh[0]):
            t = v[6 * i:6 * i + 6]
            num, den = num * polyval(env, t[:3], x), den * polyval(env, t[3:], x)
        if not ag and m % 2:
            pass
    if nz is not None:
        env.check(nz == (m if not ag else dict(lp=0, hp=q, bp=q, bs=m)[bt]), "number of zeros")
    env.close(num * B, Dq * den, "transfer function")
