"""xyz_to_ptf and xyz_to_sop: coefficient forms of a zero/pole/gain filter"""
from .common import raises
MOD = "proadv.statistics.signal.butter"
BUDGET = {"quick": 50, "thorough": 600}
BOUNDS = ("up to 3 symbolic zeros and 3 symbolic poles (real, conjugate pairs, mixtures) in [-4,4], up to 8 roots when "
          "all but a few are fixed; symbolic gain; every pairing, digital and analog; symbolic evaluation point in [-4,4]")

# fixed roots: c = conjugate pair, r = real
FIX = {"c": [(-0.5, 1.25), (0.25, 0.75), (-1.5, 0.5), (1.0, 2.0)], "r": [-0.75, 0.5, -1.25, 2.0, 0.0, -3.0]}


def configs(tier):
    out = []

    def ptf(z, p, **k):
        out.append(dict(id="ptf-%s-%s%s" % (z or "0", p or "0", "".join("-%s%s" % (n, "" if v is True else v) for n, v in k.items())), what="ptf", z=z, p=p, **k))

    def sop(z, p, pg=None, ag=False, **k):
        out.append(dict(id="sop-%s-%s-%s%s%s" % (z or "0", p or "0", pg or "def", "-ag" if ag else "",
                                                "".join("-%s%s" % (n, "" if v is True else v) for n, v in k.items())), what="sop", z=z, p=p, pg=pg, ag=ag, **k))
    # upper case letters are symbolic, lower case fixed
    for z, p in (("", "R"), ("R", "R"), ("", "RR"), ("R", "RR"), ("RR", "RR"), ("RR", "R"), ("", "RRR"), ("RRR", "RRR"),
                 ("R", "RRR"), ("R", ""), ("", ""), ("C", "C"), ("", "C"), ("CR", "CR"), ("C", "CC"), ("C", "R"),
                 ("R", "C"), ("C", ""), ("CC", "CC"), ("CCR", "CRR"), ("RRRR", "RRRR"), ("Crcr", "ccCr"), ("rrrrR", "Rrrr")):
        ptf(z, p)
    ptf("R", "RR", lst=True)
    ptf("C", "CR", lst=True)
    ptf("R", "RR", gain="int")
    ptf("R", "RR", gain="np")
    ptf("R", "RR", gain="arr")
    ptf("RR", "RR", twice=True)
    ptf("C", "CR", twice=True)
    ptf("L", "RR")
    ptf("RR", "L")
    ptf("LR", "L")
    ptf("CL", "LC")
    for rows, n in ((1, 1), (2, 1), (2, 2), (3, 2), (1, 3)):
        for g in ("one", "each"):
            out.append(dict(id="ptf-rows-%d-%d-%s" % (rows, n, g), what="rows", rows=rows, n=n, g=g))
    base = (("", "R"), ("R", "R"), ("", "RR"), ("R", "RR"), ("RR", "RR"), ("", "C"), ("C", "C"), ("R", "C"), ("RR", "C"),
            ("C", "RR"), ("", "Cr"), ("C", "Cr"), ("c", "CR"), ("c", "RRr"), ("cr", "RRr"), ("cr", "Crr"), ("R", "rrr"), ("rr", "RRr"),
            ("rrr", "Rrr"), ("cR", "cr"), ("C", "cC"), ("rr", "cC"), ("Rr", "cc"), ("cC", "cc"), ("cc", "Cc"), ("rR", "Rrr"), ("RR", "rrr"), ("cr", "Rccr"), ("", "Rcrcr"),
            ("crc", "crCr"))
    for pg, ag in ((None, False), ("kd", False), (None, True), ("ml", False)):
        for z, p in base:
            sop(z, p, pg, ag)
    for pg in (None, "kd"):
        for z, p in (("R", ""), ("RR", "R"), ("C", "R"), ("C", ""), ("Rcr", "r"), ("RRr", "")):
            sop(z, p, pg)
    sop("RR", "RR", "nr")
    sop("C", "Cr", "nr")
    sop("RR", "RR", "ml", True)
    for pg, ag in ((None, False), ("kd", False), (None, True), ("ml", False)):
        sop("R", "RR", pg, ag, lst=True)
        sop("C", "Cr", pg, ag, lst=True)
        sop("", "", pg, ag)
        sop("R", "RR", pg, ag, gain="int")
        sop("R", "RR", pg, ag, gain="py")
        sop("R", "RR", pg, ag, twice=True)
        sop("cr", "Cr", pg, ag, big=True)
    for e in ("pairing", "analog-nr", "analog-kd", "improper", "improper-ml", "gain", "lone-zero", "lone-pole", "mismatch"):
        out.append(dict(id="err-" + e, what="err", e=e))
    if tier == "thorough":
        for z, p in (("CR", "CR"), ("RRR", "C"), ("", "RRRR"), ("RR", "RRR"), ("Cc", "cC")):
            for pg, ag in ((None, False), ("kd", False), (None, True), ("ml", False)):
                if len(p.replace("C", "CC")) >= len(z.replace("C", "CC")) or not (ag or pg == "ml"):
                    sop(z, p, pg, ag)
    for c in out:
        c["noval"] = True
        c["branch_timeout"] = 1.0
        c["timeout"] = 10
    return out


def roots(env, name, spec):
    """C/R symbolic pair/real, c/r fixed pair/real, L a lone complex root"""
    out, nf = [], {"c": 0, "r": 0}
    off = 1 if name == "p" else 0
    for k, ch in enumerate(spec):
        if ch in "CL":
            re, im = env.real("%sr%d" % (name, k), -4, 4), env.real("%si%d" % (name, k), -4, 4)
            env.assume(env.gt(im, env.const(0.015625)))
            out.append(env.cplx(re, im))
            if ch == "C":
                out.append(env.cplx(re, -im))
        elif ch == "R":
            out.append(env.real("%s%d" % (name, k), -4, 4))
        else:
            t = FIX[ch][(nf[ch] + 2 * off) % len(FIX[ch])]
            nf[ch] += 1
            if ch == "c":
                re, im = env.const(t[0]), env.const(t[1])
                out += [env.cplx(re, im), env.cplx(re, -im)]
            else:
                out.append(env.const(t))
    return out


def prod(env, xs):
    t = env.const(1)
    for x in xs:
        t = t * x
    return t


def polyval(env, cs, s):
    t = env.const(0)
    for c in cs:
        t = t * s + c
    return t


def container(env, v, spec, cfg):
    a = env.arr(v, dtype="c16" if any(c in "CcL" for c in spec) else "f8")
    return a


def as_list(env, v):
    return list(v)


def gain(env, cfg):
    g = cfg.get("gain", "np" if cfg["what"] == "sop" else "py")
    if g == "int":
        k = env.const(3)
        return k, env.pyint(3)
    k = env.real("k", -10, 10)
    return k, {"np": lambda: env.npfloat(k), "py": lambda: env.pyfloat(k), "arr": lambda: env.arr([k])}[g]()


def sections(env, r, m, s):
    env.check(tuple(env.shape(r)) == (m, 6), "one row of six coefficients per section")
    env.check(env.kind(r) == "f", "real coefficients")
    v = env.vals(r)
    num, den = env.const(1), env.const(1)
    for i in range(m):
        t = v[6 * i:6 * i + 6]
        num, den = num * polyval(env, t[:3], s), den * polyval(env, t[3:], s)
    return num, den


def worst_last(env, cfg, row, z, p):
    """the denominator of the last section vanishes at a pole closest to the unit circle (analog: to the imaginary axis), and, among
    roots that are all real or all complex, its numerator at the zero closest to that pole"""
    cx = [hasattr(v, "re") and hasattr(v, "im") for v in p + z]
    size = lambda v: env.sqrt(v.re * v.re + v.im * v.im) if hasattr(v, "re") and hasattr(v, "im") else env.abs(v)
    re = lambda v: v.re if hasattr(v, "re") and hasattr(v, "im") else v
    dist = [env.abs(re(v)) if cfg["ag"] else env.abs(1 - size(v)) for v in p]

    def zero(cs, v):
        at = polyval(env, cs, v)
        return env.and_(*[env.eq(x, 0) for x in ([at.re, at.im] if hasattr(at, "re") and hasattr(at, "im") else [at])])
    ways = []
    for i, (v, d) in enumerate(zip(p, dist)):
        if all(cx) and i % 2:
            continue
        way = [zero(row[3:], v)] + [env.le(d, e) for e in dist]
        if z and (all(cx) or not any(cx)):
            ws = z[::2] if all(cx) else z
            gap = [size(w - v) for w in ws]
            way.append(env.or_(*[env.and_(zero(row[:3], w), *[env.le(g, h) for h in gap]) for w, g in zip(ws, gap)]))
        ways.append(env.and_(*way))
    env.require(env.or_(*ways), "a worst pole in the last section, with its closest zero")


def errors(env, e):
    R, c, one = lambda *v: env.arr([env.const(x) for x in v]), lambda re, im: env.cplx(env.const(re), env.const(im)), env.pyfloat(env.const(1))
    x = env.real("x", -4, 4)
    z, p, k, kw = env.arr([x]), R(-1, -2), one, {}
    if e == "pairing":
        for bad in ("nearest", "", "NR", "xx"):
            raises(env, ["ValueError"], MOD, "xyz_to_sop", z, p, k, env.string(bad))
        return
    if e in ("analog-nr", "analog-kd"):
        return raises(env, ["ValueError"], MOD, "xyz_to_sop", z, p, k, env.string(e[-2:]), ag=True)
    if e == "improper":
        raises(env, ["ValueError"], MOD, "xyz_to_sop", p, z, k, ag=True)
        raises(env, ["ValueError"], MOD, "xyz_to_sop", z, env.arr([]), k, ag=True)
        return
    if e == "improper-ml":
        return raises(env, ["ValueError"], MOD, "xyz_to_sop", p, z, k, env.string("ml"))
    if e == "gain":
        i = env.real("ki", -4, 4)
        env.assume(env.gt(env.abs(i), env.const(0.015625)))
        g = env.arr([env.cplx(x, i)], dtype="c16")[0]
        raises(env, ["ValueError"], MOD, "xyz_to_sop", z, p, g)
        raises(env, ["ValueError"], MOD, "xyz_to_sop", z, p, g, ag=True)
        return
    y = env.real("y", -4, 4)
    env.assume(env.gt(env.abs(y), env.const(0.015625)))
    lone = env.arr([env.cplx(x, y), c(-1, 0)], dtype="c16")
    if e == "lone-zero":
        a = (lone, p)
    elif e == "lone-pole":
        a = (z, lone)
    else:
        d = env.real("d", -4, 4)
        env.assume(env.gt(env.abs(d), env.const(0.015625)))
        a = (z, env.arr([env.cplx(x, env.const(1)), env.cplx(x + d, env.const(-1))], dtype="c16"))
    raises(env, ["ValueError"], MOD, "xyz_to_sop", a[0], a[1], k)
    raises(env, ["ValueError"], MOD, "xyz_to_sop", a[0], a[1], k, ag=True)


def run(env, cfg):
    if cfg["what"] == "err":
        return errors(env, cfg["e"])
    s = env.real("s", -4, 4)
    if cfg["what"] == "rows":
        rows, n = cfg["rows"], cfg["n"]
        z = [[env.real("z%d_%d" % (i, j), -4, 4) for j in range(n)] for i in range(rows)]
        p = roots(env, "p", "RR")
        ks = [env.real("k%d" % i, -10, 10) for i in range(rows if cfg["g"] == "each" else 1)]
        az = env.arr([v for q in z for v in q], shape=(rows, n))
        r = env.call(MOD, "xyz_to_ptf", az, env.arr(p), env.arr(ks) if cfg["g"] == "each" else env.pyfloat(ks[0]))
        env.check(isinstance(r, tuple) and len(r) == 2, "numerator and denominator")
        env.check(tuple(env.shape(r[0])) == (rows, n + 1), "one numerator per row")
        b, a = env.vals(r[0]), env.vals(r[1], 3)
        for i in range(rows):
            env.close(polyval(env, b[i * (n + 1):(i + 1) * (n + 1)], s), ks[i % len(ks)] * prod(env, [s - v for v in z[i]]),
                      "numerator of row %d" % i)
        env.close(polyval(env, a, s), prod(env, [s - v for v in p]), "denominator")
        return
    zs, ps = cfg["z"], cfg["p"]
    z, p = roots(env, "z", zs), roots(env, "p", ps)
    nz, np_ = len(z), len(p)
    k, kv = gain(env, cfg)
    az, ap = container(env, z, zs, cfg), container(env, p, ps, cfg)
    sz, sp = env.snapshot(az), env.snapshot(ap)
    bz, bp = (as_list(env, az), as_list(env, ap)) if cfg.get("lst") else (az, ap)
    for turn in range(2 if cfg.get("twice") else 1):
        right_n, right_d = k * prod(env, [s - v for v in z]), prod(env, [s - v for v in p])
        if cfg["what"] == "ptf":
            r = env.call(MOD, "xyz_to_ptf", bz, bp, kv)
            env.check(isinstance(r, tuple) and len(r) == 2, "numerator and denominator")
            b, a = env.vals(r[0], nz + 1), env.vals(r[1], np_ + 1)
            env.close(polyval(env, b, s), right_n, "numerator")
            env.close(polyval(env, a, s), right_d, "denominator")
            env.check((env.kind(r[0]) == "f") == ("L" not in zs), "numerator real for conjugate zeros, complex otherwise")
            env.check((env.kind(r[1]) == "f") == ("L" not in ps), "denominator real for conjugate poles, complex otherwise")
        else:
            kw = dict(ag=True) if cfg["ag"] else {}
            args = [env.string(cfg["pg"])] if cfg["pg"] else []
            minimal = cfg["ag"] or cfg["pg"] == "ml"
            if minimal and nz > np_:
                raises(env, ["ValueError"], MOD, "xyz_to_sop", bz, bp, kv, *args, **kw)
                continue
            r = env.call(MOD, "xyz_to_sop", bz, bp, kv, *args, **kw)
            m = max((max(nz, np_) + 1) // 2, 1)
            num, den = sections(env, r, m, s)
            if not minimal:
                right_n = right_n * prod(env, [s] * max(np_ - nz, 0))
                right_d = right_d * prod(env, [s] * max(nz - np_, 0))
            env.close(num * right_d, right_n * den, "transfer function of the cascade")
            v = env.vals(r)
            for i in range(m):
                g = k if i == 0 else env.const(1)
                b = v[6 * i:6 * i + 3]
                env.require(env.or_(*[env.and_(env.eq(b[j], g), *[env.eq(x, 0) for x in b[:j]]) for j in range(1 if not minimal else 3)]),
                            "the gain is in the first section only")
            if m > 1:
                odd = 0 if minimal or cfg["pg"] == "kd" else max(nz, np_) % 2
                pads = [0 if minimal else max(d, 0) + odd for d in (np_ - nz, nz - np_)]
                worst_last(env, cfg, env.vals(r)[-6:], *[v + [env.const(0)] * q for v, q in zip((z, p), pads)])
        if turn == 0 and cfg.get("twice"):
            # a second call with the roots exchanged in place
            t = env.const(0.375)
            az[0] = t
            z = [t] + z[1:] if "C" not in zs[:1] else z
            if "C" in zs[:1]:
                z = [t, env.const(-1.5)] + z[2:]
                az[1] = env.const(-1.5)
            sz = env.snapshot(az)
            bz = az
    env.unchanged(az, sz, "zeros left as they were")
    env.unchanged(ap, sp, "poles left as they were")
