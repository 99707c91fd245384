"""helpers shared by the harnesses"""
SER = "proadv.statistics.series"
DES = "proadv.statistics.descriptive"
REP = "proadv.filtration.replacement.replacements"


def filler(i):
    """fixed dyadic background value for long, mostly concrete inputs"""
    return ((i * 37 + 11) % 64 - 29) / 8


def sparse(env, name, n, pos, **k):
    """length-n data, symbolic at the positions in pos and fixed elsewhere"""
    pos = set(p % n for p in pos)
    return [env.real("%s%d" % (name, i), **k) if i in pos else env.const(filler(i)) for i in range(n)]


def layout(env, x, how):
    """the same values as an array in different memory layouts"""
    if how == "plain":
        return env.arr(x)
    if how == "strided":
        y = []
        for v in x:
            y += [v, env.const(777.0)]
        return env.arr(y)[::2]
    if how == "reversed":
        return env.arr(list(reversed(x)))[::-1]
    if how == "tail":
        return env.arr([env.const(-555.0)] * 3 + list(x))[3:]
    raise AssertionError(how)


def raises(env, names, mod, fn, *a, **k):
    """the call has to raise one of the named exceptions"""
    e, v = env.attempt(mod, fn, *a, **k)
    if e is None:
        env.fail("%s did not raise %s" % (fn, "/".join(names)))
    else:
        env.check(e in names, "%s raised %s, expected %s" % (fn, e, "/".join(names)))
    return e


def finite(env, v):
    """no part of a (possibly complex) result is NaN or infinite"""
    if hasattr(v, "re") and hasattr(v, "im"):
        return env.special(v.re) is None and env.special(v.im) is None
    if isinstance(v, complex):
        return v == v and abs(v) != float("inf")
    return env.special(v) is None
