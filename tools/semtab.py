"""Compare the partitions of a function with a specification table.

`partitions` interprets a function abstractly; `table` evaluates the condition
and the result of every partition on one representative per input class and
compares it with what the specification says about that class.  The classes
are built from every constant the partitions compare with, so that no two
inputs the code can tell apart by its own tests share a class.
"""
import math
from mir import Missing
from absint import *
from strdom import StrInterp, Eval, Unknown, f32, app, is_app, parse_as, parse_float


class Part:
    __slots__ = ("st", "ret", "panic", "where")

    def __init__(self, st, ret, panic=None, where=None):
        self.st, self.ret, self.panic, self.where = st, ret, panic, where


def partitions(I, fn, args=None, st=None):
    st = st or State(I.cx)
    I.panics = []
    if args is None:
        args = [I.sym(t, "arg", i) for i, t in enumerate(fn.locals[1:fn.argc + 1])]
    outs = I.exec_fn(fn, args, st)
    parts = [Part(s, r) for s, r in outs if not s.dead]
    for s, what, f, b, t in I.panics:
        if not s.dead:
            parts.append(Part(s, None, what, f.key))
    return args, parts


def consts_in(parts):
    """strings, characters and numbers the partitions mention"""
    strs, chars, floats, ints = set(), set(), set(), set()
    seen = set()

    def walk(e):
        if not isinstance(e, tuple):
            return
        try:
            if e in seen:
                return
            seen.add(e)
        except TypeError:
            return
        if len(e) == 2 and e[0] == "str" and isinstance(e[1], str):
            strs.add(e[1])
        elif len(e) == 2 and e[0] == "chr" and isinstance(e[1], int):
            chars.add(chr(e[1]))
        elif len(e) == 2 and e[0] == "f" and isinstance(e[1], str):
            floats.add(e[1])
        elif len(e) == 2 and e[0] == "k" and isinstance(e[1], int):
            ints.add(e[1])
        for x in e:
            walk(x)
    for p in parts:
        for c in p.st.facts:
            walk(c)
        for e in p.st.var:
            walk(e)
        for k in p.st.notes:
            if isinstance(k, tuple) and k[0] == "notvar":
                walk(k[1])
        if p.ret is not None:
            walk(p.ret)
    return strs, chars, floats, ints


def norm(P, v):
    """evaluated value -> comparable form with names"""
    if isinstance(v, tuple) and v and v[0] == "enum":
        _, a, var, fs = v
        if a in ("result",) or a.endswith("result::Result"):
            return ("Ok", norm(P, fs[0])) if var == 0 else ("Err",)
        if a in ("option",) or a.endswith("option::Option"):
            return ("Some", norm(P, fs[0])) if var == 1 else ("None",)
        if a == "tuple":
            return tuple(norm(P, x) for x in fs)
        d = P.adts.get(a)
        if d is None:
            return (a, var) + tuple(norm(P, x) for x in fs)
        vd = d["v"][var]
        nm = a.split("::")[-1]
        if d["kind"] == "enum":
            nm = nm + "::" + vd["n"]
        return (nm,) + tuple(sorted((f["n"], norm(P, x)) for f, x in zip(vd["f"], fs)))
    if isinstance(v, bool):
        return int(v)
    return v


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def table(R, group, I, parts, env_of, reps, spec, fname, show=repr, evalcls=Eval, only=None):
    """every representative: all partitions whose condition holds agree with the specification"""
    P = I.p
    bad = 0
    for rep in reps:
        want = spec(rep)
        E = evalcls(I, env_of(rep))
        hit = 0
        for p in parts:
            try:
                if not E.holds(p.st):
                    continue
                hit += 1
                got = ("PANIC",) if p.panic else outcome(P, E, p.ret)
            except Unknown as u:
                R.fail(group, "undecided:%s:%s" % (fname, str(u)[:60]),
                       "%s: cannot decide the outcome for %s (term %s)" % (fname, show(rep), str(u)[:300]))
                return False
            if not same(got, want):
                bad += 1
                if bad <= 8:
                    R.fail(group, "%s:%s" % (fname, show(rep)),
                           "%s on %s gives %s, specified %s%s" % (fname, show(rep), got, want,
                                                                 " (panic in %s)" % p.where if p.panic else ""))
                break
        else:
            if hit == 0:
                R.fail(group, "nopath:%s" % fname, "%s: no analysed partition covers %s" % (fname, show(rep)))
                return False
            R.ok(group, "%s -> %s" % (show(rep), (want,)))
    return bad == 0


def outcome(P, E, ret):
    if ret[0] == "agg" and ret[1].endswith("result::Result") and ret[2] == 1:
        return ("Err",)   # which error text is reported is not part of the property
    return norm(P, E.ev(ret))


# --------------------------------------------------------------- number classes
def nextf32(x, up):
    import struct
    if math.isnan(x) or math.isinf(x):
        return x
    if x == 0:
        return struct.unpack("f", struct.pack("I", 1))[0] * (1 if up else -1)
    b = struct.unpack("I", struct.pack("f", x))[0]
    b += 1 if (x > 0) == up else -1
    return struct.unpack("f", struct.pack("I", b))[0]


def float_tokens(consts):
    """one decimal spelling in every class of the comparisons with the constants"""
    out = ["nan", "NaN", "-nan", "inf", "-inf", "infinity", "-0", "0", "0.0", "-1", "-0.5", "1e-45", "5", "+5", "1e400", "-1e400",
           "3.4028235e38", "abc", "", " 5", "5 ", "0x10", "1_0", "5%", "١"]
    for c in consts:
        x = f32(float(c))
        if math.isnan(x) or math.isinf(x):
            continue
        for y in (x, nextf32(x, True), nextf32(x, False), x / 2, x * 2, x + 1, x - 1):
            out.append(repr(f32(y)))
    return list(dict.fromkeys(out))


def int_tokens(consts):
    out = ["0", "1", "2", "5", "+5", "-1", "-0", "00", "007", "4294967295", "4294967296", "99999999999999999999", "1.5", "1e3", "abc", "", " 5", "5 ", "0x10"]
    for c in consts:
        for y in (c - 1, c, c + 1):
            if -(1 << 33) < y < (1 << 70):
                out.append(str(y))
    return list(dict.fromkeys(out))


def perturb(w):
    out = [w, w.upper(), w.capitalize(), w + "x", "x" + w, w[:-1], w[1:], w + " ", " " + w, w + w, w + ".", w + "\0",
           w.swapcase(), w + "/", w + ",", w[::-1]]
    if len(w) > 1:
        out.append(w[:1].swapcase() + w[1:])
        out.append(w[:-1] + w[-1].swapcase())
        out.append(w[:len(w) // 2] + "_" + w[len(w) // 2:])
        for c in TAILS:
            out.append(w + c)
            out.append(c + w)
        for i in range(len(w)):
            out.append(w[:i] + w[i + 1:])
            out.append(w[:i] + w[i].swapcase() + w[i + 1:])
            out.append(w[:i] + "\u017f" + w[i + 1:])
    return out


TAILS = [chr(c) for c in range(0x20, 0x7f)] + ["\t", "\n", "\r", "\x0b", "\x7f", "\u00a0", "\u2003", "\u3000", "\ufeff", "\u0130", "e\u0301", ".jpg", "%20"]
