"""C28: JP2 header boxes are validated before they describe the image."""
from mir import Prog, Missing, callee, calls
from apimodel import *
import kern
import segread

LEVEL = "other"
TECHNIQUE = "abstract interpretation (MIR) of the box readers and the colour post-processing; every success path's established facts compared with the validity rules, element by element at loop back edges"
NOTE = ("The readers of the image-header, bits-per-component, palette, component-mapping, channel-definition and colour boxes, the box order, and the consistency check before palette and channel "
        "definitions are applied, for boxes of any content and length. The decoded sample values are outside; the tables' contents are C20's.")
EXPLANATION = ("Each box reader is interpreted abstractly over a symbolic box of any length; on every path that reports success the stored values must be those at the box's standard offsets and "
               "the standard's conditions must follow from what was tested. The consistency check is interpreted with all its loops summarised: whatever holds for all channels, columns or mappings "
               "has to be established in every completed round of a loop that runs over all of them, or the round has to leave the refusal flag set, and no later step may reset the flag.")
ASSUMPTIONS = ["box contents are delivered whole to their readers (C20)"]

B = "jp2::opj_jp2_"
VECNEW = ("std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T>::new", "<std::vec::Vec<T> as std::default::Default>::default")


class Run:
    def __init__(self, P, name, stop=(), **opt):
        self.P = P
        self.f = P.find(name)
        self.A = Api(P, (lambda p: p in stop or p.split("::")[-1] in stop), **opt)
        self.I = I = self.A.interp()
        segread.slice_reads(I, [])
        for x in VECNEW:
            I.models[x] = self.new
        I.models["std::vec::Vec::<T, A>::push"] = self.push
        I.models["std::vec::Vec::<T, A>::resize"] = self.resize
        self.pushes, self.backs, self.enters, self.stores = [], {}, {}, []
        self.resized = []
        I.loop_events = True
        I.on_loop_back = lambda s, fn, h, lid: self.backs.setdefault(lid, []).append(s)
        I.on_loop_enter = lambda s, head, fn, h, lid: self.enters.setdefault(lid, []).append(s)
        os_ = I.on_store

        def on_store(I, st, base, path, v):
            if not I.record:
                self.stores.append((base, path, v, st.copy()))
            return os_(I, st, base, path, v) if os_ else None
        self.on_store = on_store
        self.init = State(I.cx)
        self.args = [I.sym(self.f.locals[i], "arg", i) for i in range(1, self.f.argc + 1)]

    def go(self):
        self.outs = [(s, r) for s, r in self.I.exec_fn(self.f, self.args, self.init.copy()) if not s.dead]
        return self

    # vectors: a buffer and a length
    def new(self, I, st, a, rt, t, fn, bb, depth, fr):
        n = st.notes.get("vecs", 0)
        b = I.fresh(st, self.P.fields(rt, 0)[0][1], "vecbuf", fn.key, bb)
        return [(st, ("agg", self.P.tn(rt), 0, (b, K(0))))]

    def push(self, I, st, a, rt, t, fn, bb, depth, fr):
        p = I.as_ptr(a[0])
        n = I.field(st, rdp(I, st, a[0]), 1, "len")
        I.wr(st, p[1], p[2] + (("f", 1, "len"),), add(n, K(1)))
        st.ev("push", a[1])
        if not I.record:
            self.pushes.append((fn.path, n, a[1], st.copy()))
        return [(st, ("agg", "tuple", 0, ()))]

    def resize(self, I, st, a, rt, t, fn, bb, depth, fr):
        p = I.as_ptr(a[0])
        I.wr(st, p[1], p[2] + (("f", 1, "len"),), a[1])
        st.ev("resize", a[1])
        return [(st, ("agg", "tuple", 0, ()))]

    def path(self, arg, names):
        t = self.P.pointee(self.f.locals[arg + 1])
        p = ()
        for n in names:
            if n == "?":
                p += (("as", 1), ("f", 0, "0"))
                t = self.P.fields(t, 1)[0][1]
            else:
                fs = self.P.fields(t, 0)
                i = [k for k, (x, _) in enumerate(fs) if x == n]
                if not i:
                    raise Missing("no field %s in %s" % (n, self.P.tn(t)))
                p += (("f", i[0], n),)
                t = fs[i[0]][1]
        return p, t

    def at(self, s, arg, *names):
        p, _ = self.path(arg, names)
        return self.I.rd(s, self.args[arg], p)

    def some(self, s, arg, *names):
        p, t = self.path(arg, names)
        v = self.I.rd(s, self.args[arg], p)
        if v[0] == "agg":
            return v[2] == 1
        if v in s.var:
            return s.var[v] == 1
        for c in (1, 0):
            d = s.decide(mk_cmp("eq", ("disc", v, t), K(c)))
            if d is not None:
                return d == (c == 1)
        return None

    def covers(self, s, n):
        """loops that have gone over 0..n when s is reached"""
        return [e[1] for e in s.evlist() if e[0] == "endloop" and (s.entails(sub(ks(e[1]), n)) or decide(s, mk_cmp("lt", ks(e[1]), n)) is False)]

    def forall(self, s, n, pred):
        for l in self.covers(s, n):
            if self.backs.get(l) and all(pred(b, ks(l), l) or pred(b, sub(sub(n, K(1)), ks(l)), l) for b in self.backs[l]):
                return l
        return None


def ks(l):
    return ("S", -1, "k", l)


def decide(st, c):
    d = st.decide(c)
    if d is None and c[0] == "cmp":
        a, b = kern.unwrap(c[2]), kern.unwrap(c[3])
        for f, v in st.facts.items():
            if f[0] == "cmp" and f[1] == c[1] and mk_cmp(f[1], kern.unwrap(f[2]), kern.unwrap(f[3])) == mk_cmp(c[1], a, b):
                return v
        d = st.decide(mk_cmp(c[1], a, b))
    return d


def lt(s, a, b):
    return decide(s, mk_cmp("lt", a, b))


def eq(s, a, b):
    a, b = kern.unwrap(a), kern.unwrap(b)
    if a == b:
        return True
    return decide(s, mk_cmp("eq", a, b))


def bytes_at(R_, v, off, w, arg=1):
    """is v the big-endian number of w bytes at off in the box"""
    v = kern.unwrap(v)
    return v[0] == "S" and len(v) == 6 and v[2] == "bytes" and v[3] == R_.args[arg] and kern.unwrap(v[4]) == kern.unwrap(off) and v[5] == K(w)


def boxlen(R_, arg=1):
    return ("S", -2, "len", R_.args[arg])


def ge(s, a, b):
    """a >= b is known"""
    a, b = kern.unwrap(a), kern.unwrap(b)
    return s.entails(sub(a, b)) or decide(s, mk_cmp("lt", a, b)) is False


def same(s, a, b):
    a, b = kern.unwrap(a), kern.unwrap(b)
    return a == b or s.entails(sub(a, b)) and s.entails(sub(b, a)) or eq(s, a, b) is True


def elems(b, where, k):
    """elements k of the lists of the given field that b's facts speak about"""
    out = []

    def look(x):
        if len(x) == 5 and x[0] == "S" and x[2] == "fld" and isinstance(x[3], tuple) and is_elem(x[3], where, k) and x[3] not in out:
            out.append(x[3])
        return False
    for c in list(b.facts) + list(b.cons):
        contains(c, look)
    return out


def is_elem(x, where, k):
    return len(x) >= 5 and x[0] == "S" and x[2] in ("mem", "el") and same_index(x[4], k) and contains(x[3], lambda y: len(y) == 5 and y[0] == "S" and y[2] == "fld" and y[4] == where)


def same_index(a, b):
    return b is None or kern.unwrap(a) == kern.unwrap(b)


def fld(b, e, n):
    out = []

    def look(x):
        if len(x) == 5 and x[0] == "S" and x[2] == "fld" and x[3] == e and x[4] == n:
            out.append(x)
        return False
    for c in list(b.facts) + list(b.cons):
        contains(c, look)
    return out[0] if out else ("S", None, "fld", e, n)


# ------------------------------------------------------------------ single boxes
def unchanged(X, s, fields):
    return [n for n in fields if X.at(s, 0, *n) != X.at(X.init, 0, *n)]


def ihdr(R, P):
    g = "ihdr"
    X = Run(P, B + "read_ihdr").go()
    ALL = [("h",), ("w",), ("bpc",), ("C",), ("UnkC",), ("IPR",), ("has_ihdr",), ("comps", "len"), ("j2k", "ihdr_w"), ("j2k", "ihdr_h")]
    n0 = X.at(X.init, 0, "comps", "len")
    took = 0
    for s, r in X.outs:
        if r == K(0):
            R.check(g, not unchanged(X, s, [("has_ihdr",)]), "refused", "a refused image-header box counts as read", "refusal")
            continue
        R.check(g, r == K(1), "result", "the image-header box reader answers neither yes nor no", "answer")
        first = eq(s, n0, K(0))
        if first is False:
            R.check(g, not unchanged(X, s, ALL), "second", "a second image-header box changes %s" % unchanged(X, s, ALL), "second box ignored")
            continue
        took += 1
        R.check(g, first is True, "first", "an image-header box is taken without knowing whether it is the first", "first box")
        R.check(g, same(s, boxlen(X), K(14)), "size", "an image-header box that is not 14 bytes long is taken", "size")
        for n, o, w in (("h", 0, 4), ("w", 4, 4), ("bpc", 10, 1), ("C", 11, 1), ("UnkC", 12, 1), ("IPR", 13, 1)):
            R.check(g, bytes_at(X, X.at(s, 0, n), K(o), w), "field:" + n, "%s is not the %d bytes at %d of the image-header box" % (n, w, o), "field " + n)
        n = X.at(s, 0, "comps", "len")
        R.check(g, bytes_at(X, n, K(8), 2), "field:components", "the number of components is not the 2 bytes at 8 of the image-header box", "components")
        R.check(g, ge(s, X.at(s, 0, "h"), K(1)) and ge(s, X.at(s, 0, "w"), K(1)), "empty", "an image without height or width is taken", "not empty")
        R.check(g, ge(s, n, K(1)) and ge(s, K(16384), n), "count", "a number of components outside 1..16384 is taken", "component count")
        R.check(g, X.at(s, 0, "has_ihdr") == K(1), "seen", "a valid image-header box does not count as read", "box seen")
        R.check(g, kern.unwrap(X.at(s, 0, "j2k", "ihdr_w")) == kern.unwrap(X.at(s, 0, "w")) and kern.unwrap(X.at(s, 0, "j2k", "ihdr_h")) == kern.unwrap(X.at(s, 0, "h")), "copied", "the size the codestream is compared with is not the box's", "size handed on")
    R.check(g, took > 0, "taken", "no image-header box is ever taken", "taken")
    R.floor(g, 12)


def bpcc(R, P):
    g = "bpcc"
    X = Run(P, B + "read_bpcc").go()
    n = X.at(X.init, 0, "comps", "len")
    took = 0
    for s, r in X.outs:
        if r == K(0):
            R.check(g, not X.covers(s, n), "refused", "a bits-per-component box is refused after it was read", "refusal")
            continue
        took += 1
        R.check(g, r == K(1) and same(s, boxlen(X), n), "size", "a bits-per-component box whose length is not the number of components is taken", "size")
        ls = X.covers(s, n)
        R.check(g, bool(ls), "rounds", "not every component gets its number of bits", "all components")
        for l in ls:
            for b in X.backs.get(l, []):
                ok = [v for base, (path, v) in ((k, (None, c[1])) for k, c in b.mem.items()) if contains(v, lambda x: isinstance(x, tuple) and len(x) == 6 and x[0] == "S" and x[2] == "bytes" and kern.unwrap(x[4]) == ks(l))]
                R.check(g, bool(ok), "value", "a component's bits are not its byte of the box", "component value")
    R.check(g, took > 0, "taken", "no bits-per-component box is ever taken", "taken")
    R.floor(g, 3)


def pclr(R, P):
    g = "pclr"
    X = Run(P, B + "read_pclr").go()
    took = 0
    for s, r in X.outs:
        if r == K(0):
            v = X.at(s, 0, "color", "jp2_pclr")
            R.check(g, v == X.at(X.init, 0, "color", "jp2_pclr"), "refused", "a refused palette box leaves a palette", "refusal")
            continue
        took += 1
        R.check(g, r == K(1) and X_some0(X, s, "jp2_pclr") is False, "second", "a second palette box is taken", "only one palette")
        R.check(g, X.some(s, 0, "color", "jp2_pclr") is True, "stored", "a palette box is taken without its palette being kept", "palette kept")
        at = lambda *n: X.at(s, 0, "color", "jp2_pclr", "?", *n)
        ne, nc = at("nr_entries"), at("nr_channels")
        R.check(g, bytes_at(X, ne, K(0), 2), "entries", "the number of palette entries is not the box's", "entry count")
        R.check(g, bytes_at(X, nc, K(2), 1), "columns", "the number of palette columns is not the box's", "column count")
        R.check(g, ge(s, ne, K(1)) and ge(s, K(1024), ne), "entries:range", "a palette of no or more than 1024 entries is taken", "entry range")
        R.check(g, ge(s, nc, K(1)), "columns:range", "a palette without columns is taken", "column range")
        R.check(g, same(s, at("channel", "len"), nc), "columns:kept", "the columns kept are not as many as the box announces", "columns kept")
        R.check(g, at("cmap", "len") == K(0), "mapping", "a new palette already has a component mapping", "no mapping yet")
        ok = False
        for o in X.covers(s, ne):
            good = bool(X.backs.get(o))
            for b in X.backs.get(o, []):
                ev = after(b, o)
                inner = [e for e in ev if e[0] == "endloop" and ge(b, ks(e[1]), nc)]
                out = outside(ev)
                good = good and len(inner) == 1 and not [e for e in out if e[0] == "push"] and all(len([e for e in outside(after(c, inner[0][1])) if e[0] == "push"]) == 1 for c in X.backs.get(inner[0][1], [])) and bool(X.backs.get(inner[0][1]))
            ok = ok or good
        R.check(g, ok, "values:count", "the palette does not get one value for every entry and column", "one value each")
    cols = vals = 0
    for fn, n, v, s in X.pushes:
        if v[0] == "agg" and "ChannelSign" in v[1]:
            cols += 1
            fs = [x["n"] for x in P.adts[next(k for k in P.adts if k.endswith("Jp2ChannelSign"))]["v"][0]["f"]]
            size, sign = v[3][fs.index("size")], v[3][fs.index("sign")]
            R.check(g, column(P, X, s, n, size, sign), "column", "a column's size and sign are not those of its byte", "column")
        elif v[0] != "agg":
            vals += 1
            R.check(g, entry(P, X, s, v), "value", "a palette value is not read with its column's width", "value")
    R.check(g, took and cols and vals, "taken", "no palette box is ever taken", "taken")
    R.floor(g, 12)


def X_some0(X, s, n):
    """was there one before, as far as s knows"""
    p, t = X.path(0, ("color", n))
    v = X.I.rd(X.init, X.args[0], p)
    if v in s.var:
        return s.var[v] == 1
    for c in (1, 0):
        d = s.decide(mk_cmp("eq", ("disc", v, t), K(c)))
        if d is not None:
            return d == (c == 1)
    return None


def after(b, lid):
    """what happened in this round of the loop"""
    ev = b.evlist()
    i = max((k for k, e in enumerate(ev) if e[0] == "loop" and e[1] == lid), default=0)
    return ev[i + 1:]


def outside(ev):
    """without the rounds of inner loops"""
    out, depth = [], 0
    for e in ev:
        if e[0] == "loop":
            depth += 1
        elif e[0] == "endloop":
            depth -= 1
        elif depth == 0:
            out.append(e)
    return out


def column(P, X, s, n, size, sign):
    from checks.c27 import nev
    import numpy
    at = []

    def look(x):
        if isinstance(x, tuple) and len(x) == 6 and x[0] == "S" and x[2] == "bytes" and x not in at:
            at.append(x)
        return False
    contains(size, look)
    if len(at) != 1 or not bytes_at(X, at[0], add(n, K(3)), 1):
        return False
    v = numpy.arange(256)
    try:
        keep = numpy.ones(256, bool)
        for c, val in s.facts.items():
            if only(c, at[0]):
                keep &= (nev(P, c, {at[0]: v}) != 0) == val
        if not keep.any():
            return True
        zs = numpy.broadcast_to(nev(P, size, {at[0]: v}), (256,))
        sg = numpy.broadcast_to(nev(P, sign, {at[0]: v}), (256,))
        return bool(((zs == (v & 127) + 1) | ~keep).all() and ((sg == (v >> 7)) | ~keep).all())
    except Exception:
        return False


def vals(P, s, x, n):
    """the values below n that s allows for x"""
    from checks.c27 import nev
    import numpy
    v = numpy.arange(n)
    keep = numpy.ones(n, bool)
    for c, t in s.facts.items():
        if only(c, x):
            try:
                keep &= numpy.broadcast_to((nev(P, c, {x: v}) != 0) == t, v.shape)
            except Exception:
                pass
    return set(int(i) for i in v[keep])


def only(c, y):
    """c speaks about y and about no other unknown"""
    def syms(x, out):
        if x == y:
            out.add("y")
        elif isinstance(x, tuple):
            if x and x[0] == "S":
                out.add("other")
            for z in x:
                syms(z, out)
        return out
    return syms(c, set()) == {"y"}


def entry(P, X, s, v):
    v = kern.unwrap(v)
    if not (v[0] == "S" and len(v) == 6 and v[2] == "bytes" and v[3] == X.args[1]):
        return False
    w = v[5]
    sizes = []

    def look(x):
        if isinstance(x, tuple) and len(x) == 5 and x[0] == "S" and x[2] == "fld" and x[4] == "size" and x[3][0] == "S" and x[3][2] == "mem" and x not in sizes:
            sizes.append(x)
        return False
    for c in [w] + list(s.facts) + list(s.cons):
        contains(c, look)
    it = s.notes.get("iter", ())
    mine = [z for z in sizes if kern.unwrap(z[3][4]) in [kern.unwrap(x) for x in it[-1:]] or not it and z[3][4] == K(0) or z[3][4] == K(0) or kern.unwrap(z[3][4])[0] == "S"]
    from checks.c27 import nev
    import numpy
    x = numpy.arange(1, 129)
    for z in mine:
        try:
            keep = numpy.ones(x.shape, bool)
            for c, t in s.facts.items():
                if only(c, z):
                    keep &= (nev(P, c, {z: x}) != 0) == t
            if (numpy.broadcast_to(nev(P, w, {z: x}) == numpy.minimum((x + 7) // 8, 4), x.shape) | ~keep).all():
                return True
        except Exception:
            pass
        b = ("div", add(z, K(7)), K(8))
        if w == b and lt(s, K(4), b) is False or w == b and s.entails(sub(K(4), b)):
            return True
        if w == K(4) and (lt(s, K(4), b) is True or s.entails(sub(b, K(4)))):
            return True
        mn = [x for x in (w,) if contains(x, lambda y: y == b) and contains(x, lambda y: y == K(4)) and contains(x, lambda y: y == "min")]
        if mn:
            return True
    return False


def cmap(R, P):
    g = "cmap"
    X = Run(P, B + "read_cmap").go()
    took = 0
    for s, r in X.outs:
        old = X.at(X.init, 0, "color", "jp2_pclr", "?", "cmap", "len")
        if r == K(0):
            R.check(g, X.at(s, 0, "color", "jp2_pclr") == X.at(X.init, 0, "color", "jp2_pclr"), "refused", "a refused component-mapping box changes the palette", "refusal")
            continue
        took += 1
        nc = X.at(s, 0, "color", "jp2_pclr", "?", "nr_channels")
        R.check(g, r == K(1) and X_some0(X, s, "jp2_pclr") is True, "palette", "a component-mapping box is taken without a palette", "palette first")
        R.check(g, eq(s, old, K(0)) is True, "second", "a second component-mapping box is taken", "only one mapping")
        R.check(g, ge(s, boxlen(X), scale(kern.unwrap(nc), 4)), "size", "a component-mapping box shorter than the palette's columns is taken", "size")
        R.check(g, same(s, X.at(s, 0, "color", "jp2_pclr", "?", "cmap", "len"), nc), "kept", "the mappings kept are not one per palette column", "one per column")
    for fn, n, v, s in X.pushes:
        fs = field_names(P, "opj_jp2_cmap_comp")
        ok = v[0] == "agg" and all(bytes_at(X, v[3][fs.index(x)], add(scale(kern.unwrap(n), 4), K(o)), w) for x, o, w in (("cmp", 0, 2), ("mtyp", 2, 1), ("pcol", 3, 1)))
        R.check(g, ok, "fields", "a component mapping is not the four bytes of its place", "fields")
    R.check(g, took and X.pushes, "taken", "no component-mapping box is ever taken", "taken")
    R.floor(g, 8)


def field_names(P, ty):
    return [x["n"] for x in P.adts[next(k for k in P.adts if k.endswith("::" + ty))]["v"][0]["f"]]


def cdef(R, P):
    g = "cdef"
    X = Run(P, B + "read_cdef").go()
    took = 0
    for s, r in X.outs:
        if r == K(0):
            R.check(g, X.at(s, 0, "color", "jp2_cdef") == X.at(X.init, 0, "color", "jp2_cdef"), "refused", "a refused channel-definition box leaves definitions", "refusal")
            continue
        took += 1
        R.check(g, r == K(1) and X_some0(X, s, "jp2_cdef") is False, "second", "a second channel-definition box is taken", "only one")
        R.check(g, X.some(s, 0, "color", "jp2_cdef") is True, "stored", "a channel-definition box is taken without being kept", "kept")
        n = X.at(s, 0, "color", "jp2_cdef", "?", "info", "len")
        ok = False
        for c in [x for x in s.facts if x[0] == "cmp"] + list(s.cons):
            pass
        cnt = [x for x in subs(s) if bytes_at(X, x, K(0), 2)]
        R.check(g, any(same(s, n, c) and ge(s, c, K(1)) and ge(s, boxlen(X), add(scale(c, 6), K(2))) for c in cnt), "count", "the channel definitions kept are not as many as the box announces and holds, at least one", "count and size")
    for fn, n, v, s in X.pushes:
        fs = field_names(P, "opj_jp2_cdef_info")
        ok = v[0] == "agg" and all(bytes_at(X, v[3][fs.index(x)], add(scale(kern.unwrap(n), 6), K(o)), 2) for x, o in (("cn", 2), ("typ", 4), ("asoc", 6)))
        R.check(g, ok, "fields", "a channel definition is not the six bytes of its place", "fields")
    R.check(g, took and X.pushes, "taken", "no channel-definition box is ever taken", "taken")
    R.floor(g, 8)


def subs(s):
    out = []

    def look(x):
        if isinstance(x, tuple) and x and x[0] == "S" and x not in out:
            out.append(x)
        return False
    for c in list(s.facts) + list(s.cons):
        contains(c, look)
    return out


def colr(R, P):
    g = "colr"
    X = Run(P, B + "read_colr").go()
    KEEP = [("enumcs",), ("color", "icc_profile_len"), ("color", "jp2_has_colr")]
    had = X.at(X.init, 0, "color", "jp2_has_colr")
    kinds = set()
    for s, r in X.outs:
        if r != K(1):
            R.check(g, r == K(0) and not unchanged(X, s, [("color", "jp2_has_colr")]), "refused", "a refused colour box counts as read", "refusal")
            continue
        meth = X.at(s, 0, "meth")
        first = eq(s, had, K(0))
        if first is False:
            R.check(g, not unchanged(X, s, KEEP + [("meth",)]), "second", "a second colour box changes %s" % unchanged(X, s, KEEP + [("meth",)]), "second box ignored")
            kinds.add("second")
            continue
        R.check(g, first is True, "first", "a colour box is taken without knowing whether it is the first", "first box")
        R.check(g, bytes_at(X, meth, K(0), 1) and bytes_at(X, X.at(s, 0, "precedence"), K(1), 1) and bytes_at(X, X.at(s, 0, "approx"), K(2), 1), "fields", "method, precedence or approximation are not the box's first bytes", "fields")
        if eq(s, meth, K(1)) is True:
            kinds.add("enum")
            R.check(g, bytes_at(X, X.at(s, 0, "enumcs"), K(3), 4), "enumcs", "the enumerated colour space is not the 4 bytes at 3", "enumerated space")
            R.check(g, X.at(s, 0, "color", "jp2_has_colr") == K(1), "seen", "a colour box does not count as read", "box seen")
        elif eq(s, meth, K(2)) is True:
            kinds.add("icc")
            R.check(g, same(s, X.at(s, 0, "color", "icc_profile_len"), sub(boxlen(X), K(3))), "icc", "the ICC profile's length is not that of the rest of the box", "profile length")
            R.check(g, X.at(s, 0, "color", "jp2_has_colr") == K(1) and X.some(s, 0, "color", "icc_profile") is True and not unchanged(X, s, [("enumcs",)]), "icc", "the ICC profile is not kept", "profile kept")
        else:
            kinds.add("other")
            R.check(g, eq(s, meth, K(1)) is False and eq(s, meth, K(2)) is False or lt(s, K(2), meth) is True or eq(s, meth, K(0)) is True, "method", "a colour box is taken without knowing its method", "method")
            R.check(g, not unchanged(X, s, KEEP), "unknown", "a colour box of unknown method changes %s" % unchanged(X, s, KEEP), "unknown method ignored")
    R.check(g, kinds == {"second", "enum", "icc", "other"}, "kinds", "only the cases %s of the colour box occur" % sorted(kinds), "kinds of colour box")
    R.floor(g, 8)


# ------------------------------------------------------------------ consistency
def flag_of(X, s):
    """the refusal flag the success depends on: the cell and the loop it was last carried through"""
    for c, v in s.facts.items():
        if c[0] == "cmp" and c[1] == "eq" and K(0) in c[2:]:
            c, v = (c[2] if c[3] == K(0) else c[3]), not v
        if v and c[0] == "S" and len(c) == 5 and c[2] == "phi" and P_bool(X.P, c[1]):
            yield c


def P_bool(P, t):
    return P.kind(t) == "bool"


def check_color(R, P):
    g = "consistency"
    X = Run(P, B + "check_color", stop=("contains", "insert", "std::collections::BTreeSet::<T>::new"))
    X.I.on_store = X.on_store
    X.go()
    nc_img = X.at(X.init, 0, "numcomps")
    cases = set()

    def chans(s):
        if X.some(s, 1, "jp2_pclr") is True:
            e = eq(s, X.at(s0, 1, "jp2_pclr", "?", "cmap", "len"), K(0))
            if e is None:
                return None
            if e is False:
                return X.at(s0, 1, "jp2_pclr", "?", "nr_channels")
        elif X.some(s, 1, "jp2_pclr") is None:
            return None
        return nc_img
    s0 = X.init
    for s, r in X.outs:
        if r == K(0):
            continue
        R.check(g, r == K(1), "result", "the consistency check answers neither yes nor no", "answer")
        hp, hc = X.some(s, 1, "jp2_pclr"), X.some(s, 1, "jp2_cdef")
        R.check(g, hp is not None and hc is not None, "looked", "the consistency check passes without looking for a palette or for channel definitions", "both looked for")
        if hc:
            cases.add("cdef")
            info = X.at(s0, 1, "jp2_cdef", "?", "info", "len")

            def named(b, k, l):
                nr = chans(b)
                if nr is None:
                    return False
                for e in elems(b, "info", k):
                    cn, asoc = fld(b, e, "cn"), fld(b, e, "asoc")
                    if lt(b, cn, nr) is True and (vals(P, b, asoc, 65536) <= {0, 65535} or lt(b, sub(asoc, K(1)), nr) is True):
                        return True
                return False
            R.check(g, X.forall(s, info, named) is not None, "cdef:range", "a channel definition that names a channel that does not exist is let through", "channels defined exist")
            nr = chans(s)

            def defined(b, k, l):
                for c, v in b.facts.items():
                    if v and c[0] == "cmp" and c[1] == "eq":
                        for x, y in (c[2:], c[:1:-1]):
                            x, y = kern.unwrap(x), kern.unwrap(y)
                            if y == kern.unwrap(k) and x[0] == "S" and x[2] == "fld" and x[4] == "cn" and is_elem(x[3], "info", None):
                                return True
                return False
            R.check(g, nr is not None and X.forall(s, nr, defined) is not None, "cdef:complete", "channel definitions that leave out a channel are let through", "all channels defined")
        if hp:
            nch, n = X.at(s0, 1, "jp2_pclr", "?", "nr_channels"), X.at(s0, 1, "jp2_pclr", "?", "cmap", "len")
            full = eq(s, n, nch)
            if full is False or eq(s, n, K(0)) is True:
                cases.add("no mapping")
                continue
            R.check(g, full is True, "cmap:length", "a mapping is let through without comparing its length with the palette", "mapping length")
            cases.add("mapping")
            best = None
            for flag in list(flag_of(X, s)) + [None]:
                bad = mapping(X, P, s, flag, n, nch, nc_img)
                if best is None or len(bad) < len(best):
                    best = bad
            for k in ("cmp", "columns", "flag"):
                R.check(g, k not in best, "cmap:" + k, best.get(k, ""), "mapping " + k)
    # the repair of single-component images
    for base, path, v, st in X.stores:
        n = path[-1][2] if path and path[-1][0] == "f" else None
        r = [p for p in path if p[0] == "i"]
        if n in ("mtyp", "pcol", "cmp") and (contains(base, lambda x: x == "cmap") or r):
            ok = eq(st, nc_img, K(1)) is True and (n == "mtyp" and v == K(1) or n == "pcol" and r and kern.unwrap(v) == kern.unwrap(r[-1][1]))
            R.check(g, ok, "repair:" + n, "the component mapping is changed although it is not that of a single-component image, or to something else than the identity", "mapping repair")
    R.check(g, cases >= {"cdef", "mapping", "no mapping"}, "cases", "only the cases %s of the consistency check occur" % sorted(cases), "cases")
    R.analysed["consistency check"] = ["%d paths, %d loops, %d rounds" % (len(X.outs), len(X.backs), sum(map(len, X.backs.values())))]
    R.floor(g, 20)


def mapping(X, P, s, flag, n, nch, nc_img):
    bad = {}
    order = [e[1] for e in s.evlist() if e[0] == "endloop"]
    cell = flag[4][0] if flag is not None and len(flag[4]) == 1 else None

    def off(b):
        return cell is not None and b.mem.get(cell, (0, None))[1] == K(0)

    def exists(b, k, l):
        return off(b) or any(lt(b, fld(b, e, "cmp"), nc_img) is True for e in elems(b, "cmap", k))

    def sound(b, k, l):
        if off(b):
            return True
        for e in elems(b, "cmap", k):
            m, c = fld(b, e, "mtyp"), fld(b, e, "pcol")
            if not vals(P, b, m, 256):
                return True     # cannot happen
            if vals(P, b, m, 256) <= {0} and vals(P, b, c, 256) <= {0}:
                return True
            if vals(P, b, m, 256) <= {1} and eq(b, c, k) is True and lt(b, c, nch) is not False:
                return True
        return False
    used = []
    for key, p, t in (("cmp", exists, "a mapping that names a component that does not exist is let through"),
                      ("columns", sound, "a mapping of a type other than 0 and 1, of a column out of its place, or a direct use with a column is let through")):
        l = X.forall(s, n, p) or X.forall(s, nch, p)
        if l is None:
            bad[key] = t
        else:
            used.append(l)
    if flag is not None and used:
        upto = order.index(flag[3]) if flag[3] in order else -1
        if any(u not in order or order.index(u) > upto for u in used):
            # the flag looked at is older than the round that sets it
            if any(off(b) for u in used if u not in order or order.index(u) > upto for b in X.backs[u]):
                bad["flag"] = "what the check finds comes after its verdict"
        first = min(order.index(u) for u in used if u in order) if any(u in order for u in used) else 0
        for i, l in enumerate(order[:upto + 1]):
            phi = [v for b in X.enters.get(l, []) for v in [b.mem.get(cell, (0, None))[1]]]
            for b in X.backs.get(l, []):
                v = b.mem.get(cell, (0, None))[1]
                if v != K(0) and not (v is not None and v[0] == "S" and v[2] == "phi" and v[4] == flag[4]) and i >= first:
                    bad["flag"] = "the refusal is forgotten while the check goes on"
            if i > first:
                for v in phi:
                    if v != K(0) and not (v is not None and v[0] == "S" and v[2] == "phi" and v[4] == flag[4] and v[3] in order and order.index(v[3]) >= first):
                        if any(off(b) for u in used for b in X.backs[u]):
                            bad["flag"] = "the refusal is forgotten between two steps of the check"
    elif cell is None and used:
        pass
    return bad


# ------------------------------------------------------------------ applying
def postprocess(R, P):
    g = "applying"
    X = Run(P, B + "apply_color_postprocessing", stop=("opj_jp2_check_color", "opj_jp2_apply_pclr", "opj_jp2_apply_cdef"), havoc=False)
    # the consistency check may repair the mapping, not drop it
    X.go()
    cases = set()
    s0 = X.init
    for s, r in X.outs:
        ev = [(e[1].split("::")[-1], e[2]) for e in s.evlist() if e[0] == "call"]
        ign = eq(s, X.at(s0, 0, "ignore_pclr_cmap_cdef"), K(0))
        sel = eq(s, X.at(s0, 0, "j2k", "m_specific_param", "m_decoder", "m_numcomps_to_decode"), K(0))
        if ign is False or sel is False:
            cases.add("bypass")
            R.check(g, not ev and r == K(1), "bypass", "colour data is used although it was to be left aside", "left aside")
            continue
        R.check(g, ign is True and sel is True, "asked", "colour data is used without knowing whether it is to be left aside", "asked")
        R.check(g, bool(ev) and ev[0][0] == "opj_jp2_check_color" and root(ev[0][1][0])[0] == X.args[1] and nm(ev[0][1][1]) == ["color"], "checked", "colour data is used before it was checked", "checked first")
        if not ev:
            continue
        verdict = result_of(s, "opj_jp2_check_color")
        if verdict is False:
            cases.add("refused")
            R.check(g, len(ev) == 1 and r == K(0), "refused", "refused colour data is used, or the refusal is not reported", "refused")
            continue
        R.check(g, verdict is True, "verdict", "the verdict on the colour data is not looked at", "verdict")
        names = [e[0] for e in ev[1:]]
        hp, hc = X_some(X, s, "jp2_pclr"), X_some(X, s, "jp2_cdef")
        want = []
        if hp:
            empty = eq(s, X.at(s0, 0, "color", "jp2_pclr", "?", "cmap", "len"), K(0))
            R.check(g, empty is not None, "mapping", "a palette is used without knowing whether it is mapped", "mapped?")
            if empty is False:
                want.append("opj_jp2_apply_pclr")
                cases.add("palette")
                if result_of(s, "opj_jp2_apply_pclr") is False:
                    R.check(g, names == want and r == K(0), "palette failed", "a palette that cannot be applied is not reported", "palette failure")
                    cases.add("palette failed")
                    continue
                R.check(g, result_of(s, "opj_jp2_apply_pclr") is True, "palette result", "the result of applying the palette is not looked at", "palette result")
        if hc:
            cases.add("channels")
            want.append("opj_jp2_apply_cdef")
        R.check(g, None not in (hp, hc) and names == want and r == K(1), "order", "after the check %s is applied, not %s" % (names, want), "palette, then channels")
    R.check(g, cases == {"bypass", "refused", "palette", "palette failed", "channels"}, "cases", "only the cases %s of the colour post-processing occur" % sorted(cases), "cases")
    R.floor(g, 10)


def X_some(X, s, n):
    p, t = X.path(0, ("color", n))
    v = X.I.rd(X.init, X.args[0], p)
    w = X.I.rd(s, X.args[0], p)
    for x in (v, w):
        if x[0] == "agg":
            continue
        if x in s.var:
            return s.var[x] == 1
        for c in (1, 0):
            d = s.decide(mk_cmp("eq", ("disc", x, t), K(c)))
            if d is not None:
                return d == (c == 1)
    return None


def nm(v):
    return [p[2] for p in root(v)[1] if p[0] == "f"]


def result_of(s, name):
    """is the operation's result known to be a success"""
    for c, v in s.facts.items():
        if c[0] == "cmp" and c[1] == "eq" and K(0) in c[2:]:
            x = kern.unwrap(c[2] if c[3] == K(0) else c[3])
            if x[0] == "S" and x[2] == "ret" and x[3].endswith("::" + name):
                return not v
    return None


def apply_pclr(R, P):
    g = "palette"
    X = Run(P, B + "apply_pclr", stop=("image::opj_image::take_comps", "image::opj_image::alloc_comps", "alloc_data", "image::opj_image::comps_mut"))
    X.go()
    cases = set()
    n = X.at(X.init, 1, "cmap", "len")
    img = X.args[0]
    for s, r in X.outs:
        ev = [(e[1].split("::")[-1], e[2]) for e in s.evlist() if e[0] == "call"]
        names = [e[0] for e in ev]
        if r == K(0):
            continue
        cases.add("applied")
        R.check(g, names[:2] == ["take_comps", "alloc_comps"], "steps", "the palette is applied by %s" % names, "old components taken, new ones made")
        if "alloc_comps" in names:
            a = ev[names.index("alloc_comps")][1]
            R.check(g, kern.unwrap(a[1]) == kern.unwrap(X.at(X.init, 1, "nr_channels")), "count", "the new components are not as many as the palette's columns", "one component per column")

        def good(b, k, l):
            for e in elems(b, "cmap", k):
                m, c = fld(b, e, "mtyp"), fld(b, e, "pcol")
                if not (vals(P, b, m, 256) <= {0} or eq(b, c, k) is True):
                    continue
                cm = kern.unwrap(fld(b, e, "cmp"))
                for f, v in b.facts.items():
                    if f[0] == "isnull" and v is False and contains(f, lambda x: is_elem(x, "comps", cm)):
                        return True
            return False
        R.check(g, X.forall(s, n, good) is not None, "usable", "a palette is applied to a component without samples, or through a column that is not the channel's own", "samples and columns checked")
    R.check(g, "applied" in cases, "cases", "a palette is never applied", "applied")
    R.floor(g, 3)


def apply_cdef(R, P):
    """channels change places only for colour channels, and later definitions follow"""
    g = "channels"
    X = Run(P, B + "apply_cdef")

    def on_store(I, st, base, path, v):
        if not I.record and path and path[-1][0] == "f" and path[-1][2] == "cn" and len(path) > 1 and contains(base, lambda y: len(y) == 5 and y[0] == "S" and y[2] == "fld" and y[4] == "info"):
            st.ev("renamed", path[-2][1], v)
            X.stores.append((base, path, v, st.copy()))
    X.I.on_store = on_store
    X.go()

    def own(st):
        """the definition being applied: the one whose association was looked at"""
        out = []

        def look(x):
            if len(x) == 5 and x[0] == "S" and x[2] == "fld" and x[4] == "asoc" and is_elem(x[3], "info", None) and x[3] not in out:
                out.append(x[3])
            return False
        for c in st.facts:
            contains(c, look)
        return out[-1] if out else None

    for base, path, v, st in X.stores:
        e, idx = own(st), path[-2][1]
        if e is None:
            R.fail(g, "blind", "a channel number is changed without looking at the definition's association")
            continue
        cn, acn = fld(st, e, "cn"), sub(fld(st, e, "asoc"), K(1))
        R.check(g, eq(st, fld(st, e, "typ"), K(0)) is True and eq(st, cn, acn) is False, "colour", "a channel that is not a colour channel, or in its place already, is exchanged", "only colour channels out of place")
        olds = [fld(st, x, "cn") for x in elems(st, "info", idx)]
        mine = same_index(e[4], idx)
        ok = kern.unwrap(v) == kern.unwrap(acn) and (mine or any(eq(st, c, cn) is True for c in olds)) or kern.unwrap(v) == kern.unwrap(cn) and any(eq(st, c, acn) is True for c in olds)
        R.check(g, ok, "renamed", "a later definition is given another channel than the one that moved", "later definitions follow the exchange")
    n = 0
    for l, bs in X.backs.items():
        for b in bs:
            ev = after(b, l)
            inner = [x for x in X.backs if x != l and any(y[0] == "loop" and y[1] == x for y in ev)]
            if inner or not [y for y in b.evlist() if y[0] == "loop" and y[1] != l]:
                continue
            n += 1
            if [y for y in ev if y[0] == "renamed"]:
                continue
            e = own(b)
            cn, acn = fld(b, e, "cn"), sub(fld(b, e, "asoc"), K(1))
            cs = [c for c in b.facts if c[0] == "cmp" and c[1] == "eq" and b.facts[c] is False]
            seen = [any(kern.unwrap(t) in (kern.unwrap(c[2]), kern.unwrap(c[3])) and contains(c, lambda y: y == ks(l)) for c in cs) for t in (cn, acn)]
            R.check(g, all(seen), "forgotten", "a later definition of an exchanged channel keeps its old number", "no later definition forgotten")
    alpha = [1 for s, r in X.outs]
    R.check(g, bool(X.stores) and n > 0 and bool(alpha), "reached", "channels are never exchanged", "exchange")
    R.floor(g, 6)


# ------------------------------------------------------------------ order of boxes
def const(P, n):
    return next(c["c"]["v"] for k, c in P.consts.items() if k.endswith("::" + n))


def order(R, P):
    g = "order"
    SIG, FT, HD, CS, NONE = (const(P, "JP2_STATE_" + x) for x in ("SIGNATURE", "FILE_TYPE", "HEADER", "CODESTREAM", "NONE"))
    # signature
    X = Run(P, B + "read_jp").go()
    st0 = X.at(X.init, 0, "jp2_state")
    for s, r in X.outs:
        now = X.at(s, 0, "jp2_state")
        if r != K(1):
            R.check(g, r == K(0) and now == st0, "jp:refused", "a refused signature box counts as read", "signature refused")
            continue
        R.check(g, eq(s, st0, K(NONE)) is True, "jp:first", "a signature box is taken that is not the first", "signature first")
        magic = [x for x in subs(s) if bytes_at(X, x, K(0), 4)]
        R.check(g, same(s, boxlen(X), K(4)) and any(eq(s, m, K(0x0D0A870A)) is True for m in magic), "jp:magic", "a signature box with other contents is taken", "signature contents")
        R.check(g, bits(P, now, st0, NONE) == SIG, "jp:state", "a signature box is not remembered", "signature remembered")
    # file type
    X = Run(P, B + "read_ftyp").go()
    st0 = X.at(X.init, 0, "jp2_state")
    for s, r in X.outs:
        now = X.at(s, 0, "jp2_state")
        if r != K(1):
            R.check(g, r == K(0) and now == st0, "ftyp:refused", "a refused file-type box counts as read", "file type refused")
            continue
        R.check(g, eq(s, st0, K(SIG)) is True, "ftyp:second", "a file-type box is taken that does not follow the signature", "file type second")
        R.check(g, ge(s, boxlen(X), K(8)), "ftyp:size", "a file-type box shorter than 8 bytes is taken", "file type size")
        R.check(g, bytes_at(X, X.at(s, 0, "brand"), K(0), 4) and bytes_at(X, X.at(s, 0, "minversion"), K(4), 4), "ftyp:fields", "brand and version are not the box's", "file type fields")
        R.check(g, bits(P, now, st0, SIG) == SIG | FT, "ftyp:state", "a file-type box is not remembered", "file type remembered")
    # the header superbox
    X = Run(P, B + "read_jp2h", stop=("jp2::Jp2BoxHeader::read", "jp2::Jp2BoxHeader::read_content", "is_image_header", "jp2::Jp2BoxHeader::content_length"))
    oc = X.I.on_call

    def on_call(I, st, path, key, a, rt, t, fn, bb):
        if path == "<consts::Jp2BoxType as std::cmp::PartialEq>::eq":
            x, y = (rdp(I, st, v) for v in a)
            n = [v[2] for v in (x, y) if v[0] == "agg"]
            v = ("S", rt, "boxis", tuple(n))
            st.ev("type", tuple(n))
            return [(st, v)]
        return oc(I, st, path, key, a, rt, t, fn, bb)
    X.I.on_call = on_call
    X.go()
    st0 = X.at(X.init, 0, "jp2_state")
    want = P.adts["consts::Jp2BoxType"]["v"]
    ih = [i for i, v in enumerate(want) if v["n"] == "IHDR"][0]
    yes = 0
    for s, r in X.outs:
        if r != K(1):
            R.check(g, r == K(0) and X.at(s, 0, "has_jp2h") == X.at(X.init, 0, "has_jp2h"), "jp2h:refused", "a refused JP2 header counts as read", "header refused")
            continue
        yes += 1
        R.check(g, state_has(P, s, FT), "jp2h:placed", "a JP2 header is taken before the file type", "header after file type")
        R.check(g, X.at(s, 0, "has_jp2h") == K(1) and has_bit(P, s, X.at(s, 0, "jp2_state"), st0, HD), "jp2h:state", "a JP2 header is not remembered", "header remembered")
        # the flag that an image header was among the boxes
        fl = list(flag_of(X, s))
        ok = False
        for c in fl:
            cell = c[4][0] if len(c[4]) == 1 else None
            bs = X.backs.get(c[3], [])
            vals = [(b, b.mem.get(cell, (0, None))[1]) for b in bs]
            sets = [(b, v) for b, v in vals if v != c]
            ent = [b.mem.get(cell, (0, None))[1] for b in X.enters.get(c[3], [])]
            good = bool(sets) and all(v == K(1) and ihdr_taken(b, ih) or v[0] == "S" and v[2] == "boxis" and v[3] == (ih,) for b, v in sets) and all(v == K(0) for v in ent)
            ok = ok or good
        R.check(g, ok, "jp2h:ihdr", "a JP2 header without an image-header box is taken", "image header required")
    for l, bs in X.backs.items():
        for b in bs:
            calls_ = [e for e in after(b, l) if e[0] == "call" and e[1].endswith("read_content")]
            im = [v for c, v in b.facts.items() if c[0] == "S" and c[2] == "ret" and c[3].endswith("is_image_header") or c[0] == "cmp" and contains(c, lambda x: isinstance(x, tuple) and len(x) > 3 and x[0] == "S" and x[2] == "ret" and str(x[3]).endswith("is_image_header"))]
            if calls_:
                R.check(g, content_ok(b), "jp2h:content", "a box inside the JP2 header that was refused is passed over", "refusal of an inner box")
    R.check(g, yes > 0, "jp2h:taken", "no JP2 header is ever taken", "header taken")
    whole(R, P, g, HD, SIG, FT)
    stores(R, P, g)
    R.floor(g, 18)


def content_ok(b):
    """the last box read in this state was not refused"""
    rets = []

    def look(x):
        if len(x) > 3 and x[0] == "S" and x[2] == "ret" and str(x[3]).endswith("read_content") and x not in rets:
            rets.append(x)
        return False
    for c in list(b.facts) + list(b.var):
        contains(c, look)
    for v in rets:
        if b.var.get(v) == 0 or b.decide(mk_cmp("eq", ("disc", v, v[1]), K(0))) is True:
            return True
        for c, t in b.facts.items():
            if c[0] == "cmp" and c[1] == "eq" and K(0) in c[2:] and t is True and any(x[0] == "disc" and x[1] == v for x in c[2:]):
                return True
            if c[0] == "cmp" and c[1] == "eq" and K(1) in c[2:] and t is False and any(x[0] == "disc" and x[1] == v for x in c[2:]):
                return True
    return False


def ihdr_taken(b, ih):
    return any(v is True and c[0] == "S" and c[2] == "boxis" and c[3] == (ih,) for c, v in b.facts.items())


STATES = list(range(32)) + [0x7fffffff]


def bits(P, v, old, known_):
    """v given the old value"""
    from checks.c27 import nev
    import numpy
    try:
        return int(numpy.asarray(nev(P, v, {old: numpy.int64(known_)})))
    except Exception:
        return None


def has_bit(P, s, v, old, bit):
    """v has the bit whatever the old value was, as far as s allows"""
    from checks.c27 import nev
    import numpy
    x = numpy.array(STATES)
    try:
        r = numpy.broadcast_to(nev(P, v, {old: x}), x.shape)
        keep = state_of(P, s, old)
        return bool((((r & bit) == bit) | ~keep).all())
    except Exception:
        return False


def state_of(P, s, old):
    from checks.c27 import nev
    import numpy
    x = numpy.array(STATES)
    keep = numpy.ones(x.shape, bool)
    for c, v in s.facts.items():
        if only(c, old):
            try:
                keep &= (nev(P, c, {old: x}) != 0) == v
            except Exception:
                pass
    return keep


def state_has(P, s, bit):
    """some state of the reader that s knows about had the bit"""
    import numpy
    x = numpy.array(STATES)
    olds = set()
    ix = next(i for k, a in P.adts.items() if k.endswith("::opj_jp2") for i, f in enumerate(a["v"][0]["f"]) if f["n"] == "jp2_state")

    def look(y):
        if y and y[0] == "S" and len(y) == 5 and (y[2] == "fld" and y[4] == "jp2_state" or y[2] == "phi" and isinstance(y[4], tuple) and y[4] and y[4][-1] == ix):
            olds.add(y)
        return False
    for c in s.facts:
        contains(c, look)
    return any(bool((((x & bit) == bit) | ~state_of(P, s, o)).all()) for o in olds)


def whole(R, P, g, HD, SIG, FT):
    X = Run(P, B + "read_header", stop=("opj_jp2_exec", "opj_j2k_read_header", "opj_jp2_setup_decoding_validation", "opj_jp2_setup_header_reading", "copy_icc_profile"), havoc=True)
    X.go()
    n = 0
    for s, r in X.outs:
        ev = [e for e in s.evlist() if e[0] == "call"]
        main = [i for i, e in enumerate(ev) if e[1].endswith("opj_j2k_read_header")]
        if not main:
            R.check(g, r == K(0), "header:refused", "reading the header succeeds without the codestream's header", "no codestream header")
            continue
        n += 1
        for x in ("has_jp2h", "has_ihdr"):
            seen = [c for c, v in s.facts.items() if v is False and c[0] == "cmp" and c[1] == "eq" and K(0) in c[2:] and contains(c, lambda y: y and y[-1] == x)]
            R.check(g, bool(seen), "header:" + x, "the codestream is read although %s is missing" % {"has_jp2h": "the JP2 header", "has_ihdr": "the image-header box"}[x], "required boxes")
        R.check(g, len([e for e in ev[:main[0]] if e[1].endswith("opj_jp2_exec")]) == 2, "header:boxes", "the codestream is read before the boxes", "boxes first")
        cs = [p for p in s.facts]
    R.check(g, n > 0, "header:reached", "the codestream's header is never read", "codestream header")
    X = Run(P, B + "read_header_procedure", stop=("from_stream", "read_content", "is_image_header", "is_file_header", "content_length", "ty_u32", "opj_stream_skip", "opj_stream_get_number_byte_left", "read_exact", "as_mut_slice"))
    oc = X.I.on_call
    cs = [i for i, v in enumerate(P.adts["consts::Jp2BoxType"]["v"]) if v["n"] == "JP2C"][0]

    def on_call(I, st, path, key, a, rt, t, fn, bb):
        if path == "<consts::Jp2BoxType as std::cmp::PartialEq>::eq":
            x, y = (rdp(I, st, v) for v in a)
            return [(st, ("S", rt, "boxis", tuple(v[2] for v in (x, y) if v[0] == "agg")))]
        if path and path.split("::")[-1] in ("is_file_header", "is_image_header"):
            return [(st, ("S", rt, "ret", path, rdp(I, st, a[0])))]
        if path and path.endswith("::read_exact") and path not in P.bypath:
            st.ev("call", path, tuple(a))
            I._havoc_reach(st, a[0], ("call", path))
            return [(st, I.fresh(st, rt, "ret", path, fn.key, bb))]
        return oc(I, st, path, key, a, rt, t, fn, bb)
    X.I.on_call = on_call
    X.go()
    end = 0
    for s, r in X.outs:
        cut = [v for c, v in s.facts.items() if c[0] == "S" and c[2] == "boxis" and c[3] == (cs,)]
        if r == K(1) and cut and cut[-1] is True:
            end += 1
            R.check(g, state_has(P, s, HD), "boxes:codestream", "a codestream box is accepted before the JP2 header", "codestream after header")
    R.check(g, end > 0, "boxes:end", "the box loop never ends at the codestream", "codestream found")
    for l, bs in X.backs.items():
        for b in bs:
            ev = after(b, l)
            if [e for e in ev if e[0] == "call" and e[1].endswith("read_content")]:
                R.check(g, content_ok(b), "boxes:content", "a refused box is passed over", "refusal of a box")
            elif [e for e in ev if e[0] == "call" and e[1].endswith("opj_stream_skip")]:
                need = [bit for bit in (SIG, FT) if not state_has(P, b, bit)]
                mis = any(v is True and (c[0] == "S" and c[2] == "ret" and str(c[3]).endswith("is_image_header")) for c, v in b.facts.items())
                R.check(g, not need or mis, "boxes:skipped", "an unknown box is passed over before signature and file type", "unknown box")


OWN = {"jp2_state": {"opj_jp2_read_jp", "opj_jp2_read_ftyp", "opj_jp2_read_jp2h", "opj_jp2_read_header_procedure", "opj_jp2_default_validation", "opj_jp2_create", "opj_jp2_setup_decoder"},
       "has_jp2h": {"opj_jp2_read_jp2h"}, "has_ihdr": {"opj_jp2_read_ihdr"}}


def stores(R, P, g):
    """who may say that a box was there"""
    for f in P.local_fns():
        if f.inst is not None:
            continue
        for b in f.blocks:
            for st in b["s"]:
                if st[0] == "=" and st[1][1:] and isinstance(st[1][-1], list) and st[1][-1][0] == "." and st[1][-1][2] in OWN:
                    v = st[2]
                    zero = v[0] == "use" and v[1][0] == "k" and v[1][1].get("c", {}).get("v") == 0
                    nm_ = f.path.split("::")[-1]
                    ok = nm_ in OWN[st[1][-1][2]] or zero or not known(P, f.path)
                    R.check(g, ok, "stores:%s:%s" % (st[1][-1][2], nm_), "%s says that %s" % (f.path, st[1][-1][2]), "store of " + st[1][-1][2])


def run(R):
    P = Prog("openjp2", "release")
    ihdr(R, P)
    bpcc(R, P)
    pclr(R, P)
    cmap(R, P)
    cdef(R, P)
    colr(R, P)
    check_color(R, P)
    postprocess(R, P)
    apply_pclr(R, P)
    apply_cdef(R, P)
    order(R, P)
