"""C23: component transforms and wavelet filters follow the standard."""
from kern import *

LEVEL = "other"
TECHNIQUE = "abstract interpretation (MIR) of the transform kernels with loops summarised by iteration counters: formula, constants, neighbour positions, boundary mirroring and coverage of every store"
NOTE = "Sizes are unbounded (up to 2^26 samples per line). Floating-point formulas are compared as polynomials, so the order of additions is not fixed. The 2-D drivers and the sparse decoder's windows are outside."
EXPLANATION = ("Each transform kernel is interpreted abstractly; every store yields a formula over the array elements it reads, with linear index forms. Component transforms must store exactly the standard's "
               "formula for the same sample; lifting steps must store old +/- the standard's combination of the two neighbours, mirrored at both ends, for every sample of their class and in the standard's order.")
ASSUMPTIONS = ["line lengths are at most 2^26", "distinct pointer parameters address distinct buffers", "samples stay within the 32-bit range, so intermediate wrapping does not occur"]

N26 = K(1 << 26)


def run(R):
    P = Prog("openjp2", "release")
    mct(R, P)
    lift53(R, P)
    interleave(R, P)
    fetch(R, P)
    lift97(R, P)
    interleave8(R, P)
    choice(R, P)
    R.floor("component transforms", 12)


# ------------------------------------------------------------------ component transforms
def lin(c, *terms):
    r = K(c)
    for a, k in terms:
        r = add(r, a, k)
    return r


def mct(R, P):
    for fn, kind in (("opj_mct_encode", "rct"), ("opj_mct_decode", "irct"), ("opj_mct_encode_real", "ict"), ("opj_mct_decode_real", "iict")):
        f = P.find("mct::" + fn)
        k = Kernel(P, f)
        a = [k.arg(i) for i in range(1, 5)]
        k.bound(a[3], None, K(1 << 40))
        k.run(a)
        done = {0: 0, 1: 0, 2: 0}
        for s in k.stores:
            if s.base not in a[:3]:
                R.fail("component transforms", fn + ":target", "%s stores outside its three components" % fn)
                continue
            ci = a.index(s.base)
            bad = formula(kind, ci, s, a)
            R.check("component transforms", bad is None, "%s component %d" % (fn, ci), "%s component %d: %s" % (fn, ci, bad), "%s component %d" % (fn, ci))
            done[ci] += 1
        for st, r in k.rets:
            for ci in range(3):
                ps = pieces(k, st, lambda x: x.idx if x.base == a[ci] else None)
                R.check("component transforms", coverage(k, st, ps, K(0), a[3]), "%s component %d:all" % (fn, ci), "%s does not transform every sample of component %d" % (fn, ci), fn)
        R.check("component transforms", bool(k.rets) and all(done.values()), fn + ":done", "%s does not store all three components" % fn, fn)


def formula(kind, ci, s, a):
    """None if the stored value is the standard's formula for component ci at the same position"""
    x = {}

    def read(e):
        c = cell(e)
        if c is None or c[0] not in a[:3]:
            return None
        if not eq(s.st, c[1], s.idx):
            return "other"
        return a.index(c[0])
    if kind in ("rct", "irct"):
        v = unwrap(s.v)
        atoms = {}

        def collect(e):
            if e[0] == "lin":
                for y, _ in e[2]:
                    collect(y)
            elif e[0] in ("shr", "div"):
                collect(e[1])
            elif e[0] != "k":
                atoms[e] = read(e)
        collect(v)
        if any(i is None for i in atoms.values()):
            return "reads something other than the three components"
        if "other" in atoms.values():
            return "mixes samples of different positions"
        inv = {i: e for e, i in atoms.items()}
        if len(inv) != len(atoms):
            return "reads a component that was already overwritten"
        g = [inv.get(i, ("S", None, "none", i)) for i in range(3)]
        if kind == "rct":
            want = [("shr", lin(0, (g[0], 1), (g[1], 2), (g[2], 1)), K(2)), lin(0, (g[2], 1), (g[1], -1)), lin(0, (g[0], 1), (g[1], -1))][ci]
        else:
            G = lin(0, (g[0], 1), (("shr", lin(0, (g[1], 1), (g[2], 1)), K(2)), -1))
            want = [lin(0, (G, 1), (g[2], 1)), G, lin(0, (G, 1), (g[1], 1))][ci]
        return None if v == want else "the formula is not the standard's"
    p = poly(s.v)
    if p is None:
        return "the formula is not a weighted sum"
    w = {}
    for m, c in p.items():
        if len(m) != 1:
            return "the formula is not a weighted sum"
        i = read(m[0])
        if i is None:
            return "reads something other than the three components"
        if i == "other":
            return "mixes samples of different positions"
        w[i] = w.get(i, 0.0) + c
    T = {"ict": [(0.299, 0.587, 0.114), (-0.16875, -0.33126, 0.5), (0.5, -0.41869, -0.08131)],
         "iict": [(1.0, 0.0, 1.402), (1.0, -0.34413, -0.71414), (1.0, 1.772, 0.0)]}[kind][ci]
    for i in range(3):
        if abs(w.get(i, 0.0) - T[i]) > 2e-6:
            return "the weight of component %d is %.6g, the standard's is %.6g" % (i, w.get(i, 0.0), T[i])
    return None


# ------------------------------------------------------------------ reversible 5/3 lifting
def shape53(s):
    """stored value = old +/- shift of a sum of two reads: (old cell, sign, [neighbour cells], rounding, shift)"""
    v = unwrap(s.v)
    c, m = lin_of(v)
    if c != 0:
        return None
    old, tail = None, []
    for a, k in m.items():
        x = cell(a)
        if x is not None:
            tail.append((x, k))
        elif a[0] in ("shr", "div") and a[2] in (K(1), K(2), K(4)) and k in (1, -1):
            sh = a[2][1] if a[0] == "shr" else {1: 0, 2: 1, 4: 2}[a[2][1]]
            if a[0] == "div":
                return None
            c2, m2 = lin_of(a[1])
            ns = []
            for b, k2 in m2.items():
                y = cell(b)
                if y is None or k2 not in (1, 2):
                    return None
                ns += [y] * k2
            tail.append((("op", k, ns, c2, sh), 1))
        else:
            return None
    ops = [t[0] for t in tail if t[0][0] == "op"]
    olds = [t for t in tail if t[0][0] != "op"]
    if len(ops) == 1 and len(olds) == 1 and olds[0][1] == 1:
        _, k, ns, r, sh = ops[0]
        return olds[0][0], k, ns, r, sh
    if not ops and len(olds) == 2 and sorted(k for _, k in olds) in ([-1, 1], [1, 1]):
        # a single neighbour counted twice: (p + p) >> 1
        return ("pair", olds)
    return None


class Line:
    """how a kernel lays out the samples of one line"""

    def __init__(self, cas, N, sn, dn):
        self.cas, self.N, self.sn, self.dn = cas, N, sn, dn
        self.W = 1
        self.lo = {"low": K(0), "high": K(0)}
        self.hi = {"low": sn, "high": dn}

    def at(self, base, idx, loops):
        """(position, column) of an array element; subclass"""
        q, col = split(idx, self.W, loops)
        return q, col

    def target(self, s):
        return self.at(s.base, s.idx, s.loops)

    def par(self, cls):
        return self.cas if cls == "low" else 1 - self.cas


def check53(R, group, name, k, L, encode, skip=()):
    """every store of kernel run k is a lifting step of line layout L"""
    seen = {"low": [], "high": []}
    single = False
    num = {}
    for s in k.stores:
        tgt = L.target(s) if s.n not in skip else None
        if tgt is None:
            continue
        t, col = tgt
        cls = None
        c, m = lin_of(t)
        if all(x % 2 == 0 for x in m.values()):
            cls = "low" if c % 2 == L.cas else "high"
        key = "%s at %s" % (name, cls)
        if cls is None:
            R.fail(group, name + ":position", "%s stores at a position that is neither low nor high pass for certain" % name)
            continue
        if s.st.entails(sub(K(1), L.N)):
            # one sample: high-pass samples are doubled when coded
            single = True
            v = unwrap(s.v)
            me = None
            if encode and v[0] == "lin" and len(v[2]) == 1 and v[1] == 0 and v[2][0][1] == 2:
                me = cell(v[2][0][0])
            if not encode and v[0] in ("div", "shr") and v[2] == K(2 if v[0] == "div" else 1):
                me = cell(v[1])
            good = cls == "high" and me is not None and eq(s.st, L.at(me[0], me[1], s.loops)[0], t)
            R.check(group, good, name + ":single", "%s: a line of one odd sample must be %s" % (name, "doubled" if encode else "halved"), key)
            continue
        bad = step53(s, L, cls, t, col, encode)
        R.check(group, bad is None, key, "%s: %s" % (key, bad), key)
        first = "high" if encode else "low"
        if cls == first:
            bad = any(has_finished(s.st, x) for x in seen["low" if first == "high" else "high"])
            R.check(group, not bad, key + ":order", "%s: the %s-pass step comes first" % (name, first), key)
        seen[cls].append(s)
        num[s.n] = (cls, unwrap(half(t, L.par(cls))), col)
    for st, r in k.rets:
        if st.entails(sub(K(1), L.N)):
            continue
        for cls in ("low", "high"):
            ps = pieces(k, st, lambda x: num[x.n][1] if x.n in num and num[x.n][0] == cls else None, L.W, lambda x: num[x.n][2])
            R.check(group, coverage(k, st, ps, L.lo[cls], L.hi[cls]), "%s:%s all" % (name, cls), "%s does not lift every %s-pass sample" % (name, cls), name)
    if not any(st.entails(sub(L.N, K(2))) or not st.entails(sub(K(1), L.N)) for st, r in k.rets):
        R.fail(group, name + ":return", "%s never finishes" % name)
    return single


def half(t, par):
    c, m = lin_of(sub(t, K(par)))
    return mk_lin(c // 2, {a: x // 2 for a, x in m.items()})


def has_finished(st, s):
    """store s, or the loop it is in, lies before state st on its path"""
    for e in st.evlist():
        if e[0] == "st" and e[1] == s.n or e[0] == "endloop" and e[2] in s.loops:
            return True
    return False


def step53(s, L, cls, t, col, encode):
    sh = shape53(s)
    if sh is None:
        return "the stored value is not a lifting step"
    want = (2, 2) if cls == "low" else (0, 1)
    sign = (1 if encode else -1) if cls == "low" else (-1 if encode else 1)
    if sh[0] == "pair":
        olds = sh[1]
        me = [x for x, c in olds if c == 1 and pos_is(L, s, x, t, col)]
        nb = [x for x, c in olds if x not in me]
        if len(me) != 1 or len(nb) != 1 or cls != "high" or [c for x, c in olds if x == nb[0]] != [sign]:
            return "the stored value is not a lifting step of this class"
        ns = [nb[0], nb[0]]
    else:
        old, k, ns, r, shift = sh
        if not pos_is(L, s, old, t, col):
            return "the value lifted is not the sample's own"
        if k != sign:
            return "the neighbours are added where they must be subtracted" if k == 1 else "the neighbours are subtracted where they must be added"
        if (r, shift) != want:
            return "rounding %d and shift %d, the standard has %d and %d" % (r, shift, want[0], want[1])
        if len(ns) != 2:
            return "it does not use two neighbours"
    pos = []
    for b, i in ns:
        p = L.at(b, i, s.loops)
        if p is None:
            return "a neighbour lies outside the line"
        if p[1] != col and not eq(s.st, p[1], col):
            return "a neighbour lies in another column"
        pos.append(p[0])

    def left(p):
        return eq(s.st, p, sub(t, K(1))) or eq(s.st, t, K(0)) and eq(s.st, p, add(t, K(1)))

    def right(p):
        return eq(s.st, p, add(t, K(1))) or ge(s.st, add(t, K(1)), L.N) and eq(s.st, p, sub(t, K(1)))
    if left(pos[0]) and right(pos[1]) or left(pos[1]) and right(pos[0]):
        return None
    return "a neighbour is not the adjacent sample, mirrored at the ends"


def pos_is(L, s, c, t, col):
    p = L.at(c[0], c[1], s.loops)
    return p is not None and eq(s.st, p[0], t) and (p[1] == col or eq(s.st, p[1], col))


def variants():
    """(name, cas, samples, low, high) over a free half-length m"""
    m = ("S", -1, "half", 0)
    for cas in (0, 1):
        yield "even start, even length" if cas == 0 else "odd start, even length", cas, scale(m, 2), m, m, m
        yield "even start, odd length" if cas == 0 else "odd start, odd length", cas, add(scale(m, 2), K(1)), (add(m, K(1)) if cas == 0 else m), (m if cas == 0 else add(m, K(1))), m


class RowLine(Line):
    """one row coded in place: high-pass results go to tmp[sn + j], low-pass results to row[j]"""

    def __init__(self, cas, N, sn, dn, row, tmp):
        Line.__init__(self, cas, N, sn, dn)
        self.row, self.tmp = row, tmp

    def at(self, base, idx, loops):
        if base == self.row:
            return idx, K(0)
        if base == self.tmp:
            return add(scale(sub(idx, self.sn), 2), K(1 - self.cas)), K(0)
        return None

    def target(self, s):
        if s.base == self.row:
            return add(scale(s.idx, 2), K(self.cas)) if s.loops or not s.st.entails(sub(K(1), self.N)) else s.idx, K(0)
        return self.at(s.base, s.idx, s.loops)


def lift53(R, P):
    G = "5/3 lifting"
    tid = next(i for i, t in enumerate(P.types) if t and t.get("n") == "dwt::dwt_local")
    flds = P.fields(tid)
    for fn, W, win in (("decode_1", 1, False), ("decode_partial_1", 1, True), ("decode_partial_1_parallel", 4, True)):
        f = P.find("dwt_local::" + fn)
        for vn, cas, N, sn, dn, m in variants():
            k = Kernel(P, f)
            mem = ("S", P.tybyname.get("*mut i32"), "buf", "line")
            vals = {"mem": mem, "dn": dn, "sn": sn, "cas": K(cas)}
            agg = ("agg", "dwt::dwt_local", 0, tuple(vals[n] for n, *_ in flds))
            k.bound(m, K(0), N26)
            k.bound(N, K(1), None)
            p = k.I.newobj(k.st, tid, ("dwt", vn), agg)
            k.keep = lambda b: b == mem
            args = [p]
            L = Line(cas, N, sn, dn)
            L.W = W
            if win:
                w = [k.arg(i) for i in range(2, 6)]
                for x, y in ((K(0), w[0]), (w[0], w[1]), (w[1], sn), (K(0), w[2]), (w[2], w[3]), (w[3], dn)):
                    k.bound(y, x, None)
                args += w
                L.lo, L.hi = {"low": w[0], "high": w[2]}, {"low": w[1], "high": w[3]}
            k.run(args)
            check53(R, G, "%s (%s)" % (fn, vn), k, L, False)
    f = P.find("dwt::opj_dwt_encode_and_deinterleave_h_one_row")
    for vn, cas, N, sn, dn, m in variants():
        k = Kernel(P, f, flat=True, moves=True)
        k.bound(m, K(0), N26)
        k.bound(N, K(1), None)
        row, tmp = k.arg(1), k.arg(2)
        k.run([row, tmp, N, K(1 - cas)])
        L = RowLine(cas, N, sn, dn, row, tmp)
        copies = {s.n for s in k.stores if len(s.loops) == 1 and s.loops[0][3][0] == "copy"}
        check53(R, G, "encode row (%s)" % vn, k, L, True, copies)
        row_end(R, G, "encode row (%s)" % vn, k, L)
    f = P.find("dwt::opj_dwt_encode_and_deinterleave_v")
    for vn, cas, N, sn, dn, m in variants():
        stop = lambda p: p in ("dwt::opj_dwt_fetch_cols_vertical_pass", "dwt::opj_dwt_deinterleave_v_cols")
        k = Kernel(P, f, stop)
        k.bound(m, K(0), N26)
        k.bound(N, K(1), None)
        a = [k.arg(i) for i in range(1, 7)]
        a[2], a[3] = N, K(1 - cas)
        k.keep = lambda b: b == a[1]
        k.run(a)
        L = Line(cas, N, sn, dn)
        L.W = 8
        check53(R, G, "encode columns (%s)" % vn, k, L, True)


# ------------------------------------------------------------------ moving samples between layouts
def stride_pos(idx, stride):
    """idx = stride*row + column -> (row, column)"""
    c, m = lin_of(unwrap(idx))
    row, col = K(0), K(c)
    for a, k in m.items():
        if a == stride:
            row = add(row, K(k))
        elif a[0] == "mul" and stride in a[1]:
            r = list(a[1])
            r.remove(stride)
            p = K(1)
            for x in r:
                p = mul(p, x)
            row = add(row, p, k)
        else:
            col = add(col, a, k)
    return row, col


class Sep:
    """samples of one line with the low-pass half first: element r is low sample r or high sample r - sn"""

    def __init__(self, base, L, stride=None, off=0):
        self.base, self.L, self.stride = base, L, stride

    def at(self, st, idx, loops, other):
        r, col = (idx, K(0)) if self.stride is None else stride_pos(idx, self.stride)
        if ge(st, r, K(0)) and ge(st, sub(self.L.sn, K(1)), r):
            return "low", r, col
        if ge(st, r, self.L.sn) and ge(st, sub(self.L.N, K(1)), r):
            return "high", sub(r, self.L.sn), col
        return None


class SepT(Sep):
    """the same, each column of the working buffer being a row of the source: element = row number + stride*column"""

    def at(self, st, idx, loops, other):
        col, r = stride_pos(idx, self.stride)
        if ge(st, r, K(0)) and ge(st, sub(self.L.sn, K(1)), r):
            return "low", r, col
        if ge(st, r, self.L.sn) and ge(st, sub(self.L.N, K(1)), r):
            return "high", sub(r, self.L.sn), col
        return None


class Inter:
    """samples in place, W columns each"""

    def __init__(self, base, L, W=1):
        self.base, self.L, self.W = base, L, W

    def at(self, st, idx, loops, other):
        q, col = split(idx, self.W, loops)
        c, m = lin_of(q)
        if any(k % 2 for k in m.values()):
            return None
        cls = "low" if c % 2 == self.L.cas else "high"
        return cls, half(q, self.L.par(cls)), col


class Plain:
    """rows by number: stride (None: W columns of the working buffer)"""

    def __init__(self, base, stride=None, W=1):
        self.base, self.stride, self.W = base, stride, W

    def at(self, st, idx, loops, other):
        r, col = stride_pos(idx, self.stride) if self.stride is not None else split(idx, self.W, loops)
        return "row", r, col


def moves(R, G, name, k, src, dst, want, W=1, cols=None, zero=False):
    """every store of k moves the sample of the same number and column; want: class -> [lo, hi)"""
    num = {}
    for s in k.stores:
        if s.base != dst.base:
            continue
        to = dst.at(s.st, s.idx, s.loops, None)
        c = cell(s.v)
        if to is None:
            R.fail(G, name + ":target", "%s stores outside the samples of the line" % name)
            continue
        if zero and s.v in (K(0),) and cols is not None and ge(s.st, to[2], cols):
            num[s.n] = to
            continue
        fr = src.at(s.st, c[1], s.loops, None) if c is not None and c[0] == src.base else None
        good = fr is not None and fr[0] == to[0] and eq(s.st, fr[1], to[1]) and eq(s.st, fr[2], to[2])
        R.check(G, good, "%s:%s sample" % (name, to[0]), "%s does not move the %s sample to its own place" % (name, "low-pass" if to[0] == "low" else "high-pass" if to[0] == "high" else "same"), name)
        num[s.n] = to
    done = False
    for st, r in k.rets:
        done = True
        for cls, (lo, hi) in want.items():
            ps = pieces(k, st, lambda x: num[x.n][1] if x.n in num and num[x.n][0] == cls else None, W, lambda x: num[x.n][2], cols)
            R.check(G, coverage(k, st, ps, lo, hi), "%s:%s all" % (name, cls), "%s does not move every %s sample" % (name, cls), name)
    R.check(G, done, name + ":return", "%s never finishes" % name, name)


def row_end(R, G, name, k, L):
    """the high-pass half computed in the scratch line is copied behind the low-pass half"""
    got = False
    for st, r in k.rets:
        if st.entails(sub(K(1), L.N)):
            continue
        got = True
        ps = pieces(k, st, lambda x: sub(x.idx, L.sn) if x.base == L.row and cell(x.v) == (L.tmp, x.idx) else None)
        R.check(G, coverage(k, st, ps, K(0), L.dn), name + ":copy back", "%s does not put the high-pass half behind the low-pass half" % name, name)
    R.check(G, got, name + ":copy back", "%s never copies the high-pass half back" % name, name)


def interleave(R, P):
    G = "interleaving"
    d32 = next(i for i, t in enumerate(P.types) if t and t.get("n") == "dwt::dwt_local")
    for vn, cas, N, sn, dn, m in variants():
        L = Line(cas, N, sn, dn)

        def mk(fn, **o):
            k = Kernel(P, P.find("dwt::" + fn), flat=True, moves=True, unroll=10, **o)
            k.bound(m, K(0), N26)
            k.bound(N, K(1), None)
            return k
        want = {"low": (K(0), sn), "high": (K(0), dn)}
        k = mk("opj_dwt_deinterleave_h")
        a = [k.arg(1), k.arg(2), dn, sn, K(cas)]
        k.run(a)
        moves(R, G, "deinterleave row (%s)" % vn, k, Inter(a[0], L), Sep(a[1], L), want)
        for fn, nm in (("opj_dwt_interleave_h", "interleave row"), ("opj_dwt_interleave_v", "interleave column")):
            k = mk(fn)
            mem = ("S", P.tybyname.get("*mut i32"), "buf", "line")
            vals = {"mem": mem, "dn": dn, "sn": sn, "cas": K(cas)}
            agg = ("agg", "dwt::dwt_local", 0, tuple(vals[n] for n, *_ in P.fields(d32)))
            a = [k.I.newobj(k.st, d32, ("dwt", vn), agg), k.arg(2)]
            if fn.endswith("_v"):
                a.append(k.arg(3))
                k.bound(a[2], K(1), K(1 << 30))
            k.run(a)
            moves(R, G, "%s (%s)" % (nm, vn), k, Sep(a[1], L, a[2] if len(a) > 2 else None), Inter(mem, L), want)
        k = mk("opj_dwt_deinterleave_v_cols")
        a = [k.arg(1), k.arg(2), dn, sn, k.arg(5), K(cas), k.arg(7)]
        k.bound(a[4], K(1), K(1 << 30))
        k.bound(a[6], K(1), K(8))
        k.run(a)
        moves(R, G, "deinterleave columns (%s)" % vn, k, Inter(a[0], L, 8), Sep(a[1], L, a[4]), want, 8, a[6])


def fetch(R, P):
    G = "interleaving"
    k = Kernel(P, P.find("dwt::opj_dwt_fetch_cols_vertical_pass"), flat=True, moves=True, unroll=10)
    a = [k.arg(i) for i in range(1, 6)]
    k.bound(a[2], K(1), N26)
    k.bound(a[3], K(1), K(1 << 30))
    k.bound(a[4], K(1), K(8))
    k.run(a)
    moves(R, G, "fetch columns", k, Plain(a[0], a[3]), Plain(a[1], None, 8), {"row": (K(0), a[2])}, 8, a[4], True)


# ------------------------------------------------------------------ irreversible 9/7 lifting
ALPHA, BETA, GAMMA, DELTA, KK = -1.586134342059924, -0.052980118572961, 0.882911075530934, 0.443506852043971, 1.230174104914001
# the decoder's high-pass scale is the historic constant the reference implementation documents for 2/K
# (conformance tests depend on it; the step sizes of those bands are halved to match)
ENC = [("high", "lift", ALPHA), ("low", "lift", BETA), ("high", "lift", GAMMA), ("low", "lift", DELTA), ("low", "scale", 1 / KK), ("high", "scale", KK)]
DEC = [("low", "scale", KK), ("high", "scale", 1.625732422), ("low", "lift", -DELTA), ("high", "lift", -GAMMA), ("low", "lift", -BETA), ("high", "lift", -ALPHA)]
STAGE = {"enc": [0, 1, 2, 3, 4, 4], "dec": [0, 0, 1, 2, 3, 4]}
NAMES = {ALPHA: "alpha", BETA: "beta", GAMMA: "gamma", DELTA: "delta"}


def close(a, b):
    return abs(a - b) <= 2e-6 * max(abs(a), abs(b))


def step97(s, L, base, cls, t, col, steps):
    """(index of the step in the table, None) or (None, what is wrong)"""
    p = poly(s.v)
    if p is None or any(len(m) != 1 for m in p):
        return None, "the stored value is not a weighted sum of samples"
    me, nb = 0.0, []
    for m, c in p.items():
        x = cell(m[0])
        if x is None or x[0] != base:
            return None, "it uses something other than samples of the line"
        q, k = L.at(x[0], x[1], s.loops)
        if k != col and not eq(s.st, k, col):
            return None, "a neighbour lies in another column"
        if eq(s.st, q, t):
            me += c
        else:
            nb.append((q, c))
    if not nb:
        for i, (c, kind, v) in enumerate(steps):
            if c == cls and kind == "scale" and close(me, v):
                return i, None
        return None, "the %s-pass scale is %.7g, not the standard's" % (cls, me)
    if not close(me, 1.0):
        return None, "the lifted value is weighted by %.7g" % me
    if len(nb) == 1:
        w = nb[0][1] / 2
        pos = [nb[0][0], nb[0][0]]
    elif len(nb) == 2:
        w = nb[0][1]
        if not close(nb[1][1], w):
            return None, "the two neighbours have different weights"
        pos = [nb[0][0], nb[1][0]]
    else:
        return None, "it uses %d neighbours" % len(nb)

    def left(q):
        return eq(s.st, q, sub(t, K(1))) or eq(s.st, t, K(0)) and eq(s.st, q, add(t, K(1)))

    def right(q):
        return eq(s.st, q, add(t, K(1))) or ge(s.st, add(t, K(1)), L.N) and eq(s.st, q, sub(t, K(1)))
    if not (left(pos[0]) and right(pos[1]) or left(pos[1]) and right(pos[0])):
        return None, "a neighbour is not the adjacent sample, mirrored at the ends"
    for i, (c, kind, v) in enumerate(steps):
        if c == cls and kind == "lift" and close(w, v):
            return i, None
    return None, "the weight of the neighbours is %.9g, which is none of the standard's for the %s-pass" % (w, cls)


def check97(R, G, name, k, L, base, which):
    steps, stage = (ENC if which == "enc" else DEC), STAGE[which]
    num, at = {}, {}
    for s in k.stores:
        if s.base != base or s.n in getattr(k, "skip", ()):
            continue
        t, col = L.at(s.base, s.idx, s.loops)
        c, m = lin_of(t)
        if any(x % 2 for x in m.values()):
            R.fail(G, name + ":position", "%s stores at a position that is neither low nor high pass for certain" % name)
            continue
        cls = "low" if c % 2 == L.cas else "high"
        i, bad = step97(s, L, base, cls, t, col, steps)
        R.check(G, bad is None, "%s at %s" % (name, cls), "%s at %s: %s" % (name, cls, bad), name)
        if bad is None:
            num[s.n] = (i, half(t, L.par(cls)), col)
            at[s.n] = stage[i]
    # stages run one after the other on every path, and each treats every sample of its class
    for st in [r[0] for r in k.rets] + [b for _, b in k.backs]:
        prev = -1
        for n in trail(k, st):
            if n not in at:
                continue
            if isinstance(at[n], int) and at[n] < prev:
                R.fail(G, name + ":order", "%s: the lifting steps are not in the standard's order" % name)
                break
            prev = at[n]
    done = False
    for st, r in k.rets:
        if st.entails(sub(K(1), L.N)):
            continue
        done = True
        for i, (cls, kind, v) in enumerate(steps):
            ps = pieces(k, st, lambda x: num[x.n][1] if x.n in num and num[x.n][0] == i else None, L.W, lambda x: num[x.n][2])
            what = "%s %s" % (cls, "scale" if kind == "scale" else NAMES.get(v) or NAMES[-v])
            R.check(G, coverage(k, st, ps, L.lo[cls], L.hi[cls]), "%s:%s all" % (name, what), "%s does not apply %s to every %s-pass sample" % (name, what, cls), name)
    R.check(G, done, name + ":return", "%s never finishes" % name, name)


def trail(k, st):
    """stores on the path in order; a finished loop stands for the stores of its rounds"""
    body = {}
    for lid, b in k.backs:
        evs = b.evlist()
        pos = max((i for i, e in enumerate(evs) if e[0] == "loop" and e[2][3] == lid), default=None)
        if pos is not None:
            body.setdefault(lid, []).extend(e for e in evs[pos + 1:])
    out = []

    def go(evs):
        for e in evs:
            if e[0] == "st":
                out.append(e[1])
            elif e[0] == "endloop":
                go(body.get(e[2][3], ()))
    go(st.evlist())
    return out


def lift97(R, P):
    G = "9/7 lifting"
    tid = next(i for i, t in enumerate(P.types) if t and str(t.get("n")).endswith("dwt::v8dwt_local"))
    flds = P.fields(tid)
    for vn, cas, N, sn, dn, m in variants():
        # one row
        k = Kernel(P, P.find("dwt::opj_dwt_encode_and_deinterleave_h_one_row_real"), stop=lambda p: p == "dwt::opj_dwt_deinterleave_h", flat=True, moves=True, opaque=True)
        k.bound(m, K(0), N26)
        k.bound(N, K(2), None)
        row, tmp = k.arg(1), k.arg(2)
        k.run([row, tmp, N, K(1 - cas)])
        L = Line(cas, N, sn, dn)
        k.skip = {s.n for s in k.stores if s.loops and s.loops[-1][3][0] == "copy"}
        check97(R, G, "encode row (%s)" % vn, k, L, tmp, "enc")
        # columns
        k = Kernel(P, P.find("dwt::opj_dwt_encode_and_deinterleave_v_real"), stop=lambda p: p in ("dwt::opj_dwt_fetch_cols_vertical_pass", "dwt::opj_dwt_deinterleave_v_cols"), flat=True, opaque=True)
        k.bound(m, K(0), N26)
        k.bound(N, K(2), None)
        a = [k.arg(i) for i in range(1, 7)]
        a[2], a[3] = N, K(1 - cas)
        k.run(a)
        L = Line(cas, N, sn, dn)
        L.W = 8
        check97(R, G, "encode columns (%s)" % vn, k, L, a[1], "enc")
        # decoder, any window
        k = Kernel(P, P.find("dwt::opj_v8dwt_decode"), flat=True, opaque=True, peel=1)
        k.bound(m, K(0), N26)
        k.bound(N, K(2), None)
        w = [("S", P.tybyname["u32"], "win", i) for i in range(4)]
        for x, y in ((K(0), w[0]), (w[0], w[1]), (w[1], sn), (K(0), w[2]), (w[2], w[3]), (w[3], dn)):
            k.bound(y, x, None)
        buf = ("S", next(t for n, t in ((P.tn(t), t) for _, t, *_ in [(f[0], f[1]) for f in flds]) if n.startswith("*mut")), "buf", "line")
        vals = {"wavelet": buf, "dn": dn, "sn": sn, "cas": K(cas), "win_l_x0": w[0], "win_l_x1": w[1], "win_h_x0": w[2], "win_h_x1": w[3]}
        p = k.I.newobj(k.st, tid, ("v8", vn), ("agg", P.tn(tid), 0, tuple(vals[n] for n, *_ in flds)))
        k.keep = lambda b: b == buf
        k.run([p])
        L = Line(cas, N, sn, dn)
        L.W = 8
        L.lo, L.hi = {"low": w[0], "high": w[2]}, {"low": w[1], "high": w[3]}
        check97(R, G, "decode line (%s)" % vn, k, L, buf, "dec")


def interleave8(R, P):
    G = "interleaving"
    tid = next(i for i, t in enumerate(P.types) if t and str(t.get("n")).endswith("dwt::v8dwt_local"))
    flds = P.fields(tid)
    wt = next(t for _, t, *_ in flds if P.tn(t).startswith("*mut"))
    for vn, cas, N, sn, dn, m in variants():
        for fn, rems in (("opj_v8dwt_interleave_v", (None,)), ("opj_v8dwt_interleave_h", range(1, 9))):
            for rem in rems:
                k = Kernel(P, P.find("dwt::" + fn), flat=True, moves=True, unroll=3, width=16, opaque=True)
                k.bound(m, K(0), K(1 << 22))
                k.bound(N, K(1), None)
                w = [("S", P.tybyname["u32"], "win", i) for i in range(4)]
                for x, y in ((K(0), w[0]), (w[0], w[1]), (w[1], sn), (K(0), w[2]), (w[2], w[3]), (w[3], dn)):
                    k.bound(y, x, None)
                buf = ("S", wt, "buf", "line")
                vals = {"wavelet": buf, "dn": dn, "sn": sn, "cas": K(cas), "win_l_x0": w[0], "win_l_x1": w[1], "win_h_x0": w[2], "win_h_x1": w[3]}
                p = k.I.newobj(k.st, tid, ("v8", vn), ("agg", P.tn(tid), 0, tuple(vals[n] for n, *_ in flds)))
                a = [p] + [k.arg(i) for i in (2, 3, 4)]
                k.bound(a[2], N, K(1 << 24))
                k.bound(a[3], K(1), None)
                if rem is None:
                    k.bound(a[3], None, K(8))
                    cols = a[3]
                else:
                    cols = K(rem)
                    if rem < 8:
                        a[3] = cols
                    else:
                        k.bound(a[3], K(8), None)
                k.run(a)
                L = Line(cas, N, sn, dn)
                src = (Sep if fn.endswith("_v") else SepT)(a[1], L, a[2])
                moves(R, G, "%s lines (%s)" % ("interleave 9/7 column" if rem is None else "interleave 9/7 row", vn), k, src, Inter(buf, L, 8), {"low": (w[0], w[1]), "high": (w[2], w[3])}, 8, cols)


# ------------------------------------------------------------------ which transform runs
def choice(R, P):
    """the reversible transforms run exactly when the reversible filter is selected, on components 0, 1, 2 in this order"""
    G = "choice of transform"
    names = {"mct::opj_mct_decode": 1, "mct::opj_mct_encode": 1, "mct::opj_mct_decode_real": 0, "mct::opj_mct_encode_real": 0,
             "dwt::opj_dwt_decode": 1, "dwt::opj_dwt_encode": 1, "dwt::opj_dwt_decode_real": 0, "dwt::opj_dwt_encode_real": 0}
    for fn, want in (("opj_tcd_mct_decode", {"mct::opj_mct_decode", "mct::opj_mct_decode_real"}), ("opj_tcd_mct_encode", {"mct::opj_mct_encode", "mct::opj_mct_encode_real"}),
                     ("opj_tcd_dwt_decode", {"dwt::opj_dwt_decode", "dwt::opj_dwt_decode_real"}), ("opj_tcd_dwt_encode", {"dwt::opj_dwt_encode", "dwt::opj_dwt_encode_real"})):
        f = P.find("tcd::" + fn)
        k = Kernel(P, f, stop=lambda p: p in names or p.startswith("mct::") or p.endswith("opj_malloc") or p.endswith("opj_free"))
        k.run([k.arg(i) for i in range(1, f.argc + 1)])
        seen = set()
        for st, path, args in k.calls:
            if path not in names:
                continue
            seen.add(path)
            q = [x for x in qmfbids(st) if st.decide(mk_cmp("eq", x, K(1))) is not None or st.decide(mk_cmp("eq", x, K(0))) is not None]
            rev = any(st.decide(mk_cmp("eq", x, K(1))) is True or st.decide(mk_cmp("eq", x, K(0))) is False for x in q)
            irr = any(st.decide(mk_cmp("eq", x, K(1))) is False or st.decide(mk_cmp("eq", x, K(0))) is True for x in q)
            good = rev and not irr if names[path] else irr and not rev
            R.check(G, good, fn + ":" + path, "%s runs %s although the %s filter is selected" % (fn, path.split("::")[-1], "irreversible" if names[path] else "reversible"), path)
            if path.startswith("mct::"):
                pos = [comp_of(k.I, a) for a in args[:3]]
                R.check(G, pos == [0, 1, 2], fn + ":" + path + " components", "%s passes components %s to %s" % (fn, pos, path.split("::")[-1]), path)
        R.check(G, seen == want, fn + ":calls", "%s reaches %s, expected %s" % (fn, sorted(seen), sorted(want)), fn)


def qmfbids(st):
    out = set()

    def walk(e):
        if isinstance(e, tuple):
            if len(e) > 4 and e[0] == "S" and e[2] == "fld" and e[4] == "qmfbid":
                out.add(e)
            for x in e:
                walk(x)
    for c in st.facts:
        walk(c)
    for c in st.cons:
        walk(c)
    return out


def comp_of(I, v):
    """number of the tile component whose sample pointer v is"""
    v = strip_casts(v)
    if v[0] == "S" and v[2] == "fld" and v[4] in ("data", "data_win"):
        o = v[3]
        if o[0] == "S" and o[2] == "mem" and is_k(o[4]):
            return o[4][1]
    return None
