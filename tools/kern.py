"""Array kernels: which elements each store of a numeric loop nest touches, and with which formula.

The loops are summarised by the abstract interpreter: an iteration counter per loop, indices as linear forms over
counters and sizes. Every store is reported once, with the facts that hold where it happens."""
from apimodel import *


def unwrap(e):
    """drop the conversions to machine ranges"""
    if not isinstance(e, tuple) or not e:
        return e
    t = e[0]
    if t == "wrap":
        return unwrap(e[2])
    if t == "lin":
        r = K(e[1])
        for a, c in e[2]:
            r = add(r, scale(unwrap(a), c))
        return r
    if t in ("shr", "div", "rem", "and", "or", "xor"):
        return (t, unwrap(e[1]), unwrap(e[2]))
    if t == "mul":
        r = K(1)
        for x in e[1]:
            r = mul(r, unwrap(x))
        return r
    return e


def cell(e):
    """(base, index) of the array element a value was read from"""
    if e[0] == "S" and len(e) > 4 and e[2] == "mem":
        return strip_casts(e[3]), unwrap(e[4])
    if e[0] == "S" and len(e) > 4 and e[2] == "phi" and isinstance(e[4], tuple) and len(e[4]) == 1 and isinstance(e[4][0], tuple) and len(e[4][0]) == 2 and e[4][0][0] != "L":
        return strip_casts(e[4][0][0]), unwrap(e[4][0][1])
    return None


def poly(v):
    """float expression as {sorted product: coefficient}; None if not polynomial"""
    t = v[0]
    if t == "f":
        return {(): float(v[1])}
    if t == "fop":
        if v[1] in ("Add", "Sub"):
            a, b = poly(v[2]), poly(v[3])
            if a is None or b is None:
                return None
            r = dict(a)
            for k, c in b.items():
                r[k] = r.get(k, 0.0) + (c if v[1] == "Add" else -c)
            return {k: c for k, c in r.items() if c != 0}
        if v[1] == "Mul":
            a, b = poly(v[2]), poly(v[3])
            if a is None or b is None:
                return None
            r = {}
            for k, c in a.items():
                for l, d in b.items():
                    m = tuple(sorted(k + l, key=repr))
                    r[m] = r.get(m, 0.0) + c * d
            return r
        return None
    if t in ("fneg",) or t == "fop1":
        a = poly(v[-1])
        return None if a is None else {k: -c for k, c in a.items()}
    if t == "un" and v[1] == "Neg":
        a = poly(v[2])
        return None if a is None else {k: -c for k, c in a.items()}
    return {(v,): 1.0}


def minmax(I):
    def mk(op):
        def m(I, st, a, rt, t, fn, bb, depth, fr):
            c = mk_cmp("lt", a[0], a[1])
            d = st.decide(c)
            out = []
            for val in (True, False):
                if d is not None and d != val:
                    continue
                s = st.copy()
                s.assume(c, val)
                if not s.dead and s.feasible():
                    out.append((s, a[0] if val == (op == "min") else a[1]))
            return out
        return m
    I.models["std::intrinsics::integer_min"] = mk("min")
    I.models["std::intrinsics::integer_max"] = mk("max")

    def sat(op):
        def m(I, st, a, rt, t, fn, bb, depth, fr):
            lo, hi = I.p.irange(rt)
            v = sub(a[0], a[1]) if op == "sub" else add(a[0], a[1])
            out = []
            for c, r in ((mk_cmp("lt", v, K(lo)), K(lo)), (mk_cmp("lt", K(hi), v), K(hi)), (None, v)):
                s = st.copy()
                if c is not None:
                    s.assume(c, True)
                else:
                    s.add_cons(sub(v, K(lo)))
                    s.add_cons(sub(K(hi), v))
                if not s.dead and s.feasible():
                    out.append((s, r))
            return out
        return m
    I.models["std::intrinsics::saturating_sub"] = sat("sub")
    I.models["std::intrinsics::saturating_add"] = sat("add")


class Store:
    def __init__(self, n, st, base, idx, v, loops):
        self.n, self.st, self.base, self.idx, self.v, self.loops = n, st, base, idx, v, loops


class Kernel:
    """one run of a kernel function"""

    def __init__(self, P, f, stop=None, peel=0, keep=None, opaque=False, flat=False, unroll=0, width=None, moves=False):
        self.P, self.f = P, f
        self.I = I = Interp(P, inline_std=True, merge=False, max_states=600, peel=peel, flatcast=flat, unroll=unroll)
        if width:
            I.unroll_width = width
        minmax(I)
        if opaque:
            I.untracked = lambda base: base[0] != "L" and (self.keep is None or self.keep(strip_casts(base)))
        self.stores = []
        self.calls = []
        self.backs = []
        self.st = State(I.cx)
        I.loop_events = True
        self.keep = keep

        def on_store(I, st, base, path, v, *_):
            b = strip_casts(base)
            if base[0] == "L" or len(path) != 1 or path[0][0] != "i" or self.keep and not self.keep(b):
                return
            n = len(self.stores)
            s = Store(n, st.copy(), b, unwrap(path[0][1]), v, open_loops(st))
            self.stores.append(s)
            st.ev("st", n)

        def on_back(s, fn, h, lid):
            self.backs.append((lid, s))
        I.on_store = on_store
        self.copies = []
        if moves:
            for nm in ("dwt::memcpy", "memcpy"):
                I.models[nm] = self.memcpy
            for nm in P.bypath:
                if nm.endswith("::memcpy"):
                    I.models[nm] = self.memcpy
        I.on_loop_back = on_back
        if stop:
            def on_call(I, st, path, key, args, rt, t, fn, bb):
                if path is not None and is_log(path):
                    return [(st, I.fresh(st, rt, "log", fn.key, bb))]
                if path is not None and stop(path):
                    st.ev("call", path, tuple(args))
                    self.calls.append((st.copy(), path, args))
                    return [(st, I.fresh(st, rt, "ret", path, fn.key, bb))]
                return None
            I.on_call = on_call

    def memcpy(self, I, st, a, rt, t, fn, bb, depth, fr):
        """a block copy of 4-byte elements is a store of each element"""
        def at(p):
            p = I.as_ptr(p)
            b, i = p[1], unwrap(p[2][-1][1])
            if len(p[2]) != 1:
                return ("S", None, "elsewhere", p), K(0)
            sz = self.P.types[b[2]].get("sz", 1) if b[0] == "cast" else 4
            b = strip_casts(b)
            if b[0] == "S" and sz == 4 and p[1][0] != "cast" and b[1] is not None and b[1] >= 0:
                e = I.ptee(b[1])
                sz = self.P.types[e].get("sz", 4) if e is not None and e >= 0 else 4
                if self.P.tn(e).endswith("c_void"):
                    sz = 1
            c, m = lin_of(scale(i, sz))
            if any(v % 4 for v in (c, *m.values())):
                return ("S", None, "elsewhere", p), K(0)
            return b, mk_lin(c // 4, {x: y // 4 for x, y in m.items()})
        d, s = at(a[0]), at(a[1])
        c, m = lin_of(unwrap(a[2]))
        k = ("S", -1, "k", ("copy", fn.key, bb, fr, len(self.copies)))
        words = mk_lin(c // 4, {x: y // 4 for x, y in m.items()}) if all(v % 4 == 0 for v in (c, *m.values())) else None
        self.copies.append((k, words))
        if words is None:
            words = ("S", -1, "words", k)
        s2 = st.copy()
        s2.add_cons(k)
        s2.add_cons(sub(sub(words, K(1)), k))
        b = st.copy()
        b.ev("loop", None, k)
        n = len(self.stores)
        self.stores.append(Store(n, s2, d[0], add(d[1], k), ("S", None, "mem", s[0], add(s[1], k)), [e for e in open_loops(st)] + [k]))
        b.ev("st", n)
        self.backs.append((k[3], b))
        st.ev("loop", None, k)
        st.ev("endloop", None, k)
        st.add_cons(sub(k, words))
        st.add_cons(sub(words, k))
        I.havoc_base(st, d[0], "memcpy")
        return [(st, a[0])]

    def bound(self, e, lo, hi):
        if lo is not None:
            self.st.add_cons(sub(e, lo))
        if hi is not None:
            self.st.add_cons(sub(hi, e))

    def arg(self, i):
        return self.I.sym(self.f.locals[i], "arg", i)

    def run(self, args):
        self.rets = [(s, r) for s, r in self.I.exec_fn(self.f, args, self.st) if not s.dead]
        return self


def open_loops(st):
    out = []
    for e in st.evlist():
        if e[0] == "loop":
            out.append(e[2])
        elif e[0] == "endloop" and e[2] in out:
            out.remove(e[2])
    return out


def eq(st, a, b):
    d = unwrap(sub(a, b))
    if is_k(d):
        return d[1] == 0
    return st.entails(d) and st.entails(scale(d, -1))


def ge(st, a, b):
    return st.entails(unwrap(sub(a, b)))


def split(e, W, loops):
    """index = W*q + column -> (q, column)"""
    c, m = lin_of(e)
    q, col = K(c // W), K(c % W)
    for a, k in m.items():
        if k % W == 0:
            q = add(q, a, k // W)
        else:
            col = add(col, a, k)
    return q, col


def coverage(kern, s, pieces, lo, hi):
    """do the pieces [a, b) executed on the path ending in s cover [lo, hi)"""
    cur = lo
    left = list(pieces)
    while not ge(s, cur, hi):
        nxt = None
        for p in left:
            if ge(s, cur, p[0]):
                nxt = p
                break
        if nxt is None:
            return False
        left.remove(nxt)
        if ge(s, nxt[1], cur):
            cur = nxt[1]
    return True


def pieces(kern, s, index, W=1, col=lambda st: K(0), cols=None):
    """[a, b) ranges of element numbers stored on the path that ends in state s.
    index: store -> element number (linear) or None; a row counts when its columns 0..cols-1 (default W) are all written."""
    cols = K(W) if cols is None else cols
    evs = s.evlist()
    out = []
    open_ = []
    # straight-line stores
    flat, done = set(), []
    for e in evs:
        if e[0] == "loop":
            open_.append(e[2])
        elif e[0] == "endloop":
            if e[2] in open_:
                open_.remove(e[2])
            done.append(e[2])
        elif e[0] == "st" and not open_:
            flat.add(e[1])
    # whole rows written by single stores and by loops over the columns
    out.extend((j, add(j, K(1))) for j in whole_rows(kern, s, flat, done if W > 1 else (), index, col, cols))
    for k in done:
        out.extend(loop_pieces(kern, s, k, index, W, col, cols))
    return out


def whole_rows(kern, b, ids, inner, index, col, cols):
    """elements whose columns are all written on the path that ends in b"""
    got = {}
    for n in ids:
        x = kern.stores[n]
        j = index(x)
        if j is not None:
            c = col(x)
            got.setdefault(j, []).append((c, add(c, K(1))))
    for ik in inner:
        sts = None
        for _, ids2, _ in body_stores(kern, ik, b):
            h = set()
            for n in ids2:
                x = kern.stores[n]
                j = index(x)
                if j is not None:
                    h.add((j, col(x)))
            sts = h if sts is None else sts & h
        for j, c in sts or ():
            k0, m = lin_of(c)
            if m.get(ik, 0) == 1 and ik not in lin_of(j)[1]:
                got.setdefault(j, []).append((sub(c, ik), c))
    return [j for j, cs in got.items() if coverage(kern, b, cs, K(0), cols)]


def body_stores(kern, k, at):
    """(state, stores made, inner loops finished) in every round of the loop with counter k, as entered on the path of state at"""
    evs = at.evlist()
    pos = max((i for i, e in enumerate(evs) if e[0] == "loop" and e[2] == k), default=None)
    if pos is None:
        return
    before = evs[:pos]
    for l, b in kern.backs:
        if l != k[3]:
            continue
        evs = b.evlist()
        if evs[:pos] != before or len(evs) <= pos or evs[pos][0] != "loop" or evs[pos][2] != k:
            continue
        ids, inner, open_ = set(), set(), []
        for e in evs[pos + 1:]:
            if e[0] == "loop":
                open_.append(e[2])
            elif e[0] == "endloop":
                if e[2] in open_:
                    open_.remove(e[2])
                inner.add(e[2])
            elif e[0] == "st" and not open_:
                ids.add(e[1])
        yield b, ids, inner


def loop_pieces(kern, s, k, index, W, col, cols):
    """ranges a finished loop with counter k has written"""
    js = None
    for b, ids, inner in body_stores(kern, k, s):
        here = set(whole_rows(kern, b, ids, inner if W > 1 else (), index, col, cols))
        js = here if js is None else js & here
    out = []
    for j in js or ():
        c, m = lin_of(j)
        q = m.get(k, 0)
        if q > 0 and all(add(j, K(i)) in js for i in range(q)):
            out.append((sub(j, scale(k, q)), add(sub(j, scale(k, q)), k, q)))
    return out
