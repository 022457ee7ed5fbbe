"""Marker segment and box parsing: every byte read, against the bytes there are.

A segment reader is interpreted over all its inputs (segment pointer, length, contents, decoder state all symbolic).
Each read of k bytes at base+o is an obligation o+k <= number of bytes behind base."""
from apimodel import *

MAXC = 16384


def off(p):
    """(root, byte offset) of a byte pointer; (None, None) if the offset is not a plain sum"""
    o = K(0)
    while True:
        if p[0] == "cast":
            p = p[3]
        elif p[0] == "ptr":
            for e in p[2]:
                if e[0] == "i":
                    o = add(o, e[1])
                else:
                    return p, o
            p = p[1]
        else:
            return p, o


def memcpys(P):
    r = getattr(P, "_memcpys", None)
    if r is None:
        r = P._memcpys = {c for f in P.local_fns() for _, t in calls(f) for c in [callee(t)] if c and c.split("::")[-1] in ("memcpy", "memmove", "copy_nonoverlapping")}
    return r


def is_field(b, name):
    return b[0] == "S" and len(b) == 5 and b[2] == "fld" and b[4] == name


class Seg:
    """one interpretation of a reader; obligations end in self.res[(function, kind, k)] = [(ok, detail)]"""

    def __init__(self, P, f, data, size, stop, fork16=(), finv=None, hook=None, **opt):
        self.P, self.f = P, f
        self.data, self.size = data, size
        self.res = {}
        self.order = {}
        A = Api(P, stop, **dict({"merge": True}, **opt))
        self.I = I = A.interp()
        I.cx.finv = finv or {}
        self.fork16 = fork16
        self.outs = None
        self.rec = [t for t in range(len(P.types)) if P.types[t].get('n') == 'u32' or P.tn(t) == 'u32'][0]
        self.recs = set()
        I.models["cio::opj_read_bytes"] = self.read_bytes
        for n, w in (("cio::opj_read_float", 4), ("cio::opj_read_double", 8)):
            I.models[n] = (lambda w: lambda I, st, a, rt, t, fn, bb, depth, fr: self.fixed(I, st, a, rt, t, fn, w))(w)
        for nm in memcpys(P):
            I.models[nm] = self.memcpy
        I.on_deref = self.deref

    def bytes_at(self, st, b):
        """how many bytes lie behind root b; None if b is not parse data"""
        if b == self.data:
            return self.size
        # bytes kept in a record: its length is kept in the same record
        if is_field(b, "m_data") and self.rec is not None:
            self.recs.add(b[3][1] if b[3][0] == "S" else None)
            return ("S", self.rec, "fld", b[3], "m_data_size")
        return None

    def ob(self, st, fn, t, kind, b, o, w):
        if self.I.record:
            return None
        size = self.bytes_at(st, b)
        key = (fn.path, kind, t.get("l"))
        if size is None:
            self.res.setdefault(key, []).append((None, b, o, w, st))
            return None
        bad1 = mk_cmp("lt", size, add(o, w))
        ok = st.decide(bad1) is False and st.decide(mk_cmp("lt", o, K(0))) is False
        self.res.setdefault(key, []).append((ok, b, o, w, st))
        return ok

    def read_bytes(self, I, st, a, rt, t, fn, bb, depth, fr):
        b, o = off(a[0])
        w = a[2]
        self.ob(st, fn, t, "read", b, o, w)
        v = ("S", 12, "bytes", b, o, w)
        unit = ("agg", "tuple", 0, ())
        if w[0] == "k":
            n = w[1]
            if n == 2 and fn.path.endswith(self.fork16):
                out = []
                for hi in (0, 32768):
                    s = st.copy()
                    lo = ("S", 12, "low15", b, o)
                    s.assume(mk_cmp("lt", lo, K(32768)), True)
                    wrp(I, s, a[1], add(lo, K(hi)))
                    out.append((s, unit))
                return out
            wrp(I, st, a[1], v)
            if n < 4:
                st.assume(mk_cmp("lt", v, K(256 ** n)), True)
        else:
            wrp(I, st, a[1], v)
        return [(st, unit)]

    def fixed(self, I, st, a, rt, t, fn, w):
        b, o = off(a[0])
        self.ob(st, fn, t, "read", b, o, K(w))
        I._havoc_reach(st, a[1], ("float", fn.key, t.get("l")))
        return [(st, ("agg", "tuple", 0, ()))]

    def memcpy(self, I, st, a, rt, t, fn, bb, depth, fr):
        b, o = off(a[1])
        self.ob(st, fn, t, "copy", b, o, a[2])
        I._havoc_reach(st, a[0], ("memcpy", fn.key, bb))
        return [(st, a[0])]

    def deref(self, I, st, v):
        b, o = off(v)
        if b == self.data:
            self.res.setdefault((self.f.path, "direct", 0), []).append((st.decide(mk_cmp("lt", o, self.size)) is True, b, o, K(1), st))

    def run(self, args, st=None):
        self.outs = self.I.exec_fn(self.f, args, st or State(self.I.cx))
        return self


def slice_reads(I, seen):
    """byteorder reads from a byte slice: they take what they need or fail; seen gets (function, line, never short)"""
    def rd(n):
        def m(I, st, a, rt, t, fn, bb, depth, fr):
            s = rdp(I, st, a[0])
            w = K(n) if n else a[1]
            p = I.as_ptr(s)
            ln = p[3]
            if ln is None:
                raise Missing("a read from something that is not a byte slice in " + fn.path)
            out = []
            short = mk_cmp("lt", ln, w)
            d = st.decide(short)
            if not I.record:
                seen.append((fn.path, t.get("l"), d is False))
            for val in (False, True):
                if d is not None and d != val:
                    continue
                s2 = st.copy() if d is None else st
                if d is None:
                    s2.assume(short, val)
                    if s2.dead or not s2.feasible():
                        continue
                if val:
                    out.append((s2, ("agg", "std::result::Result", 1, (("S", None, "ioerror"),))))
                else:
                    path = p[2][:-1] + (("i", add(p[2][-1][1], w)),)
                    wrp(I, s2, a[0], ("ptr", p[1], path, sub(ln, w)))
                    tid = I.p.tybyname["u%d" % (8 * n) if n in (1, 2, 4, 8) else "u64" if not n else "u32"]
                    s2.ev("take", fn.path)
                    out.append((s2, ("agg", "std::result::Result", 0, (("S", tid, "bytes", p[1], p[2][-1][1], w),))))
            return out
        return m
    for k, n in (("u8", 1), ("i8", 1), ("u16", 2), ("u24", 3), ("u32", 4), ("u64", 8), ("uint", 0)):
        I.models["byteorder::ReadBytesExt::read_" + k] = rd(n)

    def put(I, st, a, rt, t, fn, bb, depth, fr):
        I._havoc_reach(st, a[0], ("write_all", fn.key, bb))
        return [(st, ("agg", "std::result::Result", 0, (("agg", "tuple", 0, ()),)))]
    for c in {callee(t) for f in I.p.local_fns() for _, t in calls(f)}:
        if c and c.endswith("::write_all") and "for std::vec::Vec<u8" in c:
            I.models[c] = put


def fork_map(f, xs, n=8):
    """[f(x)] in forked workers; the results must be plain data"""
    import multiprocessing as mp
    global _job
    _job = f
    with mp.get_context("fork").Pool(min(n, len(xs))) as p:
        return p.map(_run1, xs, chunksize=1)


def _run1(x):
    import sys
    sys.setrecursionlimit(20000)
    return _job(x)
