"""C24: the packet iterator nests layer, resolution, component and position as the order's name says."""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
from apimodel import *
from mir import Prog, callee, calls, Missing
from lay import Unk
import kern

LEVEL = "other"
TECHNIQUE = "abstract interpretation of the packet iterators between loop heads, each edge matched against the reference nesting of the order (simulation relation); tables read from the compiled program"
NOTE = "every edge between loop heads of every iterator is a sequence of steps of the order's reference nesting"
EXPLANATION = """opj_pi_next is interpreted once per progression code: each of the five codes reaches exactly one iterator. Each iterator is
interpreted from its current MIR with the heads of its packet loops as cut points; a head together with the live locals that determine where
the walk resumes (state numbers of the c2rust state machines, flags, pointers to the current component or resolution) is a node, every path
between two heads an edge. A phase (test or step of one level) of the reference nesting of the order is assigned to every node such that every
edge is a run of steps of the reference from phase to phase with exactly the reference's new values of the counters, limits and position steps;
a packet is yielded only in the innermost phase, for the include index of the current counters, only if the entry was 0, and the entry becomes
1; the walk ends only when the outermost level is done, the index is out of range or the bounds are refused; no cycle of edges makes no step.
For the position orders the guards of the edges that open or skip a resolution, and the precinct number they set, are compared with ISO 15444-1
B.12.1.3-5 on a numeric grid of tile corners, subsampling, levels and precinct sizes, and the step of the position loops with the smallest
precinct distance. opj_j2k_get_num_tp (count and level of the division), opj_pi_create_encode and opj_pi_check_next_level (which packets the
n-th tile-part takes: an odometer of the levels above the division, for every order, level, first or later part and the cinema profiles) and
the order tables (names, codes, levels, both directions) are interpreted for every code."""
ASSUMPTIONS = ["the conditions for a position to start a packet are compared at sampled values (grid), not proved equal",
               "position divisions of tile-parts are checked as the odometer over the grid of the smallest precinct distance; whether opj_j2k_get_num_tp counts as many parts as that grid has positions is not decided",
               "the include array is zero before the first packet (opj_pi_create_decode / opj_pi_initialise_encode allocate it with calloc)"]

ORDERS = {0: "LRCP", 1: "RLCP", 2: "RPCL", 3: "PCRL", 4: "CPRL"}
LEVELS = {0: ("layno", "resno", "compno", "precno"), 1: ("resno", "layno", "compno", "precno"),
          2: ("resno", "y", "x", "compno", "layno"), 3: ("y", "x", "compno", "resno", "layno"), 4: ("compno", "y", "x", "resno", "layno")}
START = {"layno": "layno0", "resno": "resno0", "compno": "compno0", "precno": "precno0", "y": "ty0", "x": "tx0"}
LIMIT = {"layno": "layno1", "resno": "resno1", "compno": "compno1", "precno": "precno1", "y": "ty1", "x": "tx1"}
U32 = (0, (1 << 32) - 1)
PROGRESS = ("layno", "resno", "compno", "precno", "x", "y")


# ------------------------------------------------------------- evaluation of expressions
class Ev:
    def __init__(self, P, env, n):
        self.P, self.env, self.n = P, env, n
        self.memo = {}

    def wrap(self, x, lo, hi):
        w = hi - lo + 1
        if w >= 1 << 63:
            return x            # the sampled values stay far below
        return (x - lo) % w + lo

    def ev(self, e):
        if e in self.memo:
            return self.memo[e]
        r = self.ev1(e)
        self.memo[e] = r
        return r

    def ev1(self, e):
        t = e[0]
        if t == "k":
            return np.int64(max(min(e[1], 1 << 62), -(1 << 62)))
        if e in self.env:
            return self.env[e]
        if t == "lin":
            r = np.int64(max(min(e[1], 1 << 62), -(1 << 62)))
            for a, k in e[2]:
                r = r + self.ev(a) * np.int64(k)
            return r
        if t == "wrap":
            return self.wrap(self.ev(e[2]), *e[1])
        if t == "cast":
            return self.ev(e[3])
        if t == "mul":
            r = np.int64(1)
            for a in e[1]:
                r = r * self.ev(a)
            return r
        if t in ("div", "rem"):
            a, b = self.ev(e[1]), self.ev(e[2])
            z = np.asarray(b) == 0
            b = np.where(z, 1, b)
            q = np.sign(a) * np.sign(b) * (np.abs(a) // np.abs(b))
            return q if t == "div" else a - b * q
        if t in ("and", "or", "xor") or t == "S" and len(e) == 5 and e[2] in ("and", "or", "xor"):
            k, a, b = (t, e[1], e[2]) if t != "S" else (e[2], e[3], e[4])
            a, b = self.ev(a), self.ev(b)
            return a & b if k == "and" else a | b if k == "or" else a ^ b
        if t in ("shr", "shl") or t == "S" and len(e) == 5 and e[2] in ("shl", "shr"):
            k, a, b = (t, e[1], e[2]) if t != "S" else (e[2], e[3], e[4])
            a, b = self.ev(a), self.ev(b)
            lo, hi = self.P.irange(e[1]) if t == "S" else (0, (1 << 64) - 1)
            bits = (hi - lo + 1).bit_length() - 1
            b = np.where((b >= 0) & (b < bits), b, 0)       # larger ones stop a debug build, which is asked separately
            return self.wrap(a << b if k == "shl" else a >> b, lo, hi)
        if t == "S" and len(e) == 4 and e[2] == "pow2":
            b = self.ev(e[3])
            lo, hi = self.P.irange(e[1]) if e[1] is not None and e[1] >= 0 else (0, (1 << 64) - 1)
            bits = (hi - lo + 1).bit_length() - 1
            return np.int64(1) << np.where((b >= 0) & (b < bits), b, 0)
        if t == "cmp":
            a, b = self.ev(e[2]), self.ev(e[3])
            return (a < b if e[1] == "lt" else a <= b if e[1] == "le" else a == b) * np.int64(1)
        if t == "not":
            return np.int64(1) - self.ev(e[1])
        if t == "band":
            return self.ev(e[1]) & self.ev(e[2])
        raise Unk(str(e)[:100])

    def truth(self, c):
        return np.broadcast_to(np.asarray(self.ev(c)) != 0, (self.n,))


def atoms(e, acc):
    """the unknowns of an expression"""
    if not isinstance(e, tuple) or not e:
        return
    if e[0] == "S" and not (len(e) == 5 and e[2] in ("shl", "shr", "and", "or", "xor") or len(e) == 4 and e[2] == "pow2"):
        acc.add(e)
        return
    for x in e:
        if isinstance(x, tuple):
            atoms(x, acc)


RNG = np.random.RandomState(7)
NUMS = 400


def same(P, a, b):
    """equal for every value of their unknowns? (structurally, or on sampled values)"""
    if a == b:
        return True
    acc = set()
    atoms(a, acc)
    bcc = set()
    atoms(b, bcc)
    if a[0] in ("ptr", "agg") or b[0] in ("ptr", "agg"):
        return False
    env = {}
    for s in sorted(acc | bcc, key=repr):
        small = RNG.randint(0, 60, NUMS)
        big = RNG.randint(0, 1 << 20, NUMS)
        env[s] = np.where(RNG.randint(0, 2, NUMS) > 0, small, big).astype(np.int64)
        env[s][:5] = (0, 1, 2, 3, 4)
    try:
        E = Ev(P, env, NUMS)
        return bool(np.all((np.asarray(E.ev(a)) - np.asarray(E.ev(b))) % (1 << 32) == 0))
    except Unk:
        return False


# ------------------------------------------------------------- finding the iterator's loops
def writes_of(P, f, memo, names=PROGRESS):
    """names of iterator fields written by f or by what it calls, and the blocks that do so"""
    if f.key in memo:
        return memo[f.key]
    memo[f.key] = (set(), set())
    got, blocks = set(), set()
    for bb, b in enumerate(f.blocks):
        for s in b["s"]:
            if s[0] == "=" and len(s[1]) > 1:
                l = s[1][-1]
                if isinstance(l, list) and l[0] == "." and l[2] in names and holder(P, f, s[1]):
                    got.add(l[2])
                    blocks.add(bb)
        t = b["t"]
        if t["k"] == "call":
            if t.get("d") and len(t["d"]) > 1 and t["d"][-1][0] == "." and t["d"][-1][2] in names and holder(P, f, t["d"]):
                got.add(t["d"][-1][2])
                blocks.add(bb)
            g = P.fns.get(t.get("key"))
            if g is not None and g.local:
                w = writes_of(P, g, memo, names)[0]
                if w:
                    got |= w
                    blocks.add(bb)
    memo[f.key] = (got, blocks)
    return memo[f.key]


def holder(P, f, pl):
    """does the place lie directly in a packet iterator?"""
    tid = f.locals[pl[0]]
    for p in pl[1:-1]:
        if p == "*":
            tid = P.pointee(tid)
        elif p[0] == ".":
            fs = dict(enumerate(P.fields(tid, 0)))
            tid = fs[p[1]][1] if p[1] in fs else None
        else:
            tid = None
        if tid is None:
            return False
    return P.types[tid].get("d", "").endswith("opj_pi_iterator")


def main_loops(P, f, memo):
    w, blocks = writes_of(P, f, memo)
    if not w:
        return set()
    return {h for h, body in f.cfg().loops.items() if body & blocks}


def liveness(f):
    """locals that may be read before they are written, per block start"""
    n = len(f.blocks)
    use, de = [set() for _ in range(n)], [set() for _ in range(n)]

    def rdpl(pl, u, d):
        if pl[0] not in d:
            u.add(pl[0])
        for p in pl[1:]:
            if isinstance(p, list) and p[0] == "[]" and p[1] not in d:
                u.add(p[1])

    def rdop(o, u, d):
        if isinstance(o, list) and o and o[0] in ("c", "m") and isinstance(o[1], list):
            rdpl(o[1], u, d)

    def scan(x, u, d):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list):
                rdpl(x[1], u, d)
                return
            if len(x) == 3 and x[0] == "ref" and isinstance(x[2], list):
                rdpl(x[2], u, d)
                return
            if x and x[0] == "disc":
                rdpl(x[1], u, d)
                return
            for y in x:
                scan(y, u, d)
        elif isinstance(x, dict):
            for y in x.values():
                scan(y, u, d)
    succ = [[] for _ in range(n)]
    for b in range(n):
        u, d = use[b], de[b]
        for s in f.blocks[b]["s"]:
            if s[0] == "=":
                scan(s[2], u, d)
                if len(s[1]) == 1:
                    if s[1][0] not in u:
                        d.add(s[1][0])
                else:
                    rdpl(s[1], u, d)
            else:
                scan(s[1:], u, d)
        t = f.blocks[b]["t"]
        for k, v in t.items():
            if k not in ("d",) or t["k"] == "switch":
                scan(v, u, d)
        if t["k"] == "call" and t.get("d") and len(t["d"]) > 1:
            rdpl(t["d"], u, d)
        if t["k"] == "drop":
            rdpl(t["p"], u, d)
        if t["k"] == "ret":
            u.add(0)
        succ[b] = f.cfg().succ[b] if hasattr(f.cfg(), "succ") else []
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in succ[b]:
                o |= live[s]
            x = use[b] | (o - de[b])
            if t_call_dest(f, b):
                x = use[b] | (o - de[b] - {t_call_dest(f, b)})
            if x != live[b]:
                live[b] = x
                ch = True
    return live


def t_call_dest(f, b):
    t = f.blocks[b]["t"]
    if t["k"] == "call" and t.get("d") and len(t["d"]) == 1:
        return t["d"][0]
    return None


# ------------------------------------------------------------- cutting
class Cut(Interp):
    """stops at the heads of the iterator's own loops"""
    cutfn = None
    heads = ()

    def loop(self, fn, fr, depth, h, st, rets):
        if fn.key == self.cutfn and h in self.heads:
            self.edges.append((h, st))
            return []
        return super().loop(fn, fr, depth, h, st, rets)


class Walk:
    """the iterator as a graph: heads of its loops, and the paths between them"""

    def __init__(self, P, R, prg, F, heads):
        self.P, self.R, self.prg, self.F = P, R, prg, F
        self.panics = []
        I = Cut(P, inline_std=True, max_states=600, decided=0)
        events_noop(I)
        kern.minmax(I)
        I.on_call = lambda I, st, path, key, a, rt, t, fn, bb: [(st, I.fresh(st, rt, "log", path, fn.key, bb))] if path and is_log(path) else None
        I.on_panic = lambda I, st, what, fn, bb, t: self.panics.append((what, st.copy()))
        I.cutfn, I.heads, I.edges = F.key, heads, []
        self.I = I
        self.live = liveness(F)
        self.pi = I.sym(F.locals[1], "arg", 1)
        self.tid = P.pointee(F.locals[1])
        self.fields = P.fields(self.tid, 0)
        self.nodes = {}
        pt = dict(self.fields)["poc"]
        self.poc = P.fields(pt, 0)
        # initial symbols
        s0 = State(I.cx)
        self.s0 = s0
        self.init = self.snapshot(s0)

    def fld(self, st, name):
        i = [n for n, _ in self.fields].index(name)
        return self.I.resolve(st, self.I.field(st, rdp(self.I, st, self.pi), i, name))

    def pocf(self, st, name):
        v = self.fld(st, "poc")
        i = [n for n, _ in self.poc].index(name)
        return self.I.resolve(st, self.I.field(st, v, i, name))

    def snapshot(self, st):
        r = {}
        for n, t in self.fields:
            if n == "manager":
                continue
            if n == "poc":
                for m, u in self.poc:
                    if self.P.irange(u):
                        r["poc." + m] = self.pocf(st, m)
            else:
                r[n] = self.fld(st, n)
        return r

    def comp(self, st, which):
        """pointer to comps[which]"""
        I = self.I
        c = I.as_ptr(self.fld(st, "comps"))
        return ("ptr", c[1], c[2][:-1] + (("i", add(c[2][-1][1], which)),), None)

    def member(self, st, p, name):
        v = rdp(self.I, st, p)
        tid = self.ptr_tid(p, name)
        i = [n for n, _ in self.P.fields(tid, 0)].index(name)
        return self.I.resolve(st, self.I.field(st, v, i, name))

    def ptr_tid(self, p, name):
        ct = self.P.pointee(dict(self.fields)["comps"])
        if name in dict(self.P.fields(ct, 0)) and name not in ("pdx", "pdy", "pw", "ph") and p[1] == self.I.as_ptr(self.init["comps"])[1]:
            return ct
        return self.P.pointee(dict(self.P.fields(ct, 0))["resolutions"])

    def res(self, st, c, r):
        rs = self.I.as_ptr(self.member(st, self.comp(st, c), "resolutions"))
        return ("ptr", rs[1], rs[2][:-1] + (("i", add(rs[2][-1][1], r)),), None)

    def describe(self, st, v, tid=None):
        """how a local's value follows from the iterator's fields now"""
        if v == UNDEF or v is None:
            return None
        if v[0] == "k":
            return ("k", v)
        if tid is not None and self.P.types[tid]["k"] == "bool":
            d = st.decide(v)
            if d is not None:
                return ("k", K(int(d)))
        if v == self.pi or self.I.as_ptr(v) == self.I.as_ptr(self.pi):
            return ("pi",)
        snap = self.snapshot(st)
        for n in sorted(snap):
            if snap[n] == v:
                return ("field", n)
        try:
            if self.I.as_ptr(v) == self.comp(st, snap["compno"]):
                return ("comp",)
            if self.I.as_ptr(v) == self.res(st, snap["compno"], snap["resno"]):
                return ("res",)
        except (Missing, KeyError, ValueError, TypeError):
            pass
        return None

    def rebuild(self, st, d, tid):
        if d[0] == "k":
            return d[1]
        if d[0] == "pi":
            return self.pi
        if d[0] == "field":
            return self.snapshot(st)[d[1]]
        if d[0] == "comp":
            return self.comp(st, self.fld(st, "compno"))
        return self.res(st, self.fld(st, "compno"), self.fld(st, "resno"))

    def node(self, h, st):
        ds = []
        for l in sorted(self.live[h]):
            m = st.mem.get(("L", (), l))
            if m is None:
                continue
            v = self.I.resolve(st, m[1])
            d = self.describe(st, v, m[0])
            if d is not None:
                ds.append((l, d))
        return (h, tuple(ds))

    def explore(self):
        I, F = self.I, self.F
        start = State(I.cx)
        I.assume_prg = None
        v = self.pocf(start, "prg")
        start.assume(mk_cmp("eq", v, K(self.prg)), True)
        I.edges = []
        rets = []
        outs = I.exec_fn(F, [self.pi], start)
        self.graph = {None: ([(self.node(h, s), s) for h, s in I.edges], outs)}
        todo = [n for n, _ in self.graph[None][0]]
        while todo:
            n = todo.pop()
            if n in self.graph:
                continue
            if len(self.graph) > 60:
                raise Unk("too many states at loop heads")
            st = State(I.cx)
            st.assume(mk_cmp("eq", self.pocf(st, "prg"), K(self.prg)), True)
            known = dict(n[1])
            for l, tid in enumerate(F.locals):
                st.mem[("L", (), l)] = (tid, UNDEF)
            for l in self.live[n[0]]:
                tid = F.locals[l]
                st.mem[("L", (), l)] = (tid, self.rebuild(st, known[l], tid) if l in known else I.sym(tid, "at", n[0], l))
            st.mem[("L", (), 1)] = (F.locals[1], self.pi)
            I.edges = []
            rets = []
            cfg = F.cfg()
            # the head itself is entered, not cut
            self.enter(F, n[0], st, rets)
            self.graph[n] = ([(self.node(h, s), s) for h, s in I.edges], [(s, I.resolve(s, s.mem[("L", (), 0)][1])) for s in rets])
            todo.extend(m for m, _ in self.graph[n][0])

    def enter(self, F, h, st, rets):
        I = self.I
        outs = I.block(F, (), 0, h, st, rets)
        cfg = F.cfg()
        by = {}
        for t, s in outs:
            if not s.dead:
                by.setdefault(t, []).append(s)
        for t, ss in by.items():
            I.region(F, (), 0, set(cfg.rpo), t, ss, None, rets)


# ------------------------------------------------------------- the reference nesting
class Ref:
    """steps of the reference for one order, run over the values of a path"""

    def __init__(self, W):
        self.W, self.P = W, W.P
        self.levels = LEVELS[W.prg]
        self.k = len(self.levels)
        self.pos = "x" in self.levels
        self.kp = self.levels.index("compno") if W.prg == 2 else self.levels.index("resno") if self.pos else self.levels.index("compno")

    def phases(self):
        return [("T", i) for i in range(self.k)] + [("I", i) for i in range(self.k)]

    def nxt(self, v, i):
        n = self.levels[i]
        if n in ("x", "y"):
            d = v["d" + n]
            return ("wrap", U32, add(v[n], sub(d, ("rem", v[n], d))))
        return ("wrap", U32, add(v[n], K(1)))

    def runs(self, st, v0, phase):
        """all positions (phase, values, kind) the reference can reach on this path"""
        out = []
        seen = set()
        todo = [(phase, v0, ())]
        while todo:
            ph, v, kinds = todo.pop()
            if (ph, kinds) in seen or len(kinds) > 12:
                continue
            seen.add((ph, kinds))
            out.append((ph, v, kinds))
            if ph[0] == "I":
                i = ph[1]
                # on to the next value of this level; a packet not yet yielded may not be passed over
                w = dict(v)
                w[self.levels[i]] = self.nxt(v, i)
                todo.append((("T", i), w, kinds + (("inc", i),)))
                continue
            if ph[0] != "T":
                continue
            i = ph[1]
            n = self.levels[i]
            lim = v["poc." + LIMIT[n]]
            d = self.less(st, v[n], lim)
            if i == self.kp and self.pos and n == "resno":
                d2 = self.less(st, v[n], self.numres(st, v))
                if d is True and d2 is True or d is False or d2 is False:
                    pass
                if d is False or d2 is False:
                    d3 = False
                elif d is True and d2 is True:
                    d3 = True
                else:
                    d3 = None
                if d2 is False and d is True:
                    todo.append((("I", i), v, kinds + (("none",),)))
                d = d3
            if d is False:
                todo.append(((("I", i - 1) if i else ("end",)), v, kinds + (("out", i),)))
            if d is not True:
                continue
            if i == self.k - 1:
                todo.append((("Y",), v, kinds))
                if seen_flag(self.W, st, self.index(v)) is False:
                    todo.append((("I", i), v, kinds + (("known",),)))
                continue
            nx = self.levels[i + 1]
            w = dict(v)
            if i == self.kp:
                if self.pos:
                    todo.append((("I", i), v, kinds + (("skip",),)))
                    w["precno"] = ("precno",)
                    w[nx] = v["poc." + START[nx]]
                    todo.append((("T", i + 1), w, kinds + (("enter",),)))
                    continue
                d2 = self.less(st, v["resno"], self.numres(st, v))
                if d2 is False:
                    todo.append((("I", i), v, kinds + (("none",),)))
                if d2 is not True:
                    continue
                tp = st.decide(mk_cmp("eq", self.W.init["tp_on"], K(0)))
                if tp is None:
                    continue
                if tp:
                    r = self.W.res(st, v["compno"], v["resno"])
                    w["poc.precno1"] = mul(self.W.member(st, r, "pw"), self.W.member(st, r, "ph"))
                w[nx] = w["poc." + START[nx]]
                todo.append((("T", i + 1), w, kinds + (("open",),)))
                continue
            if self.pos and i == 0 and n == "compno":          # the extent and the steps belong to the component
                tp = st.decide(mk_cmp("eq", self.W.init["tp_on"], K(0)))
                if tp is None:
                    continue
                if tp:
                    self.extent(w)
                w["dx"] = w["dy"] = ("any",)
            w[nx] = w["poc." + START[nx]]
            todo.append((("T", i + 1), w, kinds + (("open",),)))
        return out

    def extent(self, w):
        for q in ("tx0", "ty0", "tx1", "ty1"):
            w["poc." + q] = w[q]

    def numres(self, st, v):
        return self.W.member(st, self.W.comp(st, v["compno"]), "numresolutions")

    def less(self, st, a, b):
        for x in (a, a[2] if a[0] == "wrap" else a):
            d = st.decide(mk_cmp("lt", x, b))
            if d is not None:
                return d
        for (x, y), tr in self.compared(st):            # the same comparison, written differently
            if y == b and same(self.P, x, a):
                return tr
        return None

    def compared(self, st):
        if getattr(self, "_st", None) is not st:
            self._st = st
            self._cmp = []
            for c, tr in st.facts.items():
                if c[0] == "cmp" and c[1] == "lt":
                    self._cmp.append(((c[2], c[3]), tr))
        return self._cmp

    def index(self, v):
        r = K(0)
        for n, s in (("layno", "step_l"), ("resno", "step_r"), ("compno", "step_c"), ("precno", "step_p")):
            r = add(r, mul(v[n], v[s]))
        return r

    def agrees(self, v, snap):
        for n in snap:
            if n in ("include",) or n == "first":
                if v[n] != snap[n] and n == "include":
                    return False
                continue
            if v[n] in (("precno",), ("any",)):
                continue
            if v[n] != snap[n] and not same(self.P, v[n], snap[n]):
                return False
        return True


def include_cells(W, st):
    """cells of the include map changed on a path: [(index, value)]"""
    base = W.init["include"]
    r = []
    for b, m in st.mem.items():
        if isinstance(b, tuple) and len(b) == 2 and b[0] == base:
            v = W.I.resolve(st, m[1])
            if not (v[0] == "S" and v[2] == "mem" and v[3] == base):
                r.append((b[1], v))
    return r


def seen_flag(W, st, idx):
    """is the include entry known to be zero (True), nonzero (False) on this path?"""
    base = W.init["include"]
    for c, tr in st.facts.items():
        if c[0] == "cmp" and c[1] == "eq" and c[3] == K(0) or c[0] == "cmp" and c[1] == "eq" and c[2] == K(0):
            x = c[2] if c[3] == K(0) else c[3]
            if x[0] == "S" and x[2] == "mem" and x[3] == base and same(W.P, x[4], idx):
                return tr
    return None


def check_order(R, P, prg, F, heads):
    G = "nesting"
    name = ORDERS[prg]
    W = Walk(P, R, prg, F, heads)
    W.explore()
    ref = Ref(W)
    edges = sum(len(e) + len(o) for e, o in W.graph.values())
    R.analysed["%s_loop_states" % name] = len(W.graph) - 1
    R.analysed["%s_paths" % name] = edges
    # entry
    bad = []
    starts = {}
    done = 0
    for n, s in W.graph[None][0]:
        snap = W.snapshot(s)
        f0 = s.decide(mk_cmp("eq", W.init["first"], K(0)))
        v = dict(W.init)
        if f0 is None:
            bad.append(("first", "a path into the loops does not ask whether this is the first packet"))
            continue
        if f0:
            cand = [("I", ref.k - 1)]
            v2 = v
            pos = ref.runs(s, v, cand[0])
        else:
            if snap["first"] != K(0):
                bad.append(("first kept", "the first call leaves the mark for the first packet"))
            v["dx"], v["dy"] = snap["dx"], snap["dy"]
            if ref.pos and ref.levels[0] != "compno":
                tp = s.decide(mk_cmp("eq", W.init["tp_on"], K(0)))
                if tp is None:
                    bad.append(("extent", "a path does not ask whether tile-parts restrict the positions"))
                    continue
                if tp:
                    ref.extent(v)
                for q in ("dx", "dy"):
                    if s.decide(mk_cmp("eq", v[q], K(0))) is not False:
                        bad.append(("zero step", "positions are walked with a step that may be zero"))
            v[ref.levels[0]] = v["poc." + START[ref.levels[0]]]
            pos = ref.runs(s, v, ("T", 0))
        ok = [(ph, kinds) for ph, w, kinds in pos if ph[0] in "TI" and len(ph) == 2 and clean(kinds) and ref.agrees(w, snap)]
        starts.setdefault(n, []).append({ph for ph, _ in ok})
        if not ok:
            bad.append(("entry", "the first call does not start with the lowest %s, or a later call does not go on after the packet it yielded" % ref.levels[0]))
    for s, v in W.graph[None][1]:
        v = W.I.resolve(s, v)
        if v != K(0):
            bad.append(("entry yields", "a packet is yielded without its turn being looked for"))
        elif not refused(W, s):
            bad.append(("entry ends", "the iterator ends without having walked"))
    for k, t in sorted(set(bad)):
        R.fail(G, "%s:%s" % (name, k), "%s: %s" % (name, t))
    if bad:
        return
    # assign a phase to every loop state
    memo = {}
    why = {}

    def outgoing(n, ph):
        """for each edge out of n in phase ph: the phases it may arrive in; None when an edge matches nothing"""
        if (n, ph) in memo:
            return memo[(n, ph)]
        es, outs = W.graph[n]
        res = []
        for m, s in es:
            snap = W.snapshot(s)
            runs = ref.runs(s, dict(W.init), ph)
            arr = {}
            for p, v, kinds in runs:
                if len(p) != 2:
                    continue
                if not ref.agrees(v, snap):
                    continue
                arr.setdefault(p, []).append((v, kinds))
            if include_cells(W, s):
                arr = {}
            if not arr:
                why[(n, ph)] = (s, m, snap)
                memo[(n, ph)] = None
                return None
            res.append((m, s, arr))
        for s, v in outs:
            if not leaves(ref, W, s, v, ph):
                why[(n, ph)] = (s, None, None)
                memo[(n, ph)] = None
                return None
        memo[(n, ph)] = res
        return res

    def solve(assign, todo):
        while todo:
            n, cand = todo[0]
            if n in assign:
                if assign[n] in cand:
                    todo = todo[1:]
                    continue
                return None
            for ph in sorted(cand):
                o = outgoing(n, ph)
                if o is None:
                    continue
                a = dict(assign)
                a[n] = ph
                r = solve(a, todo[1:] + [(m, set(arr)) for m, s, arr in o])
                if r is not None:
                    return r
            return None
        return assign
    todo = [(n, set.intersection(*c)) for n, c in starts.items()]
    a = solve({}, todo)
    if a is None:
        st = sorted({"%s of %s" % ({"T": "test", "I": "increment"}[ph[0]], ref.levels[ph[1]]) for (n, ph), r in memo.items() if r is None and ph})
        R.fail(G, "%s:nesting" % name, "%s (%s): the loops are not the nesting %s (no match after %s)" % (name, F.path.split("::")[-1], " > ".join(ref.levels), ", ".join(st)[:200]))
        return
    R.ok(G, "%s: %d loop states are phases of %s" % (name, len(a), " > ".join(ref.levels)))
    for n, ph in sorted(a.items(), key=repr):
        for m, s, arr in memo[(n, ph)]:
            R.ok(G, "%s: a path from %s %s" % (name, {"T": "testing", "I": "stepping"}[ph[0]], ref.levels[ph[1]]))
    # a path that takes no step of the nesting may not lead back to where it started
    still = {n: {m for m, s, arr in memo[(n, a[n])] if a[m] == a[n] and any(not k for _, k in arr[a[m]])} for n in a}
    R.check(G, not cyclic(still), "%s:stands still" % name, "%s: the loops can go round without taking a step" % name, "%s: no round without a step" % name)
    if ref.pos:
        positions(R, P, W, ref, name, a, memo)
        steps(R, P, W, ref, name, F, heads)


def clean(kinds):
    return not any(k[0] in ("inc",) for k in kinds)


def cyclic(g):
    state = {}

    def go(n):
        if state.get(n) == 1:
            return True
        if state.get(n) == 2:
            return False
        state[n] = 1
        r = any(go(m) for m in g[n])
        state[n] = 2
        return r
    return any(go(n) for n in g)


# ------------------------------------------------------------- which positions have a packet
def conds(s):
    return list(s.facts.items()) + [(mk_cmp("lt", c, K(0)), False) for c in s.cons]


def grid(n):
    """sampled geometry: extents, subsampling, levels, precinct sizes, positions on and off the grid"""
    r = RNG.randint
    big = r(0, 8, n) == 0
    numres = np.where(big, r(1, 34, n), r(1, 6, n))
    resno = np.where(r(0, 8, n) == 0, numres + r(0, 2, n), (r(0, 1 << 20, n) % numres))
    g = dict(numres=numres, resno=resno)
    l = np.maximum(numres - 1 - resno, 0)
    for a, z in (("x", "pw"), ("y", "ph")):
        d = np.where(r(0, 10, n) == 0, r(1, 256, n), r(1, 5, n))
        pd = np.where(big, r(0, 16, n), r(0, 5, n))
        t0 = np.where(r(0, 3, n) == 0, 0, r(0, 60, n))
        t1 = t0 + np.where(r(0, 12, n) == 0, 0, r(1, 60, n))
        unit = np.minimum(d << np.minimum(pd + l, 40), 1 << 40)
        pos = np.where(r(0, 3, n) == 0, t0, np.where(r(0, 2, n) == 0, (t0 + unit - 1) // unit * unit, t0 + r(0, 60, n)))
        pos = np.where(pos < (1 << 31), pos, t0)
        g.update({"d" + a: d, "pd" + a: pd, "t%s0" % a: t0, "t%s1" % a: t1, a: pos, z: np.where(r(0, 10, n) == 0, 0, r(1, 4, n))})
    return {k: v.astype(np.int64) for k, v in g.items()}


def wanted(g):
    """B.12.1.3 - B.12.1.5: is there a packet here, and which precinct is it of"""
    ok = g["resno"] < g["numres"]
    l = np.maximum(g["numres"] - 1 - g["resno"], 0)
    pr = {}
    for a, z in (("x", "pw"), ("y", "ph")):
        d = g["d" + a] << l
        up = lambda v: -(-v // d)
        r0, r1 = up(g["t%s0" % a]), up(g["t%s1" % a])
        rp = g["pd" + a] + l
        ok = ok & ((g[a] % (g["d" + a] << rp) == 0) | ((g[a] == g["t%s0" % a]) & ((r0 << l) % (np.int64(1) << rp) != 0)))
        ok = ok & (g[z] > 0) & (r0 != r1)
        pr[a] = (up(g[a]) >> g["pd" + a]) - (r0 >> g["pd" + a])
    return ok, pr["x"] + pr["y"] * g["pw"]


ROWS = 6000


def roles(W, st, v):
    c, r = v["compno"], v["resno"]
    cp, rp = W.comp(st, c), W.res(st, c, r)
    e = {"numres": W.member(st, cp, "numresolutions"), "dx": W.member(st, cp, "dx"), "dy": W.member(st, cp, "dy"), "resno": r}
    e.update({"pdx": W.member(st, rp, "pdx"), "pdy": W.member(st, rp, "pdy"), "pw": W.member(st, rp, "pw"), "ph": W.member(st, rp, "ph")})
    e.update({k: v[k] for k in ("x", "y", "tx0", "ty0", "tx1", "ty1")})
    return e


def positions(R, P, W, ref, name, a, memo):
    G = "positions"
    total = 0
    bad = {}
    for n, ph in a.items():
        groups = {}
        plain = []
        for m, s, arr in memo[(n, ph)]:
            todo = []
            for v, kinds in arr[a[m]]:
                if kinds and kinds[-1] in (("skip",), ("enter",)):
                    todo.append((v, kinds[-1][0]))
            if not todo:
                plain.append(s)
                continue
            if len({k for _, k in todo}) != 1:
                raise Unk("a path both opens and passes over a precinct")
            v, k = todo[0]
            e = roles(W, s, v)
            groups.setdefault(tuple(sorted(e.items())), []).append((s, k, W.snapshot(s)["precno"]))
        for e, lst in groups.items():
            e = dict(e)
            g = grid(ROWS)
            env = {}
            direct = {x: k for k, x in e.items() if x[0] == "S"}
            acc = set()
            for s, k, pn in lst:
                for c, tr in conds(s):
                    atoms(c, acc)
                atoms(pn, acc)
            for x in e.values():
                atoms(x, acc)
            for x in sorted(acc, key=repr):
                env[x] = g[direct[x]] if x in direct else RNG.randint(0, 40, ROWS).astype(np.int64)
            env[W.init["poc.prg"]] = np.full(ROWS, W.prg, dtype=np.int64)
            E = Ev(P, env, ROWS)
            cur = {k: np.broadcast_to(np.asarray(E.ev(x)), (ROWS,)) for k, x in e.items()}
            ok, prec = wanted(cur)
            valid = (cur["x"] >= cur["tx0"]) & (cur["y"] >= cur["ty0"]) & (cur["dx"] > 0) & (cur["dy"] > 0)
            if any(not cur["resno"].max() for _ in (0,)):
                raise Unk("resolutions not sampled")
            entered = 0

            def mask(s):
                m = np.ones(ROWS, dtype=bool)
                for c, tr in conds(s):
                    try:
                        m &= E.truth(c) == tr
                    except Unk:
                        pass
                return m
            for s, k, pn in lst:
                m = mask(s) & valid
                total += int(m.sum())
                if k == "enter":
                    if (m & ~ok).any():
                        bad["none"] = bad.get("none", 0) + int((m & ~ok).sum())
                    m &= ok
                    entered += int(m.sum())
                    got = np.broadcast_to(np.asarray(E.ev(pn)), (ROWS,))
                    if ((got - prec) % (1 << 32) != 0)[m].any():
                        bad["precinct"] = 1
                elif (m & ok).any():
                    bad["missed"] = bad.get("missed", 0) + int((m & ok).sum())
            R.analysed["%s_position_paths" % name] = R.analysed.get("%s_position_paths" % name, 0) + len(lst)
            # no arithmetic stops on the way
            for what, s in W.panics:
                acc2 = set()
                for c, tr in conds(s):
                    atoms(c, acc2)
                if not acc2 <= acc | set(direct) or not any(x in acc2 for x in (e["numres"], e["dx"], e["pdx"], e["dy"], e["pdy"])):
                    continue
                if (mask(s) & valid & (cur["resno"] < cur["numres"])).any():
                    bad["stops"] = 1
            if entered < 20:
                raise Unk("hardly any position opens a precinct")
    txt = {"none": "a packet is taken at a position where none starts", "precinct": "the precinct number does not follow from the position",
           "missed": "a position where a packet starts is passed over", "stops": "the arithmetic of the position tests stops a debug build"}
    for k, t in txt.items():
        R.check(G, k not in bad, "%s:%s" % (name, k), "%s: %s" % (name, t), "%s: %s in none of %d cases" % (name, k, total))


def steps(R, P, W, ref, name, F, heads):
    """the steps between positions are the smallest precinct distance over the resolutions concerned"""
    G = "steps"
    single = ref.levels[0] == "compno"
    for shape in ((2,),) if single else ((2,), (1, 1)):
        V = Walk(P, R, W.prg, F, heads)
        I = V.I
        I.unroll, I.unroll_width = 4, 600
        sources = []
        st = State(I.cx)
        base = [(mk_cmp("eq", V.pocf(st, "prg"), K(W.prg)), True)]

        def fix(st):
            for c, t in base:
                st.assume(c, t)
            i = V.snapshot(st)
            st.assume(mk_cmp("eq", i["numcomps"], K(max(len(shape), 1))), True)
            for c, n in enumerate(shape):
                which = i["compno"] if single else K(c)
                st.assume(mk_cmp("eq", V.member(st, V.comp(st, which), "numresolutions"), K(n)), True)
            return i
        results = []
        if not single:
            i = fix(st)
            st.assume(mk_cmp("eq", i["first"], K(0)), False)
            I.edges = []
            outs = I.exec_fn(F, [V.pi], st)
            results = [s for _, s in I.edges] + [s for s, v in outs]
        else:
            for n, (es, outs) in W.graph.items():
                if n is None or not any(W.snapshot(s)["dx"] != W.init["dx"] for m, s in es):
                    continue
                i = fix(st)
                known = dict(n[1])
                for l, tid in enumerate(F.locals):
                    st.mem[("L", (), l)] = (tid, UNDEF)
                for l in V.live[n[0]]:
                    tid = F.locals[l]
                    st.mem[("L", (), l)] = (tid, V.rebuild(st, known[l], tid) if l in known else I.sym(tid, "at", n[0], l))
                st.mem[("L", (), 1)] = (F.locals[1], V.pi)
                st.assume(mk_cmp("lt", i["compno"], i["poc.compno1"]), True)
                I.edges = []
                rets = []
                V.enter(F, n[0], st.copy(), rets)
                results += [s for _, s in I.edges] + rets
                break
        s0 = State(I.cx)
        i = V.snapshot(s0)
        pairs = []
        for c, n in enumerate(shape):
            which = i["compno"] if single else K(c)
            for r in range(n):
                cp, rp = V.comp(s0, which), V.res(s0, which, K(r))
                pairs.append((c, n - 1 - r, [(V.member(s0, cp, "d" + q), V.member(s0, rp, "pd" + q)) for q in "xy"]))
        acc = set()
        good = [s for s in results if s.feasible() and not s.dead]
        for s in good:
            for c, t in conds(s):
                atoms(c, acc)
            sn = V.snapshot(s)
            atoms(sn["dx"], acc)
            atoms(sn["dy"], acc)
        for _, _, ab in pairs:
            for d, pd in ab:
                acc |= {d, pd}
        env = {}
        N = 4000
        for x in sorted(acc, key=repr):
            env[x] = RNG.randint(0, 30, N).astype(np.int64)
        for c, l, ab in pairs:
            for d, pd in ab:
                env[d] = np.where(RNG.randint(0, 4, N) == 0, RNG.randint(1, 1 << 31, N), RNG.randint(1, 12, N)).astype(np.int64)
                env[pd] = RNG.randint(0, 16, N).astype(np.int64)
        env[i["first"]] = np.ones(N, dtype=np.int64) if not single else np.zeros(N, dtype=np.int64)
        env[i["poc.prg"]] = np.full(N, W.prg, dtype=np.int64)
        env[i["numcomps"]] = np.full(N, len(shape), dtype=np.int64)
        env[i["poc.compno0"]] = np.zeros(N, dtype=np.int64)
        env[i["poc.compno1"]] = np.full(N, len(shape), dtype=np.int64)
        for c, n in enumerate(shape):
            which = i["compno"] if single else K(c)
            env[V.member(s0, V.comp(s0, which), "numresolutions")] = np.full(N, n, dtype=np.int64)
        if single:
            env[i["compno"]] = np.zeros(N, dtype=np.int64)
        E = Ev(P, env, N)
        want = []
        for q in (0, 1):
            best = np.zeros(N, dtype=np.int64)
            for c, l, ab in pairs:
                d = env[ab[q][0]] << (env[ab[q][1]] + l)
                fits = d < (1 << 32)
                best = np.where(fits & ((best == 0) | (d < best)), d, best)
            want.append(best)
        cover = np.zeros(N, dtype=np.int64)
        wrong = 0
        for s in good:
            sn = V.snapshot(s)
            if sn["dx"] == i["dx"] and sn["dy"] == i["dy"]:
                continue
            m = np.ones(N, dtype=bool)
            for c, tr in conds(s):
                try:
                    m &= E.truth(c) == tr
                except Unk:
                    pass
            if not m.any():
                continue
            cover += m
            for q, b in (("dx", want[0]), ("dy", want[1])):
                try:
                    wrong += int((np.broadcast_to(np.asarray(E.ev(sn[q])), (N,)) != b)[m].sum())
                except Unk as x:
                    raise Unk("the step %s is not computed in a way that can be followed: %s" % (q, x))
        if int((cover > 0).sum()) < 50:
            raise Unk("the steps between positions were not found")
        R.check(G, not wrong, "%s:step" % name, "%s: the step between positions is not the smallest precinct distance" % name, "%s: steps for %s, %d paths" % (name, shape, len(good)))


def refused(W, s):
    """the path ends because the iterator's own description is unusable"""
    i = W.init
    if s.decide(mk_cmp("lt", i["poc.compno0"], i["numcomps"])) is False:
        return True
    if s.decide(mk_cmp("lt", i["numcomps"], i["poc.compno1"])) is True:
        return True
    for c, tr in s.facts.items():
        if tr is False and c[0] == "cmp" and c[1] == "lt" and c[2] == i["poc.compno1"]:
            if same(W.P, c[3], add(i["numcomps"], K(1))):
                return True
    sn = W.snapshot(s)
    return any(s.decide(mk_cmp("eq", sn[d], K(0))) is True for d in ("dx", "dy"))


def leaves(ref, W, s, v, ph):
    v = W.I.resolve(s, v)
    snap = W.snapshot(s)
    cells = include_cells(W, s)
    if v == K(0):
        if cells:
            return False
        if refused(W, s):
            return True
        for p, w, kinds in ref.runs(s, dict(W.init), ph):
            if p == ("end",) and ref.agrees({k: x for k, x in w.items()}, snap):
                return True
            if p == ("Y",) and ref.agrees(w, snap):
                ix = ref.index(w)
                for c, tr in s.facts.items():
                    if c[0] == "cmp" and c[1] == "lt" and tr is False and c[3] == W.init["include_size"] and same(W.P, c[2], ix):
                        return True
        return False
    if v[0] != "k" or v[1] == 0:
        return False
    for p, w, kinds in ref.runs(s, dict(W.init), ph):
        if p == ("Y",) and ref.agrees(w, snap):
            ix = ref.index(w)
            if len(cells) == 1 and same(W.P, cells[0][0], ix) and cells[0][1][0] == "k" and cells[0][1][1] != 0 and seen_flag(W, s, ix) is True:
                return True
    return False


def dispatch(R, P):
    """the function each order's code leads to"""
    G = "dispatch"
    top = P.find("pi::opj_pi_next")
    memo = {}
    res = {}
    for prg in ORDERS:
        f = top
        chain = []
        while True:
            h = main_loops(P, f, memo)
            if h:
                res[prg] = (f, h)
                break
            I = Interp(P, inline_std=True, max_states=200)
            events_noop(I)
            hits = []

            def on_call(I, st, path, key, a, rt, t, fn, bb):
                g = P.fns.get(key)
                if g is not None and g.local and writes_of(P, g, memo)[0]:
                    r = I.fresh(st, rt, "next", key)
                    st.ev("next", key, a[0] if a else None, r)
                    return [(st, r)]
                if path and is_log(path):
                    return [(st, I.fresh(st, rt, "log", path, fn.key, bb))]
                return None
            I.on_call = on_call
            st = State(I.cx)
            pi = I.sym(f.locals[1], "arg", 1)
            tid = P.pointee(f.locals[1])
            fs = P.fields(tid, 0)
            poc = I.field(st, rdp(I, st, pi), [n for n, _ in fs].index("poc"), "poc")
            pt = P.fields(dict(fs)["poc"], 0)
            st.assume(mk_cmp("eq", I.resolve(st, I.field(st, poc, [n for n, _ in pt].index("prg"), "prg")), K(prg)), True)
            keys = set()
            good = True
            for s, v in I.exec_fn(f, [pi], st):
                if s.dead or not s.feasible():
                    continue
                ev = [e for e in s.evlist() if e[0] == "next"]
                if len(ev) != 1 or I.as_ptr(ev[0][2]) != I.as_ptr(pi) or I.resolve(s, v) != I.resolve(s, ev[0][3]):
                    good = False
                else:
                    keys.add(ev[0][1])
            if not good or len(keys) != 1:
                R.fail(G, "%s:dispatch" % ORDERS[prg], "opj_pi_next does not hand order %s (code %d) to one iterator and return its answer" % (ORDERS[prg], prg))
                break
            f = P.fns[keys.pop()]
            if len(chain) > 5:
                break
            chain.append(f.path)
        else:
            continue
        if prg in res:
            R.ok(G, "%s (%d) is walked by %s" % (ORDERS[prg], prg, res[prg][0].path.split("::")[-1]))
    return res


# ------------------------------------------------------------- dividing packets into tile-parts
COUNT = {"L": "layE", "R": "resE", "C": "compE", "P": "prcE"}
NOW = {"L": "lay_t", "R": "res_t", "C": "comp_t", "P": "prc_t"}
FROM = {"L": "layS", "R": "resS", "C": "compS", "P": "prcS"}
PIF = {"L": ("layno0", "layno1"), "R": ("resno0", "resno1"), "C": ("compno0", "compno1"), "P": ("precno0", "precno1")}


class Cp:
    """reading the coding parameters of tile 0, progression 0"""

    def __init__(self, P, I, cp):
        self.P, self.I, self.cp = P, I, cp

    def f(self, st, v, tid, name):
        fs = [n for n, _ in self.P.fields(tid, 0)]
        return self.I.field(st, v, fs.index(name), name), dict(self.P.fields(tid, 0))[name]

    def top(self, st, *path):
        v, tid = rdp(self.I, st, self.cp), self.P.pointee(self.cp[1])
        for n in path:
            if self.P.kind(tid) == "union" if hasattr(self.P, "kind") else False:
                pass
            v, tid = self.f(st, v, tid, n)
        return self.I.resolve(st, v), tid

    def tcp(self, st, name):
        p, tid = self.top(st, "tcps")
        v = rdp(self.I, st, self.I.as_ptr(p))
        return self.f(st, v, self.P.pointee(tid), name)

    def poc(self, st, name):
        v, tid = self.tcp(st, "pocs")
        e = self.I.elem(st, v, K(0))
        return self.I.resolve(st, self.f(st, e, self.P.types[tid]["t"], name)[0])


def const_iter(I, st, a, rt, t, fn, bb, depth, fr):
    """a shared slice of constant length: the position is kept, so that each round is at a known element"""
    p = a[0]
    if p[0] == "ptr" and p[3] is not None and p[3][0] == "k" and p[2] and p[2][-1] == ("i", K(0)):
        return [(st, ("aiter", p, 0))]
    return None


def const_next(I, st, a, rt, t, fn, bb, depth, fr):
    v = I.rd(st, a[0][1], a[0][2]) if a[0][0] == "ptr" else None
    if v is None or v[0] != "aiter" or v[1][0] != "ptr":
        return None
    vs = {x["n"]: i for i, x in enumerate(I.p.adt(rt)["v"])}
    p, n = v[1], v[2]
    if n >= p[3][1]:
        return [(st, ("agg", I.p.types[rt]["d"], vs["None"], ()))]
    I.wr(st, a[0][1], a[0][2], ("aiter", p, n + 1))
    return [(st, ("agg", I.p.types[rt]["d"], vs["Some"], (("ptr", p[1], (p[2] if p[2] == (("i", K(0)),) and not n else p[2][:-1]) + (("i", K(n)),), None),)))]


CONST_ITER = {
    "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter": const_iter,
    "core::slice::<impl [T]>::iter": const_iter,
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::next": const_next,
}


def tileparts(R, P):
    G = "tile-parts"
    f = P.find("j2k::opj_j2k_get_num_tp")
    for prg, order in ORDERS.items():
        for flag in "LRCP?":
            A = Api(P, lambda p: False, max_states=200, unroll=6, unroll_width=200)
            I = A.interp()
            I.on_panic = None
            I.models.update(CONST_ITER)
            cp = I.sym(f.locals[1], "arg", 1)
            C = Cp(P, I, cp)
            st = State(I.cx)
            st.assume(mk_cmp("eq", I.resolve(st, C.tcp(st, "prg")[0]), K(prg)), True)
            tpf = C.top(st, "m_specific_param", "m_enc", "m_tp_flag")[0]
            on = C.top(st, "m_specific_param", "m_enc", "m_tp_on")[0]
            pos0 = C.top(st, "m_specific_param", "m_enc", "m_tp_pos")[0]
            st.assume(mk_cmp("eq", tpf, K(ord(flag))), True)
            outs = [(s, I.resolve(s, v)) for s, v in I.exec_fn(f, [cp, K(0), K(0)], st) if not s.dead and s.feasible()]
            ok = bool(outs)
            n_on = 0
            for s, v in outs:
                pos = C.top(s, "m_specific_param", "m_enc", "m_tp_pos")[0]
                d = s.decide(mk_cmp("eq", on, K(0)))
                if d is None:
                    d = s.decide(on)
                    d = None if d is None else not d
                if d is None:
                    ok = False
                elif d:
                    ok = ok and v == K(1) and pos == pos0
                else:
                    n_on += 1
                    upto = order.index(flag) if flag in order else 3
                    w = K(1)
                    for x in order[:upto + 1]:
                        w = mul(w, C.poc(s, COUNT[x]))
                    ok = ok and same(P, v, w) and pos == (K(upto) if flag in order else pos0)
            R.check(G, ok and n_on > 0, "%s:%s:number" % (order, flag), "%s divided at %s: the tile-part count is not the product of the levels down to the division, or the level recorded is another" % (order, flag),
                    "%s divided at %s: count and level" % (order, flag))


def odometer(R, P):
    """the packets of a tile-part: levels above the division have one value each, and go on like an odometer"""
    G = "tile-part ranges"
    f = P.find("pi::opj_pi_create_encode")
    names = {f.argnames().get(i): i for i in range(1, f.argc + 1)}
    J2 = {"FINAL": 1, "THRESH": 0}
    todo = []
    for prg, order in ORDERS.items():
        for pos in range(4):
            todo += [(prg, pos, first, rsiz, mode, on) for first in (True, False) for rsiz, mode, on in ((0, 1, 1), (4, 0, 1))]
        todo += [(prg, 0, True, 0, 1, 0), (prg, 0, True, 0, 0, 1)]
    for prg, tppos, first, rsiz, mode, on in todo:
        order = ORDERS[prg]
        A = Api(P, lambda p: False, max_states=400, unroll=6, unroll_width=200)
        I = A.interp()
        I.recursion = 6
        pi, cp = I.sym(f.locals[1], "arg", 1), I.sym(f.locals[2], "arg", 2)
        C = Cp(P, I, cp)
        C.cp = cp
        st = State(I.cx)
        st.assume(mk_cmp("eq", C.poc(st, "prg"), K(prg)), True)
        st.assume(mk_cmp("eq", C.top(st, "rsiz")[0], K(rsiz)), True)
        e = C.top(st, "m_specific_param", "m_enc", "m_tp_on")[0]
        st.assume(mk_cmp("eq", e, K(on)), True)
        st.assume(e, bool(on))
        tpnum = K(0) if first else I.sym(f.locals[5], "arg", 5)
        if not first:
            st.assume(mk_cmp("eq", tpnum, K(0)), False)
        init = {n: {x: C.poc(st, t[x]) for x in order} for n, t in (("S", FROM), ("E", COUNT), ("t", NOW))}
        at, end = {q: C.poc(st, "t%s0_t" % q) for q in "xy"}, {q: C.poc(st, "t%sE" % q) for q in "xy"}
        outs = [s for s, v in I.exec_fn(f, [pi, cp, K(0), K(0), tpnum, K(tppos), K(mode)], st) if not s.dead and s.feasible()]
        tid = P.pointee(f.locals[1])
        pt = dict(P.fields(tid, 0))["poc"]
        what = "%s:%d:%s:%s" % (order, tppos, "first" if first else "later", "whole" if not on or not mode and not rsiz else "part")
        ok = bool(outs)
        why = ""
        for s in outs:
            poc = I.field(s, rdp(I, s, pi), [n for n, _ in P.fields(tid, 0)].index("poc"), "poc")
            g = lambda n: I.resolve(s, I.field(s, poc, [m for m, _ in P.fields(pt, 0)].index(n), n))
            want = {}
            part = on and (mode or rsiz)
            moving = None
            if part and not first:
                for i in range(tppos, -1, -1):
                    if order[i] == "P" and prg >= 2:
                        d = s.decide(mk_cmp("ge", at["x"], end["x"]))
                        if d is True:
                            d = s.decide(mk_cmp("ge", at["y"], end["y"]))
                    else:
                        d = s.decide(mk_cmp("eq", init["t"][order[i]], init["E"][order[i]]))
                    if d is None:
                        ok, why = False, "a level's end is not asked for"
                        break
                    if not d:
                        moving = i
                        break
                if not ok:
                    break
                if moving is None and prg >= 2:         # nothing is left to hand out
                    continue
            for i, x in enumerate(order):
                S, E, t = init["S"][x], init["E"][x], init["t"][x]
                one = lambda v: ("wrap", U32, add(v, K(1)))
                dec = lambda v: ("wrap", U32, add(v, K(-1)))
                if not part or i > tppos:
                    want[x] = (S, E, t)
                elif first or moving is not None and i > moving:
                    want[x] = (S, one(S), one(S))
                elif i == moving:
                    want[x] = (t, one(t), one(t))
                else:
                    want[x] = (dec(t), t, t)
                if x == "P" and prg >= 2:
                    up = lambda v, q: ("wrap", U32, add(v, sub(C.poc(s, "d" + q), ("rem", v, C.poc(s, "d" + q)))))
                    down = lambda v, q: ("wrap", U32, sub(v, add(C.poc(s, "d" + q), ("rem", v, C.poc(s, "d" + q)))))
                    for q in "xy":
                        S, E, t = C.poc(s, "t%sS" % q), end[q], at[q]
                        if not part or i > tppos:
                            w = (S, E, t)
                        elif first or i > moving:
                            w = (S, up(S, q), up(S, q))
                        elif i < moving:
                            w = (down(t, q), t, t)
                        else:
                            xe = s.decide(mk_cmp("ge", at["x"], end["x"]))
                            w = (t, up(t, q), up(t, q)) if q == ("y" if xe else "x") else (S, up(S, q), up(S, q)) if xe else (down(t, q), t, t)
                        if not all(same(P, a, b) for a, b in zip((g("t%s0" % q), g("t%s1" % q), C.poc(s, "t%s0_t" % q)), w)):
                            ok, why = False, "positions"
                    continue
                got = (g(PIF[x][0]), g(PIF[x][1]), C.poc(s, NOW[x]))
                if not all(same(P, a, b) for a, b in zip(got, want[x])):
                    ok, why = False, "%s" % {"L": "layers", "R": "resolutions", "C": "components", "P": "precincts"}[x]
            fi = I.resolve(s, I.field(s, rdp(I, s, pi), [n for n, _ in P.fields(tid, 0)].index("first"), "first"))
            if fi[0] != "k" or fi[1] == 0:
                ok, why = False, "the iterator does not start anew"
            if g("prg") != C.poc(s, "prg") and g("prg") != K(prg):
                ok, why = False, "the order is not handed on"
        R.analysed["tile_part_paths"] = R.analysed.get("tile_part_paths", 0) + len(outs)
        R.check(G, ok, what, "opj_pi_create_encode gives a tile-part of %s divided at level %d other packets than its turn (%s)" % (order, tppos, why), what)


def letters(R, P):
    """names of orders and letters of levels"""
    G = "names"
    conv = P.find("j2k::opj_j2k_convert_progression_order")
    for prg, order in list(ORDERS.items()) + [(-1, ""), (5, "")]:
        A = Api(P, lambda p: False, max_states=50)
        I = A.interp()
        outs = I.exec_fn(conv, [K(prg)], State(I.cx))
        outs = [(s, I.resolve(s, v)) for s, v in outs if s.feasible()]
        if len(outs) != 1:
            R.fail(G, "%d:order" % prg, "code %d does not lead to one order" % prg)
            continue
        s, e = outs[0]
        for g in ("get_order_str",):
            try:
                fn = P.find("j2k::ProgressionOrder::%s" % g)
            except Missing:
                continue
            I2 = A.interp()
            s2 = State(I2.cx)
            p = I2.newobj(s2, P.pointee(fn.locals[1]), ("order",), e)
            r = [(x, I2.resolve(x, v)) for x, v in I2.exec_fn(fn, [p], s2, fr=(1,)) if x.feasible()]
            name = cstr(P, r[0][1]) if len(r) == 1 else None
            R.check(G, name == order, "%d:name" % prg, "code %d is called %r, not %r" % (prg, name, order), "code %d is %s" % (prg, order or "none"))
        try:
            fn = P.find("j2k::ProgressionOrder::get_step")
        except Missing:
            continue
        got = ""
        for i in range(5):
            I2 = A.interp()
            s2 = State(I2.cx)
            p = I2.newobj(s2, P.pointee(fn.locals[1]), ("order",), e)
            r = [(x, I2.resolve(x, v)) for x, v in I2.exec_fn(fn, [p, K(i)], s2, fr=(1,)) if x.feasible()]
            vs = {step_letter(P, v) for x, v in r}
            got += vs.pop() if len(vs) == 1 else "?"
        R.check(G, got == order + "." * (5 - len(order)), "%d:steps" % prg, "the levels of code %d are %s, not %s" % (prg, got, order), "levels of code %d: %s" % (prg, order or "none"))


def cstr(P, v):
    if v[0] == "ptr":
        v = v[1]
    if v[0] == "cstr":
        return v[1]
    return None


def step_letter(P, v):
    if v[0] == "agg":
        return {"Component": "C", "Resolution": "R", "Precinct": "P", "Layer": "L", "Unknown": "."}.get(variant_name(P, v), "?")
    return "?"


def variant_name(P, v):
    ad = P.adts.get(v[1]) if hasattr(P, "adts") else None
    try:
        return ad["v"][v[2]]["n"]
    except (TypeError, KeyError, IndexError):
        return None


def run(R):
    sys.setrecursionlimit(20000)
    P = Prog("openjp2", "debug")
    for prg, (F, heads) in dispatch(R, P).items():
        try:
            check_order(R, P, prg, F, heads)
        except Unk as e:
            R.fail("nesting", "%s:not understood" % ORDERS[prg], "%s: %s" % (ORDERS[prg], str(e)[:150]))
    for part, G in ((tileparts, "tile-parts"), (odometer, "tile-part ranges"), (letters, "names")):
        try:
            part(R, P)
        except Unk as e:
            R.fail(G, "%s:not understood" % G, str(e)[:150])
    R.floor("dispatch", 5)
    R.floor("nesting", 200)
    R.floor("positions", 12)
    R.floor("steps", 5)
    R.floor("tile-parts", 25)
    R.floor("tile-part ranges", 40)
    R.floor("names", 14)
