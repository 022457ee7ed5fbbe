"""Relational abstract interpreter over the extracted MIR.

Values are abstract: linear expressions over symbolic inputs with interval and
linear-inequality facts, shaped aggregates, and pointers as base + access path.
States are kept apart by the branch conditions that lead to them (trace
partitioning); loops are brought to a fixpoint by generalising every changed
cell (induction variable, relational offset or unknown).  No code is executed
and no solver is involved: branch feasibility is decided by interval
arithmetic and Fourier-Motzkin elimination on the linear facts.
"""
import itertools, os, sys
from fractions import Fraction
from functools import reduce
from mir import Prog, Missing, callee

sys.setrecursionlimit(50000)

TRUE = ("k", 1)
FALSE = ("k", 0)
NULL = ("null",)
UNDEF = ("undef",)
MOVED = ("moved",)


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- expressions
_rank_cache = {}


def rank(e):
    r = _rank_cache.get(e)
    if r is None:
        r = repr(e)
        _rank_cache[e] = r
    return r


def K(n):
    return ("k", n)


def is_k(e):
    return e[0] == "k"


def lin_of(e):
    """expr -> (const, {atom: coef})"""
    if e[0] == "k":
        return e[1], {}
    if e[0] == "lin":
        return e[1], dict(e[2])
    return 0, {e: 1}


def mk_lin(c, m):
    m = {a: k for a, k in m.items() if k != 0}
    if not m:
        return ("k", c)
    if c == 0 and len(m) == 1:
        (a, k), = m.items()
        if k == 1:
            return a
    return ("lin", c, tuple(sorted(m.items(), key=lambda x: rank(x[0]))))


def add(a, b, k=1):
    ca, ma = lin_of(a)
    cb, mb = lin_of(b)
    ma = dict(ma)
    for x, y in mb.items():
        ma[x] = ma.get(x, 0) + k * y
    return mk_lin(ca + k * cb, ma)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, m = lin_of(a)
    return mk_lin(c * k, {x: y * k for x, y in m.items()})


def mono_mul(x, y):
    fx = list(x[1]) if x[0] == "mul" else [x]
    fy = list(y[1]) if y[0] == "mul" else [y]
    return ("mul", tuple(sorted(fx + fy, key=rank)))


def mul(a, b):
    ca, ma = lin_of(a)
    cb, mb = lin_of(b)
    r = {}
    for x, y in ma.items():
        r[x] = r.get(x, 0) + y * cb
    for x, y in mb.items():
        r[x] = r.get(x, 0) + y * ca
    for x, y in ma.items():
        for u, v in mb.items():
            m = mono_mul(x, u)
            r[m] = r.get(m, 0) + y * v
    return mk_lin(ca * cb, r)


def fdiv(a, b):
    # truncating division on ints
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


INF = None


def iadd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0],
            None if a[1] is None or b[1] is None else a[1] + b[1])


def iscale(a, k):
    if k == 0:
        return (0, 0)
    lo = None if a[0] is None else a[0] * k
    hi = None if a[1] is None else a[1] * k
    return (lo, hi) if k > 0 else (hi, lo)


def imul(a, b):
    if None in a or None in b:
        if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
            return (a[0] * b[0], None)
        return (None, None)
    ps = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return (min(ps), max(ps))


def imeet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return (lo, hi)


_deep = {}


def deep_atoms(e):
    """the atoms of a linear form, and those its quotients and remainders are made of"""
    r = _deep.get(e)
    if r is None:
        r = list(lin_of(e)[1])
        todo = [a for a in r if a[0] in ("div", "rem")]
        while todo:
            a = todo.pop()
            for z in lin_of(a[1])[1]:
                if z not in r:
                    r.append(z)
                    if z[0] in ("div", "rem"):
                        todo.append(z)
        if len(_deep) > 200000:
            _deep.clear()
        _deep[e] = r
    return r


# symbols: ("S", tid, ident...) ; type information gives the range
class Ctx:
    """interval evaluation needs the type table"""

    def __init__(self, prog):
        self.p = prog
        self.symrange = {}
        self.finv = {}
        self.light = False      # keep ranges and facts only, no linear constraints

    def base_range(self, a):
        t = a[0]
        if t == "S":
            r = self.symrange.get(a)
            if r is not None:
                return r
            if self.finv and len(a) == 5 and a[2] == "fld" and a[3][0] == "S" and a[3][1] is not None and a[3][1] >= 0:
                r = self.finv.get((self.p.types[a[3][1]].get("d"), a[4]))
                if r is not None:
                    return r
            if a[1] is not None and a[1] >= 0:
                r = self.p.irange(a[1])
                if r:
                    return r
            if a[1] == -1:  # natural number
                return (0, None)
            if a[1] == -2:  # usize length (objects are below isize::MAX)
                return (0, (1 << 63) - 1)
            return (None, None)
        return None


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("mem", "facts", "cons", "ranges", "var", "events", "epoch", "cx", "dead", "notes")

    def __init__(self, cx):
        self.cx = cx
        self.mem = {}
        self.facts = {}
        self.cons = ()       # tuple of lin exprs known >= 0
        self.ranges = {}
        self.var = {}        # symbolic enum -> variant index
        self.events = None   # persistent list (prev, ev)
        self.epoch = 0
        self.dead = False
        self.notes = {}

    def copy(self):
        s = State.__new__(State)
        s.cx = self.cx
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.cons = self.cons
        s.ranges = dict(self.ranges)
        s.var = dict(self.var)
        s.events = self.events
        s.epoch = self.epoch
        s.dead = self.dead
        s.notes = dict(self.notes)
        return s

    # --- events
    def ev(self, *e):
        self.events = (self.events, e)

    def evlist(self):
        r = []
        x = self.events
        while x is not None:
            r.append(x[1])
            x = x[0]
        return r[::-1]

    # --- intervals
    def rng(self, e, depth=0):
        t = e[0]
        if t == "k":
            return (e[1], e[1])
        r = self.ranges.get(e)
        b = self._rng(e, depth)
        if r is None:
            return b
        return imeet(r, b)

    def _rng(self, e, depth):
        t = e[0]
        if depth > 12:
            return (None, None)
        if t == "S":
            return self.cx.base_range(e)
        if t == "lin":
            acc = (e[1], e[1])
            for a, k in e[2]:
                acc = iadd(acc, iscale(self.rng(a, depth + 1), k))
            return acc
        if t == "mul":
            acc = (1, 1)
            for a in e[1]:
                acc = imul(acc, self.rng(a, depth + 1))
            return acc
        if t == "wrap":
            return e[1]
        if t == "div":
            a = self.rng(e[1], depth + 1)
            b = self.rng(e[2], depth + 1)
            if b[0] is not None and b[0] >= 1:
                lo = None if a[0] is None else (fdiv(a[0], b[0]) if a[0] < 0 else
                                               (0 if b[1] is None else fdiv(a[0], b[1])))
                hi = None if a[1] is None else (fdiv(a[1], b[0]) if a[1] >= 0 else
                                               (0 if b[1] is None else fdiv(a[1], b[1])))
                return (lo, hi)
            if a[0] is not None and a[0] >= 0:
                return (None if b[0] is None or b[0] < 0 else 0, a[1])
            return (None, None)
        if t == "rem":
            a = self.rng(e[1], depth + 1)
            b = self.rng(e[2], depth + 1)
            hi = None if b[1] is None else max(abs(b[1]), abs(b[0]) if b[0] is not None else 0) - 1
            if a[0] is not None and a[0] >= 0:
                return (0, hi if a[1] is None else a[1] if hi is None else min(hi, a[1]))
            return (None if hi is None else -hi, hi)
        if t == "and":
            a = self.rng(e[1], depth + 1)
            b = self.rng(e[2], depth + 1)
            his = [x[1] for x in (a, b) if x[0] is not None and x[0] >= 0 and x[1] is not None]
            if his:
                return (0, min(his))
            return (None, None)
        if t in ("or", "xor"):
            a = self.rng(e[1], depth + 1)
            b = self.rng(e[2], depth + 1)
            if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0 \
                    and a[1] is not None and b[1] is not None:
                m = max(a[1], b[1])
                return (max(a[0], b[0]) if t == "or" else 0, (1 << m.bit_length()) - 1)
            return (None, None)
        if t == "shr":
            a = self.rng(e[1], depth + 1)
            if e[2][0] == "k" and 0 <= e[2][1] < 64 and a[0] is not None and a[1] is not None:
                return (a[0] >> e[2][1], a[1] >> e[2][1])
            if a[0] is not None and a[0] >= 0:
                return (0, a[1])
            return a
        if t in ("min", "max"):
            a = self.rng(e[1], depth + 1)
            b = self.rng(e[2], depth + 1)
            f = min if t == "min" else max
            lo = f(a[0], b[0]) if a[0] is not None and b[0] is not None else \
                (None if t == "min" else (a[0] if a[0] is not None else b[0]))
            hi = f(a[1], b[1]) if a[1] is not None and b[1] is not None else \
                (None if t == "max" else (a[1] if a[1] is not None else b[1]))
            return (lo, hi)
        if t in ("cmp", "not", "band", "bor", "bxor", "pred", "fcmp", "isnull", "isvar"):
            return (0, 1)
        if t == "disc":
            return (None, None)
        if t == "ite":
            a = self.rng(e[2], depth + 1)
            b = self.rng(e[3], depth + 1)
            return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                    None if a[1] is None or b[1] is None else max(a[1], b[1]))
        if t == "call":
            r = self.cx.symrange.get(e)
            if r:
                return r
            return e[2] if len(e) > 2 and isinstance(e[2], tuple) and len(e[2]) == 2 and \
                (e[2][0] is None or isinstance(e[2][0], int)) else (None, None)
        return (None, None)

    # --- linear facts
    def add_cons(self, e):
        """e >= 0 (integer)"""
        c, m = lin_of(e)
        if not m:
            if c < 0:
                self.dead = True
            return
        if e in self.cons:
            return
        if not self.cx.light:
            self.cons = self.cons + (e,)
        if len(m) == 1:
            (a, k), = m.items()
            lo, hi = self.rng(a)
            if k > 0:
                nlo = -(c // k)  # ceil(-c/k)
                if lo is None or nlo > lo:
                    lo = nlo
            else:
                nhi = c // (-k)
                if hi is None or nhi < hi:
                    hi = nhi
            if lo is not None and hi is not None and lo > hi:
                self.dead = True
                return
            self.ranges[a] = (lo, hi)
        else:
            lo, hi = self.rng(e)
            if hi is not None and hi < 0:
                self.dead = True
                return
            # propagate bounds to single atoms
            for a, k in m.items():
                rest = self.rng(mk_lin(c, {x: y for x, y in m.items() if x != a}))
                if rest[1] is None:
                    continue
                lo, hi = self.rng(a)
                if k > 0:
                    nlo = -(rest[1] // k)
                    if lo is None or nlo > lo:
                        self.ranges[a] = (nlo, hi)
                else:
                    nhi = rest[1] // (-k)
                    if hi is None or nhi < hi:
                        self.ranges[a] = (lo, nhi)
                lo, hi = self.rng(a)
                if lo is not None and hi is not None and lo > hi:
                    self.dead = True
                    return

    def _defcons(self, atoms):
        """defining constraints of division / remainder / min / max atoms"""
        out = []
        seen = set()
        todo = list(atoms)
        while todo:
            a = todo.pop()
            if a in seen or len(seen) > 60:
                continue
            seen.add(a)
            t = a[0]
            new = []
            if t == "div":
                x, y = a[1], a[2]
                lo, _ = self.rng(x)
                ylo, _ = self.rng(y)
                if lo is not None and lo >= 0 and ylo is not None and ylo >= 1:
                    q = a
                    p = mul(q, y)
                    new.append(sub(x, p))                     # x - q*y >= 0
                    new.append(sub(sub(add(p, y), K(1)), x))  # q*y + y - 1 - x >= 0
                    new.append(q)
            elif t == "rem":
                x, y = a[1], a[2]
                lo, _ = self.rng(x)
                ylo, _ = self.rng(y)
                if lo is not None and lo >= 0 and ylo is not None and ylo >= 1:
                    new.append(a)
                    new.append(sub(sub(y, K(1)), a))
                    new.append(sub(x, a))
            elif t == "min":
                new.append(sub(a[1], a))
                new.append(sub(a[2], a))
            elif t == "max":
                new.append(sub(a, a[1]))
                new.append(sub(a, a[2]))
            elif t == "and":
                for z in (a[1], a[2]):
                    lo, _ = self.rng(z)
                    if lo is not None and lo >= 0:
                        new.append(sub(z, a))
                new.append(a) if self.rng(a)[0] == 0 else None
            elif t == "shr":
                lo, _ = self.rng(a[1])
                if lo is not None and lo >= 0:
                    new.append(sub(a[1], a))
            lo, hi = self.rng(a)
            if lo is not None:
                new.append(add(a, K(-lo)))
            if hi is not None and hi < (1 << 66):
                new.append(sub(K(hi), a))
            for n in new:
                out.append(n)
                for z in lin_of(n)[1]:
                    if z not in seen:
                        todo.append(z)
        return out

    def entails(self, e):
        """is e >= 0 implied?"""
        lo, hi = self.rng(e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        c, m = lin_of(e)
        if not m:
            return c >= 0
        if self.cx.light:
            return False
        # relevant constraints
        goal = scale(add(e, K(1)), -1)  # -e-1 >= 0
        rel = [goal]
        atoms = set(m)
        cons = list(self.cons)
        used = [False] * len(cons)
        changed = True
        rounds = 0
        while changed and rounds < 4:
            changed = False
            rounds += 1
            for i, cc in enumerate(cons):
                if used[i]:
                    continue
                ms = deep_atoms(cc)
                if any(a in atoms for a in ms):
                    used[i] = True
                    rel.append(cc)
                    for a in ms:
                        atoms.add(a)
                    changed = True
            if not changed:
                break
        extra = self._defcons(atoms)
        more = set()
        for x in extra:
            more.update(lin_of(x)[1])
        for i, cc in enumerate(cons):
            if not used[i] and any(a in more for a in lin_of(cc)[1]):
                used[i] = True
                rel.append(cc)
        for a in set().union(*[set(lin_of(cc)[1]) for cc in rel]) - more - atoms:
            lo, hi = self.rng(a)
            if lo is not None:
                rel.append(add(a, K(-lo)))
            if hi is not None and hi < (1 << 66):
                rel.append(sub(K(hi), a))
        return infeasible(rel + extra)

    def feasible(self):
        if self.dead:
            return False
        return True

    # --- conditions
    def decide(self, c):
        """True / False / None"""
        t = c[0]
        if t == "k":
            return c[1] != 0
        f = self.facts.get(c)
        if f is not None:
            return f
        if t == "not":
            r = self.decide(c[1])
            return None if r is None else (not r)
        if t == "cmp":
            op, a, b = c[1], c[2], c[3]
            if a == b:
                return op in ("le", "eq")
            if op in ("eq", "ne"):
                d = self._deceq(a, b)
                if d is None:
                    return None
                return d if op == "eq" else not d
            if not (isnum(a) and isnum(b)):
                return None
            if op == "le":
                if self.entails(sub(b, a)):
                    return True
                if self.entails(sub(sub(a, b), K(1))):
                    return False
                return None
            if op == "lt":
                if self.entails(sub(sub(b, a), K(1))):
                    return True
                if self.entails(sub(a, b)):
                    return False
                return None
        if t == "band":
            x, y = self.decide(c[1]), self.decide(c[2])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if t == "bor":
            x, y = self.decide(c[1]), self.decide(c[2])
            if x or y:
                return True
            if x is False and y is False:
                return False
            return None
        if t == "bxor":
            x, y = self.decide(c[1]), self.decide(c[2])
            if x is None or y is None:
                return None
            return x != y
        if t == "isnull":
            return None
        if t == "isvar":
            v = self.var.get(c[1])
            if v is None:
                return None
            if isinstance(v, int):
                return v == c[2]
            return None
        return None

    def _deceq(self, a, b):
        if a == b:
            return True
        if is_k(a) and is_k(b):
            return a[1] == b[1]
        if isnum(a) and isnum(b):
            d = sub(a, b)
            if is_k(d):
                return d[1] == 0
            lo, hi = self.rng(d)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == 0 and hi == 0:
                return True
            for x, y in ((a, b), (b, a)):
                if is_k(y) and self.facts.get(("cmp", "eq", x, y)) is not None:
                    return self.facts[("cmp", "eq", x, y)]
            if self.entails(sub(d, K(1))) or self.entails(sub(scale(d, -1), K(1))):
                return False
            if self.entails(d) and self.entails(scale(d, -1)):
                return True
            ne = self.notes.get("ne")
            if ne and (d in ne or scale(d, -1) in ne):
                return False
        return None

    def assume(self, c, val=True):
        """add condition; returns False if contradictory"""
        t = c[0]
        if t == "k":
            if (c[1] != 0) != val:
                self.dead = True
            return not self.dead
        if t == "not":
            return self.assume(c[1], not val)
        d = self.decide(c)
        if d is not None:
            if d != val:
                self.dead = True
            return not self.dead
        self.facts[c] = val
        if t == "cmp":
            op, a, b = c[1], c[2], c[3]
            if op == "ne":
                op, val = "eq", not val
            if op == "eq":
                if isnum(a) and isnum(b):
                    dlt = sub(a, b)
                    if val:
                        self.add_cons(dlt)
                        if not self.dead:
                            self.add_cons(scale(dlt, -1))
                    else:
                        self.notes["ne"] = self.notes.get("ne", frozenset()) | {dlt}
                        lo, hi = self.rng(dlt)
                        if lo == 0:
                            self.add_cons(sub(dlt, K(1)))
                        elif hi == 0:
                            self.add_cons(sub(scale(dlt, -1), K(1)))
                        elif self.entails(dlt):
                            self.add_cons(sub(dlt, K(1)))
                        elif self.entails(scale(dlt, -1)):
                            self.add_cons(sub(scale(dlt, -1), K(1)))
            elif isnum(a) and isnum(b):
                if op == "lt":
                    self.add_cons(sub(sub(b, a), K(1)) if val else sub(a, b))
                elif op == "le":
                    self.add_cons(sub(b, a) if val else sub(sub(a, b), K(1)))
                self._tighten_ne()
        elif t == "band" and val:
            self.assume(c[1], True)
            self.assume(c[2], True)
        elif t == "bor" and not val:
            self.assume(c[1], False)
            self.assume(c[2], False)
        elif t == "isvar" and val:
            self.var[c[1]] = c[2]
        return not self.dead

    def _tighten_ne(self):
        ne = self.notes.get("ne")
        if not ne:
            return
        for d in ne:
            lo, hi = self.rng(d)
            if lo == 0:
                self.add_cons(sub(d, K(1)))
            elif hi == 0:
                self.add_cons(sub(scale(d, -1), K(1)))


def isnum(e):
    return e[0] in ("k", "lin", "S", "mul", "wrap", "div", "rem", "and", "or", "xor", "shr", "shl",
                    "min", "max", "call", "ite", "disc", "bnot", "addr", "f2i", "cmp", "not", "pred",
                    "isnull", "band", "bor", "tbl")


def infeasible(cons, limit=1500):
    """Fourier-Motzkin over the rationals with integer tightening.
    cons: list of lin exprs (>= 0).  True if surely infeasible."""
    sysn = set()
    for e in cons:
        c, m = lin_of(e)
        if not m:
            if c < 0:
                return True
            continue
        sysn.add(_norm(c, m))
    while sysn:
        # pick the variable with the fewest combinations
        pos, neg = {}, {}
        for c, m in sysn:
            for a, k in m:
                d = pos if k > 0 else neg
                d[a] = d.get(a, 0) + 1
        allv = set(pos) | set(neg)
        best = min(allv, key=lambda a: (pos.get(a, 0) * neg.get(a, 0) - pos.get(a, 0) - neg.get(a, 0), rank(a)))
        P, N, R = [], [], set()
        for e in sysn:
            k = dict(e[1]).get(best, 0)
            if k > 0:
                P.append((e, k))
            elif k < 0:
                N.append((e, -k))
            else:
                R.add(e)
        if len(P) * len(N) + len(R) > limit:
            return False
        for (e1, k1) in P:
            for (e2, k2) in N:
                m = {}
                for a, k in e1[1]:
                    m[a] = m.get(a, 0) + k * k2
                for a, k in e2[1]:
                    m[a] = m.get(a, 0) + k * k1
                c = e1[0] * k2 + e2[0] * k1
                m = {a: k for a, k in m.items() if k}
                if not m:
                    if c < 0:
                        return True
                    continue
                R.add(_norm(c, m))
        # drop dominated constraints
        bestc = {}
        for c, m in R:
            if m not in bestc or c < bestc[m]:
                bestc[m] = c
        sysn = set((c, m) for m, c in bestc.items())
    return False


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def _norm(c, m):
    g = reduce(_gcd, m.values(), 0)
    if g > 1:
        m = {a: k // g for a, k in m.items()}
        c = c // g  # floor: integer tightening
    return (c, tuple(sorted(m.items(), key=lambda x: rank(x[0]))))


# ---------------------------------------------------------------- comparison building
def mk_cmp(op, a, b):
    if op == "gt":
        op, a, b = "lt", b, a
    elif op == "ge":
        op, a, b = "le", b, a
    if is_k(a) and is_k(b):
        x, y = a[1], b[1]
        return K(int({"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y}[op]))
    if op in ("eq", "ne"):
        if op == "ne":
            return mk_not(mk_cmp("eq", a, b))
        # boolean == constant
        for x, y in ((a, b), (b, a)):
            if is_k(y) and x[0] in BOOLS:
                if y[1] == 1:
                    return x
                if y[1] == 0:
                    return mk_not(x)
        if a == b:
            return TRUE
        if is_k(a) or (not is_k(b) and rank(a) > rank(b)):
            a, b = b, a
        return ("cmp", "eq", a, b)
    if op == "le":
        return mk_not(mk_cmp("lt", b, a))
    if a == b:
        return FALSE
    return ("cmp", "lt", a, b)


BOOLS = ("cmp", "not", "band", "bor", "bxor", "pred", "fcmp", "isnull", "isvar")


def mk_not(c):
    if c[0] == "k":
        return K(1 - c[1])
    if c[0] == "not":
        return c[1]
    return ("not", c)


def contains(e, pred):
    if isinstance(e, tuple):
        if pred(e):
            return True
        for x in e:
            if isinstance(x, tuple) and contains(x, pred):
                return True
    return False


def contains_any(e, targets):
    if isinstance(e, tuple):
        if e in targets:
            return True
        for x in e:
            if isinstance(x, tuple) and contains_any(x, targets):
                return True
    return False


I0 = (("i", K(0)),)
WRAPPERS = ("std::boxed::Box", "alloc::boxed::Box", "std::ptr::Unique", "core::ptr::Unique",
            "std::ptr::NonNull", "core::ptr::NonNull", "std::pin::Pin", "core::pin::Pin",
            "std::mem::ManuallyDrop", "core::mem::ManuallyDrop",
            "std::mem::MaybeUninit", "core::mem::MaybeUninit",
            "std::mem::MaybeDangling", "core::mem::MaybeDangling",
            "std::ptr::unique::Unique", "core::ptr::unique::Unique",
            "std::ptr::non_null::NonNull", "core::ptr::non_null::NonNull",
            "std::num::NonZero", "core::num::NonZero", "std::cell::UnsafeCell", "core::cell::UnsafeCell",
            "core::num::niche_types::UsizeNoHighBit")


def arr_into_iter(I, st, a, rt, t, fn, bb, depth, fr):
    return [(st, ("aiter", a[0], 0))]


def arr_next(I, st, a, rt, t, fn, bb, depth, fr):
    ad = I.p.adt(rt)
    v = I.rd(st, a[0][1], a[0][2]) if a[0][0] == "ptr" else None
    if v is None or v[0] != "aiter":
        return None
    vs = {x["n"]: i for i, x in enumerate(ad["v"])}
    n = arr_len(I, v[1])
    if n is None:
        return None
    if v[2] >= n:
        return [(st, ("agg", I.p.types[rt]["d"], vs["None"], ()))]
    I.wr(st, a[0][1], a[0][2], ("aiter", v[1], v[2] + 1))
    return [(st, ("agg", I.p.types[rt]["d"], vs["Some"], (I.elem(st, v[1], K(v[2])),)))]


def arr_len(I, v):
    tid = v[1] if v[0] in ("arr", "S") else I.p.consts[v[1]]["t"] if v[0] == "carr" else None
    return I.p.types[tid].get("len") if tid is not None and tid >= 0 and I.p.types[tid]["k"] == "array" else None


class Interp:
    MAXDEPTH = 40

    def __init__(self, prog, **opt):
        self.p = prog
        self.cx = Ctx(prog)
        self.models = {}
        self.inline_local = opt.get("inline_local", True)
        self.inline_std = opt.get("inline_std", True)
        self.no_inline = set(opt.get("no_inline", ()))
        self.max_states = opt.get("max_states", 48)
        self.steps = 0
        self.max_steps = opt.get("max_steps", 3000000)
        self.record = 0            # >0 while a loop is being stabilised (events muted)
        self.fresh_n = {}
        self.on_panic = None
        self.on_deref = None
        self.on_index = None
        self.on_call = None
        self.on_store = None
        self.untracked = None
        self.on_bin = None
        self.on_drop = None
        self.merge = opt.get("merge", True)
        self.tusize = prog.tybyname.get("usize")
        self.loop_iters = 0
        self.visited = set()
        self.opaque_calls = {}
        self.trace = opt.get("trace", False)
        self.unroll = opt.get("unroll", 0)
        self.peel = opt.get("peel", 0)
        self.flatcast = opt.get("flatcast", False)
        self.peeled = set()
        self.unroll_width = opt.get("unroll_width", 1)
        # loops whose every round decides whether another one follows are run round by round, up to this many
        self.decided = opt.get("decided", 16)
        if self.decided:
            self.models["std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter"] = arr_into_iter
            self.models["<std::array::IntoIter<T, N> as std::iter::Iterator>::next"] = arr_next

    # ------------------------------------------------ types helpers
    def is_wrapper(self, tid):
        t = self.p.types[tid]
        return t["k"] == "adt" and t["d"] in WRAPPERS

    def strip_wrap(self, tid):
        while self.is_wrapper(tid):
            t = self.p.types[tid]
            d = t["d"].split("::")[-1]
            if d in ("Box", "Unique", "NonNull"):
                return tid
            if d == "UsizeNoHighBit":
                return self.tusize
            if not t["a"]:
                return tid
            tid = t["a"][0]
        return tid

    def ptee(self, tid):
        """pointee type of any pointer-like type"""
        if tid is None or tid < 0:
            return None
        tid = self.strip_wrap(tid)
        t = self.p.types[tid]
        if t["k"] in ("ref", "ptr"):
            return t["t"]
        if t["k"] == "adt" and t["d"] in WRAPPERS and t["a"]:
            return t["a"][0]
        return None

    def sym(self, tid, *ident):
        t = self.p.types[tid] if tid is not None and tid >= 0 else None
        if t is not None:
            if t["k"] == "tuple" and not t.get("ts"):
                return ("agg", "tuple", 0, ())
        return ("S", tid) + ident

    def fresh(self, st, tid, *ident):
        it = st.notes.get("iter", ())
        key = (ident, it)
        n = st.notes.get(("fresh", key), 0)
        st.notes[("fresh", key)] = n + 1
        return self.sym(tid, *ident, it, n)

    # ------------------------------------------------ constants
    def const(self, c, st=None):
        tid = c["t"]
        if c.get("cn"):
            e = self.p.consts[c["name"]]
            cv = e["c"]
            if "arr" in cv:
                return ("carr", c["name"])
            return self.cval(cv, tid)
        return self.cval(c["c"], tid, c.get("name"))

    def cval(self, v, tid, name=None):
        if "v" in v:
            k = self.p.kind(tid) if tid is not None else "int"
            if k in ("ptr", "ref", "fnptr"):
                return NULL if v["v"] == 0 else ("S", tid, "caddr", v["v"])
            return K(v["v"])
        if "fl" in v:
            return ("f", v["fl"])
        if "fn" in v:
            return ("fn", v["fn"], tid)
        if "fnptr" in v:
            return ("fn", v["fnptr"], None, v.get("fkey"))
        if "str" in v:
            return ("ptr", ("cstr", v["str"]), I0, K(len(v["str"].encode())))
        if "bytes" in v:
            return ("ptr", ("cbytes", tuple(v["bytes"])), I0, K(len(v["bytes"])))
        if "static" in v:
            return ("ptr", ("static", v["static"]), I0, None)
        if "zst" in v:
            t = self.p.types[tid]
            if t["k"] in ("tuple",):
                return ("agg", "tuple", 0, tuple(self.cval(v, x) for x in t.get("ts", [])))
            if t["k"] == "closure":
                return ("agg", "closure:" + t["d"], 0, ())
            if t["k"] == "adt":
                if self.is_wrapper(tid) and t["a"]:
                    return self.cval(v, t["a"][0])
                fs = self.p.fields(tid)
                return ("agg", t["d"], 0, tuple(self.cval(v, ft) for _, ft in fs))
            return ("S", tid, "zst")
        if "f" in v and "var" in v:
            ct = v.get("ct", tid)
            t = self.p.types[ct]
            if t["k"] == "adt" and t["d"] in WRAPPERS and v["f"]:
                return self.cval(v["f"][0], self.p.fields(ct)[0][1] if self.p.fields(ct) else ct)
            if t["k"] == "array":
                return ("arr", ct, ("consts", tuple(self.cval(x if isinstance(x, dict) else {"v": x}, t["t"]) for x in v["f"])), ())
            fs = self.p.fields(ct, v["var"])
            kind = t["d"] if t["k"] == "adt" else "tuple"
            return ("agg", kind, v["var"], tuple(self.cval(x, ft) for x, (_, ft) in zip(v["f"], fs)))
        if "ref" in v:
            inner = self.cval(v["ref"], v.get("rt"))
            return ("ptr", ("cref", inner, v.get("rt")), I0, None)
        if "sl" in v:
            et = self.p.types[tid].get("t")
            et = self.p.types[et].get("t") if et is not None else None
            return ("ptr", ("cslice", tuple(self.cval(x, et) for x in v["sl"]), et), I0, K(len(v["sl"])))
        if "arr" in v:
            t = self.p.types[tid]
            return ("arr", tid, ("consts", tuple(self.cval(x if isinstance(x, dict) else {"v": x}, t.get("t")) for x in v["arr"])), ())
        return ("S", tid, "const", name or repr(v)[:120])

    # ------------------------------------------------ values
    def field(self, st, v, idx, name, vtid=None):
        t = v[0]
        if t == "agg":
            fs = v[3]
            if idx < len(fs):
                return fs[idx]
            return ("S", None, "badfield")
        if t in ("ptr", "null"):
            return v
        if t == "S":
            tid = v[1]
            if tid is None or tid < 0:
                return ("S", None, "fld", v, name)
            if self.is_wrapper(tid):
                w = self.strip_wrap(tid)
                if w != tid:
                    return ("S", w) + v[2:]
                return v
            fs = self.p.fields(tid)
            if idx < len(fs):
                return self.sym(fs[idx][1], "fld", v, fs[idx][0])
            return ("S", None, "fld", v, name)
        if t in ("undef", "moved"):
            return v
        if t == "union":
            return ("S", None, "ufld", v, name)
        # scalar wrapped in a transparent type
        return v

    def vfield(self, st, v, variant, idx, name):
        if v[0] == "agg":
            if v[2] != variant:
                return None
            return v[3][idx] if idx < len(v[3]) else ("S", None, "bad")
        if v[0] == "S" and v[1] is not None and v[1] >= 0:
            known = st.var.get(v)
            if known is not None and isinstance(known, int) and known != variant:
                return None
            fs = self.p.fields(v[1], variant)
            if idx < len(fs):
                return self.sym(fs[idx][1], "vf", v, variant, idx)
        return ("S", None, "vf", v, variant, idx)

    def elem_tid(self, tid):
        if tid is None or tid < 0:
            return None
        t = self.p.types[tid]
        if t["k"] in ("array", "slice"):
            return t["t"]
        if t["k"] == "str":
            return self.p.tybyname.get("u8")
        return None

    def elem(self, st, v, idx, tid=None):
        """element of an array value"""
        if v[0] == "carr":
            c = self.p.consts[v[1]]
            arr = c["c"]["arr"]
            et = self.p.types[c["t"]].get("t")
            if is_k(idx) and 0 <= idx[1] < len(arr):
                x = arr[idx[1]]
                return self.cval(x if isinstance(x, dict) else {"v": x}, et)
            return ("S", et, "tbl", v[1], idx)
        if v[0] == "arr":
            for i, x in reversed(v[3]):
                if i == idx:
                    return x
                d = self._differ(st, i, idx)
                if not d:
                    et = self.elem_tid(v[1])
                    return self.sym(et, "mel", v, idx)
            d = v[2]
            if d[0] == "rep":
                return d[1]
            if d[0] == "consts":
                if is_k(idx) and 0 <= idx[1] < len(d[1]):
                    return d[1][idx[1]]
                et = self.elem_tid(v[1])
                return self.sym(et, "tblv", d, idx)
            return self.elem(st, d, idx)
        if v[0] == "S":
            et = self.elem_tid(v[1])
            return self.sym(et, "el", v, idx)
        if v[0] in ("undef", "moved"):
            return v
        return ("S", None, "el", v, idx)

    def _differ(self, st, a, b):
        d = sub(a, b) if isnum(a) and isnum(b) else None
        if d is None:
            return False
        if is_k(d):
            return d[1] != 0
        return st.decide(mk_cmp("eq", a, b)) is False

    def get(self, st, v, path, vt=None):
        """follow a projection path (no deref) in a value"""
        i = 0
        while i < len(path):
            e = path[i]
            if v is None:
                return None
            if e[0] == "f":
                v = self.field(st, v, e[1], e[2])
            elif e[0] == "as":
                nxt = path[i + 1] if i + 1 < len(path) else None
                if nxt and nxt[0] == "f":
                    v = self.vfield(st, v, e[1], nxt[1], nxt[2])
                    i += 1
                # bare downcast: value stays
            elif e[0] == "i":
                v = self.elem(st, v, e[1])
            elif e[0] == "off":
                v = ("S", None, "off", v, e[1])
            elif e[0] == "sub":
                v = ("S", None, "subsl", v, e[1:])
            i += 1
        return v

    def put(self, st, v, path, new, tid):
        """functional update; tid = type of v"""
        if not path:
            return new
        e = path[0]
        if e[0] == "f":
            if tid is not None and tid >= 0 and self.is_wrapper(tid):
                w = self.strip_wrap(tid)
                return self.put(st, v, path[1:], new, w if w != tid else None)
            fs = self.p.fields(tid) if tid is not None and tid >= 0 else []
            v = self.explode(v, tid)
            if v[0] == "agg":
                l = list(v[3])
                while len(l) <= e[1]:
                    l.append(UNDEF)
                if len(l) > 1 and tid is not None and tid >= 0 and self.p.types[tid]["k"] == "adt" and (self.p.adts.get(self.p.types[tid]["d"]) or {}).get("kind") == "union":
                    l = [x if k == e[1] else ("S", fs[k][1], "overlaid", x, fs[k][0]) for k, x in enumerate(l)]
                l[e[1]] = self.put(st, l[e[1]], path[1:], new, fs[e[1]][1] if e[1] < len(fs) else None)
                return ("agg", v[1], v[2], tuple(l))
            if v[0] == "upd":
                d = dict(v[2])
                old = d.get(e[1], ("S", None, "fld", v[1], e[2]))
                d[e[1]] = self.put(st, old, path[1:], new, fs[e[1]][1] if e[1] < len(fs) else None)
                return ("upd", v[1], tuple(sorted(d.items())))
            if tid is not None and tid >= 0 and self.p.types[tid]["k"] == "adt" and e[1] < len(fs):
                a = self.p.adts.get(self.p.types[tid]["d"])
                if a and a["kind"] == "union" and v[0] == "S":
                    # one member becomes the live one
                    l = [("S", ft, "fld", v, n) if k == e[1] else ("S", ft, "overlaid", v, n) for k, (n, ft) in enumerate(fs)]
                    l[e[1]] = self.put(st, self.field(st, v, e[1], e[2]), path[1:], new, fs[e[1]][1])
                    return ("agg", self.p.types[tid]["d"], 0, tuple(l))
            return ("S", None, "updated", v, e[2])
        if e[0] == "as":
            nxt = path[1] if len(path) > 1 else None
            if nxt is None:
                return self.put(st, v, path[1:], new, tid)
            fs = self.p.fields(tid, e[1]) if tid is not None and tid >= 0 else []
            if v[0] == "agg" and v[2] == e[1]:
                l = list(v[3])
            else:
                l = [self.sym(ft, "vf", v, e[1], k) for k, (_, ft) in enumerate(fs)]
            while len(l) <= nxt[1]:
                l.append(UNDEF)
            l[nxt[1]] = self.put(st, l[nxt[1]], path[2:], new, fs[nxt[1]][1] if nxt[1] < len(fs) else None)
            kind = self.p.types[tid].get("d", "?") if tid is not None and tid >= 0 else "?"
            return ("agg", kind, e[1], tuple(l))
        if e[0] == "i":
            et = self.elem_tid(tid)
            if v[0] != "arr":
                v = ("arr", tid, v, ())
            old = self.elem(st, v, e[1]) if len(path) > 1 else None
            nv = self.put(st, old, path[1:], new, et)
            ups = tuple((i, x) for i, x in v[3] if i != e[1])
            # entries that may alias become unknown
            out = []
            for i, x in ups:
                if self._differ(st, i, e[1]):
                    out.append((i, x))
                else:
                    out.append((i, self.sym(et, "may", x, i, nv)))
            out.append((e[1], nv))
            return ("arr", v[1], v[2], tuple(out))
        return ("S", None, "put?", v)

    def explode(self, v, tid):
        if v[0] == "agg":
            return v
        if tid is None or tid < 0:
            return v
        t = self.p.types[tid]
        if t["k"] == "adt":
            a = self.p.adts.get(t["d"])
            if a and a["kind"] == "struct":
                fs = self.p.fields(tid)
                return ("agg", t["d"], 0, tuple(
                    (self.field(None, v, i, n) if v[0] == "S" else UNDEF) for i, (n, ft) in enumerate(fs)))
            return v
        if t["k"] in ("tuple", "closure"):
            fs = self.p.fields(tid)
            kind = "tuple" if t["k"] == "tuple" else "closure:" + t["d"]
            return ("agg", kind, 0, tuple(
                (self.field(None, v, i, n) if v[0] == "S" else UNDEF) for i, (n, ft) in enumerate(fs)))
        return v

    # ------------------------------------------------ pointers
    def as_ptr(self, v):
        if v[0] == "ptr":
            return v
        if v[0] == "null":
            return ("ptr", NULL, I0, None)
        if v[0] == "S" and v[1] is not None and v[1] >= 0:
            pt = self.ptee(v[1])
            meta = None
            if pt is not None and self.p.types[pt]["k"] in ("slice", "str"):
                meta = ("S", -2, "len", v)
            return ("ptr", v, I0, meta)
        return ("ptr", v, I0, None)

    def norm_ptr(self, base, path, meta):
        if path == I0 and base[0] not in ("L", "cstr", "cbytes", "cref", "cslice", "static", "tmp"):
            if meta is None or meta == ("S", -2, "len", base):
                if base[0] != "null":
                    return base
                return NULL
        return ("ptr", base, path, meta)

    def ptr_off(self, p, n):
        p = self.as_ptr(p)
        if n == K(0):
            return self.norm_ptr(p[1], p[2], p[3])
        path = p[2]
        if path and path[-1][0] == "i":
            path = path[:-1] + (("i", add(path[-1][1], n)),)
        else:
            path = path + (("off", n),)
        return self.norm_ptr(p[1], path, None)

    def base_tid(self, base, fn_locals=None):
        """type of the object a base points to"""
        if base[0] == "S":
            return self.ptee(base[1]) if base[1] is not None and base[1] >= 0 else None
        if base[0] == "cast":
            return base[2]
        if base[0] == "cref":
            return base[2]
        if base[0] == "static":
            s = self.p.statics.get(base[1])
            return s["t"] if s else None
        if base[0] in ("obj",):
            return base[1]
        return None

    def rd(self, st, base, path):
        """read value at base+path"""
        if base[0] == "L":
            ent = st.mem.get(base)
            if ent is None:
                return UNDEF
            return self.get(st, ent[1], path)
        if base[0] == "cstr":
            b = base[1].encode()
            if path and path[0][0] == "i" and is_k(path[0][1]) and 0 <= path[0][1][1] < len(b):
                return K(b[path[0][1][1]])
            return ("S", self.p.tybyname.get("u8"), "cstrb", base, path)
        if base[0] == "cbytes":
            i = path[-1][1] if path and path[-1][0] == "i" else None
            if i is not None and is_k(i) and 0 <= i[1] < len(base[1]):
                return K(base[1][i[1]])
            return ("S", self.p.tybyname.get("u8"), "cb", base, path)
        if base[0] == "cref":
            if path and path[0][0] == "i":
                if path[0] == I0[0]:
                    return self.get(st, base[1], path[1:])
                return self.get(st, base[1], path)
            return self.get(st, base[1], path)
        if base[0] == "cslice":
            if path and path[0][0] == "i" and is_k(path[0][1]) and 0 <= path[0][1][1] < len(base[1]):
                return self.get(st, base[1][path[0][1][1]], path[1:])
            v = ("S", base[2], "cslel", base, path[0] if path else None)
            return self.get(st, v, path[1:])
        idx = path[0][1] if path and path[0][0] == "i" else K(0)
        rest = path[1:] if path and path[0][0] == "i" else path
        ent = self.obj(st, base, idx)
        return self.get(st, ent, rest)

    def obj(self, st, base, idx):
        tid = self.base_tid(base)
        if base[0] == "static" :
            s = self.p.statics.get(base[1])
            if s is not None and not s["mut"] and s["freeze"] and s.get("c"):
                return self.cval(s["c"], s["t"])
        if tid is not None and self.p.types[tid]["k"] in ("slice", "str"):
            tid = self.elem_tid(tid)
        ent = st.mem.get((base, idx))
        if ent is not None:
            return ent[1]
        d = st.mem.get(("objs", base))
        gen = 0
        if d is not None:
            gen, idxs = d
            for j in idxs:
                if not self._differ(st, j, idx):
                    gen = ("may", gen, idxs)
                    break
        # ancestors' generations are part of base's own identity already
        if gen == 0:
            return self.sym(tid, "mem", base, idx)
        return self.sym(tid, "mem", base, idx, gen)

    def wr(self, st, base, path, v, tid=None):
        if self.on_store and not self.record:
            self.on_store(self, st, base, path, v)
        if self.untracked is not None and self.untracked(base):
            # contents are not tracked: every later read is an unknown element
            n = st.notes.get("gen", 0) + 1
            st.notes["gen"] = n
            st.mem[("objs", base)] = (("g", "store", st.notes.get("iter", ()), n), ())
            return
        if base[0] == "L":
            ent = st.mem.get(base)
            lt = ent[0] if ent else None
            old = ent[1] if ent else UNDEF
            st.mem[base] = (lt, self.put(st, old, path, v, lt))
            return
        idx = path[0][1] if path and path[0][0] == "i" else K(0)
        rest = path[1:] if path and path[0][0] == "i" else path
        btid = self.base_tid(base)
        if btid is not None and self.p.types[btid]["k"] in ("slice", "str"):
            btid = self.elem_tid(btid)
        old = self.obj(st, base, idx)
        nv = self.put(st, old, rest, v, btid)
        gen, idxs = st.mem.get(("objs", base), (0, ()))
        for j in idxs:
            if j != idx and not self._differ(st, j, idx):
                e = st.mem.get((base, j))
                if e is not None:
                    st.mem[(base, j)] = (e[0], self.sym(btid, "may", e[1], j, nv))
        if idx not in idxs:
            st.mem[("objs", base)] = (gen, idxs + (idx,))
        st.mem[(base, idx)] = (btid, nv)

    def newobj(self, st, tid, ident, val):
        """a fresh object holding val; returns the pointer to it"""
        base = ("obj", tid, ident)
        st.mem[("objs", base)] = (0, (K(0),))
        st.mem[(base, K(0))] = (tid, val)
        return ("ptr", base, I0, None)

    def havoc_base(self, st, base, why):
        """forget what is stored in base and everything reached from it"""
        if base[0] in ("cstr", "cbytes", "cref", "cslice"):
            return
        if base[0] == "L":
            ent = st.mem.get(base)
            if ent is not None:
                # pointers inside the object are followed too
                lt, v = ent
                st.mem[base] = (lt, self.fresh(st, lt, "havoc", why, base[2:]))
                self._havoc_reach(st, v, why)
            return
        gone = []
        for k in list(st.mem):
            b = k[1] if k[0] == "objs" else k[0] if isinstance(k[0], tuple) else None
            if b is None or k[0] == "L":
                continue
            if b == base or contains(b, lambda x: x == base):
                gone.append(k)
        for k in gone:
            del st.mem[k]
        n = st.notes.get("gen", 0) + 1
        st.notes["gen"] = n
        st.mem[("objs", base)] = (("g", why, st.notes.get("iter", ()), n), ())

    def _havoc_reach(self, st, v, why, depth=0):
        if depth > 6:
            return
        if v[0] == "ptr":
            self.havoc_base(st, v[1], why) if v[1][0] != "L" or True else None
        elif v[0] == "agg":
            for x in v[3]:
                self._havoc_reach(st, x, why, depth + 1)
        elif v[0] == "S" and v[1] is not None and v[1] >= 0 and self.ptee(v[1]) is not None:
            self.havoc_base(st, v, why)

    # ------------------------------------------------ places
    def loc(self, st, fr, pl):
        """place -> (base, path)  (last deref target)"""
        base = ("L", fr, pl[0])
        path = ()
        for e in pl[1:]:
            if e == "*":
                v = self.rd(st, base, path)
                if v is None:
                    return None
                p = self.as_ptr(v)
                if self.on_deref and not self.record:
                    self.on_deref(self, st, v)
                base, path = p[1], p[2]
                if base == NULL:
                    st.notes["nullderef"] = True
                meta = p[3]
                st.notes["lastmeta"] = meta
                # a pointer to an unsized slice: index follows
                if path == I0 and meta is not None:
                    pass
            elif e[0] == ".":
                path = path + (("f", e[1], e[2]),)
            elif e[0] == "as":
                path = path + (("as", e[1]),)
            elif e[0] == "[]":
                iv = self.rd(st, ("L", fr, e[1]), ())
                path = self._index(st, base, path, iv)
            elif e[0] == "[c]":
                if e[2]:
                    meta = st.notes.get("lastmeta")
                    n = meta if meta is not None else ("S", -2, "len", base)
                    path = self._index(st, base, path, sub(n, K(e[1])))
                else:
                    path = self._index(st, base, path, K(e[1]))
            elif e[0] == "[s]":
                # subslice: keep as an offset
                path = self._index(st, base, path, K(e[1]))
            else:
                path = path + (("?",),)
        return base, path

    def _index(self, st, base, path, iv):
        if path and path[-1][0] == "i" and st.notes.get("lastmeta") is not None and len(path) == 1 \
                and base[0] not in ("L",):
            # *slice pointer already positioned at an element
            bt = self.base_tid(base)
            k = self.p.types[bt]["k"] if bt is not None else None
            if k in ("slice", "str") or base[0] in ("cslice", "cstr", "cbytes"):
                return (("i", add(path[-1][1], iv)),)
        return path + (("i", iv),)

    def read_place(self, st, fr, pl):
        l = self.loc(st, fr, pl)
        if l is None:
            return None
        return self.rd(st, l[0], l[1])

    def operand(self, st, fr, o, move=True):
        k = o[0]
        if k == "k":
            return self.const(o[1], st)
        if k in ("c", "m"):
            v = self.read_place(st, fr, o[1])
            if k == "m" and len(o[1]) == 1 and v is not None:
                pass
            return v
        return K(0)  # runtime checks flag

    # ------------------------------------------------ arithmetic
    def to_range(self, st, e, tid):
        """value e reduced to the range of type tid"""
        r = self.p.irange(tid)
        if r is None:
            return e
        if not isnum(e):
            return e
        if e[0] == "wrap" and e[1] == r:
            return e
        lo, hi = st.rng(e)
        if lo is not None and hi is not None and lo >= r[0] and hi <= r[1]:
            return e
        if is_k(e):
            m = r[1] - r[0] + 1
            return K((e[1] - r[0]) % m + r[0])
        # strip inner wraps with the same modulus
        e = self.unwrap_lin(e, r)
        lo, hi = st.rng(e)
        if lo is not None and hi is not None and lo >= r[0] and hi <= r[1]:
            return e
        okl = (lo is not None and lo >= r[0]) or st.entails(add(e, K(-r[0])))
        if okl and ((hi is not None and hi <= r[1]) or st.entails(sub(K(r[1]), e))):
            return e
        return ("wrap", r, e)

    def unwrap_lin(self, e, r):
        size = r[1] - r[0] + 1
        c, m = lin_of(e)
        out = K(c)
        ch = False
        for a, k in m.items():
            if a[0] == "wrap" and (a[1][1] - a[1][0] + 1) % size == 0:
                out = add(out, a[2], k)
                ch = True
            else:
                out = add(out, a, k)
        if ch:
            c, m = lin_of(out)
            c = (c - r[0]) % size + r[0] if not m else c
            return self.unwrap_lin(out, r)
        return e

    def resolve(self, st, e):
        """try to remove wraps that are provably not wrapping"""
        if e[0] == "wrap":
            r = e[1]
            x = self.resolve(st, e[2])
            if st.entails(add(x, K(-r[0]))) and st.entails(sub(K(r[1]), x)):
                return x
            m = r[1] - r[0] + 1
            for y in ((sub(x, K(m)), add(x, K(m))) if self.sign_inv else ()):
                if st.entails(add(y, K(-r[0]))) and st.entails(sub(K(r[1]), y)):
                    return y
            return ("wrap", r, x)
        if e[0] == "lin":
            out = K(e[1])
            for a, k in e[2]:
                out = add(out, self.resolve(st, a) if a[0] == "wrap" else a, k)
            return out
        return e

    def binop(self, st, op, a, b, ltid, site=None):
        t = self.p.types[ltid]
        if a is None or b is None:
            return None
        unchecked = False
        if op.endswith("Unchecked"):
            op = op[:-9]
            unchecked = True
        withov = False
        if op.endswith("WithOverflow"):
            op = op[:-12]
            withov = True
        if t["k"] == "float":
            if op in ("Eq", "Lt", "Le", "Ne", "Ge", "Gt"):
                m = {"Eq": "eq", "Lt": "lt", "Le": "le", "Ne": "ne", "Ge": "ge", "Gt": "gt"}[op]
                if a[0] == "f" and b[0] == "f":
                    x, y = float(a[1]), float(b[1])
                    return K(int({"eq": x == y, "lt": x < y, "le": x <= y, "ne": x != y, "ge": x >= y, "gt": x > y}[m]))
                if m == "ne":
                    return mk_not(("fcmp", "eq", a, b))
                if m == "gt":
                    m, a, b = "lt", b, a
                if m == "ge":
                    m, a, b = "le", b, a
                return ("fcmp", m, a, b)
            return ("fop", op, a, b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if t["k"] in ("ptr", "ref", "fnptr"):
                return self.ptr_cmp(st, op, a, b)
            if op in ("Eq", "Ne") and (b == K(0) or a == K(0)):
                x = a if b == K(0) else b
                if x[0] == "S" and len(x) == 4 and x[2] == "transmute" and (x[3][0] in ("cast", "ptr") or self.ptee_of(x[3]) is not None):
                    r = self.ptr_null(st, x[3])
                    return r if op == "Eq" else mk_not(r)
            if isnum(a) and isnum(b):
                a = self.resolve(st, a) if a[0] in ("wrap", "lin") else a
                b = self.resolve(st, b) if b[0] in ("wrap", "lin") else b
                return mk_cmp({"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}[op], a, b)
            if a == b:
                return K(int(op in ("Eq", "Le", "Ge")))
            return ("pred", "cmp" + op, a, b)
        if op == "Offset":
            return self.ptr_off(a, b)
        if t["k"] == "bool" or (a[0] in BOOLS and b[0] in BOOLS + ("k",)):
            if op == "BitAnd":
                return self.band(a, b)
            if op == "BitOr":
                return mk_not(self.band(mk_not(a), mk_not(b)))
            if op == "BitXor":
                if is_k(a):
                    return mk_not(b) if a[1] else b
                if is_k(b):
                    return mk_not(a) if b[1] else a
                return ("bxor", a, b)
        if not (isnum(a) and isnum(b)):
            return ("S", ltid, "bin", op, a, b)
        if op in ("Add", "Sub", "Mul"):
            r = add(a, b) if op == "Add" else sub(a, b) if op == "Sub" else mul(a, b)
            if withov:
                rg = self.p.irange(ltid)
                r2 = self.unwrap_lin(r, rg) if False else r
                w = self.to_range(st, r2, ltid)
                if w == r2:
                    return ("agg", "tuple", 0, (r2, FALSE))
                ok = self.band(mk_cmp("le", K(rg[0]), r2), mk_cmp("le", r2, K(rg[1])))
                return ("agg", "tuple", 0, (w, mk_not(ok)))
            if unchecked:
                return r
            return self.to_range(st, r, ltid)
        if op in ("Div", "Rem"):
            return self.divrem(st, op, a, b)
        if op == "BitAnd":
            return self.bitand(st, a, b)
        if op in ("BitOr", "BitXor"):
            if is_k(a) and is_k(b):
                return K(a[1] | b[1] if op == "BitOr" else a[1] ^ b[1])
            if a == K(0):
                return b
            if b == K(0):
                return a
            if a == b:
                return a if op == "BitOr" else K(0)
            if self._disjoint(st, a, b) or self._disjoint(st, b, a):
                return self.to_range(st, add(a, b), ltid)
            x, y = sorted((a, b), key=rank)
            if y[0] == "k" or x[0] == "k":
                if x[0] == "k":
                    x, y = y, x
            return ("or" if op == "BitOr" else "xor", x, y)
        if op in ("Shl", "Shr"):
            bits = t.get("b", 32)
            if withov:
                pass
            if is_k(b):
                sh = b[1] & (bits - 1) if not unchecked else b[1]
                if op == "Shl":
                    return self.to_range(st, scale(a, 1 << sh), ltid)
                if is_k(a):
                    return K(a[1] >> sh)
                if sh == 0:
                    return a
                lo, hi = st.rng(a)
                if lo is not None and lo >= 0:
                    return self.divrem(st, "Div", a, K(1 << sh))
                return ("shr", a, K(sh))
            if op == "Shl":
                if a == K(1):
                    return ("S", ltid, "pow2", b)
                return ("S", ltid, "shl", a, b)
            return ("shr", a, b)
        if op == "Cmp":
            return ("S", None, "ordcmp", a, b)
        return ("S", ltid, "bin", op, a, b)

    def _disjoint(self, st, a, b):
        """a is a multiple of 2^n and 0 <= b < 2^n"""
        c, m = lin_of(a)
        if b[0] not in ("k",) and not m:
            pass
        n = None
        g = 0
        for k in list(m.values()) + [c]:
            g = _gcd(g, k)
        if g == 0:
            return True
        low = g & -g
        lo, hi = st.rng(b)
        alo, _ = st.rng(a)
        return lo is not None and lo >= 0 and hi is not None and hi < low and alo is not None and alo >= 0

    def band(self, a, b):
        if a == FALSE or b == FALSE:
            return FALSE
        if a == TRUE:
            return b
        if b == TRUE:
            return a
        if a == b:
            return a
        if a[0] in BOOLS or a[0] == "k" or b[0] in BOOLS or b[0] == "k":
            return ("band", a, b)
        return ("band", a, b)

    def bitand(self, st, a, b):
        if is_k(a) and is_k(b):
            return K(a[1] & b[1])
        if is_k(a):
            a, b = b, a
        if is_k(b):
            n = b[1]
            if n == 0:
                return K(0)
            lo, hi = st.rng(a)
            if lo is not None and lo >= 0:
                if hi is not None and n >= 0 and (n & (n + 1)) == 0 and hi <= n:
                    return a
                if n > 0 and (n & (n + 1)) == 0:
                    return self.divrem(st, "Rem", a, K(n + 1))
            if n > 0 and (n & (n + 1)) == 0 and a[0] == "wrap" and (a[1][1] - a[1][0] + 1) % (n + 1) == 0:
                x = a[2]
                lo, hi = st.rng(x)
                if lo is not None and lo >= 0:
                    return self.divrem(st, "Rem", x, K(n + 1))
        elif a == b:
            return a
        if not is_k(b):
            a, b = sorted((a, b), key=rank)
        return ("and", a, b)

    def divrem(self, st, op, a, b):
        if is_k(a) and is_k(b):
            if b[1] == 0:
                return ("S", None, "div0")
            q = fdiv(a[1], b[1])
            return K(q if op == "Div" else a[1] - q * b[1])
        if is_k(b):
            n = b[1]
            if n == 1:
                return a if op == "Div" else K(0)
            if n > 0:
                lo, hi = st.rng(a)
                if lo is not None and lo >= 0:
                    if hi is not None and hi < n:
                        return K(0) if op == "Div" else a
                    # pull out multiples of n
                    c, m = lin_of(a)
                    out, rest = K(0), K(c % n)
                    out = K(c // n)
                    okp = True
                    for x, k in m.items():
                        q, r = divmod(k, n)
                        if r == 0:
                            out = add(out, x, q)
                        else:
                            rest = add(rest, x, k)
                    rl, rh = st.rng(rest)
                    if rl is not None and rl >= 0:
                        if rh is not None and rh < n:
                            q = out
                        elif is_k(rest):
                            q = add(out, K(rest[1] // n))
                        else:
                            # nested division  (x / p) / n
                            if rest[0] == "div" and is_k(rest[2]) and rest[2][1] > 0:
                                q = add(out, ("div", rest[1], K(rest[2][1] * n)))
                            else:
                                q = add(out, ("div", rest, b))
                        if op == "Div":
                            return q
                        return sub(a, scale(q, n))
        return ("div" if op == "Div" else "rem", a, b)

    def ptr_null(self, st, p):
        """condition 'p is null'"""
        if p[0] == "null":
            return TRUE
        if p[0] == "ptr":
            b = p[1]
            if b == NULL:
                return TRUE
            if b[0] in ("L", "cstr", "cbytes", "cref", "cslice", "static", "obj", "tmp"):
                return FALSE
            if p[2] == I0:
                return ("isnull", self.uncast(b))
            return ("isnull", p)
        if p[0] == "fn":
            return FALSE
        if p[0] == "S":
            if p[1] is not None and p[1] >= 0 and (self.p.types[p[1]]["k"] == "ref"):
                return FALSE
        return ("isnull", self.uncast(p))

    def ptee_of(self, v):
        return self.ptee(v[1]) if v[0] == "S" and v[1] is not None and v[1] >= 0 else None

    def uncast(self, b):
        while True:
            if b[0] == "cast":
                b = b[3]
            elif b[0] == "ptr" and b[2] == I0:
                b = b[1]
            else:
                return b

    def ptr_cmp(self, st, op, a, b):
        if op in ("Eq", "Ne"):
            r = None
            if a[0] == "null" or a == ("ptr", NULL, I0, None):
                r = self.ptr_null(st, b)
            elif b[0] == "null" or b == ("ptr", NULL, I0, None):
                r = self.ptr_null(st, a)
            else:
                pa, pb = self.as_ptr(a), self.as_ptr(b)
                if pa[1] == pb[1] and pa[2][:-1] == pb[2][:-1] and pa[2] and pb[2] \
                        and pa[2][-1][0] == "i" and pb[2][-1][0] == "i":
                    r = mk_cmp("eq", pa[2][-1][1], pb[2][-1][1])
                elif pa[:3] == pb[:3]:
                    r = TRUE
                else:
                    x, y = sorted((a, b), key=rank)
                    r = ("pred", "ptreq", x, y)
            return r if op == "Eq" else mk_not(r)
        pa, pb = self.as_ptr(a), self.as_ptr(b)
        if pa[1] == pb[1] and pa[2][:-1] == pb[2][:-1] and pa[2] and pb[2] and pa[2][-1][0] == "i" and pb[2][-1][0] == "i":
            return mk_cmp({"Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}[op], pa[2][-1][1], pb[2][-1][1])
        return ("pred", "ptr" + op, a, b)

    def cast(self, st, kind, v, to, frm):
        if v is None:
            return None
        tk = self.p.types[to]
        fk = self.p.types[frm]
        if kind.startswith("IntToInt"):
            if tk["k"] == "char":
                return v
            if isnum(v):
                if v[0] == "disc":
                    return v
                if v[0] == "S" and v[1] is None and st.rng(v) == (None, None):
                    r = self.p.irange(frm)
                    if r:
                        st.ranges[v] = r
                return self.to_range(st, self.resolve(st, v) if v[0] in ("wrap",) else v, to)
            return ("S", to, "i2i", v)
        if kind.startswith("Transmute") or kind.startswith("Subtype"):
            if tk["k"] in ("ptr", "ref") or self.ptee(to) is not None:
                if v[0] in ("ptr", "null"):
                    return v
                if v[0] == "S" and self.ptee(v[1]) is not None:
                    return v
                return ("S", to, "transmute", v)
            if self.p.irange(to) and isnum(v) and self.p.irange(frm):
                return self.to_range(st, v, to)
            if self.strip_wrap(to) == self.strip_wrap(frm):
                return v
            if v[0] == "agg" and fk["k"] == "adt" and tk["k"] == "adt" and fk.get("d") == tk.get("d"):
                return v
            return ("S", to, "transmute", v)
        if kind.startswith("PtrToPtr") or kind.startswith("PointerCoercion"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind or "UnsafeFnPointer" in kind:
                return v
            if "Unsize" in kind:
                ft, tt = self.ptee(frm), self.ptee(to)
                if ft is not None and tt is not None and self.p.types[tt]["k"] == "slice" and self.p.types[ft]["k"] == "array":
                    p = self.as_ptr(v)
                    n = self.p.types[ft].get("len")
                    path = p[2]
                    if p[1][0] == "L" or (path and path != I0):
                        return ("ptr", p[1], path + I0, K(n) if n is not None else None)
                    if p[1][0] == "cref":
                        return ("ptr", p[1], path[:-1] + I0 if path == I0 else path + I0, K(n) if n is not None else None)
                    return ("ptr", p[1], path + I0, K(n) if n is not None else None)
                return v
            if "ArrayToPointer" in kind:
                p = self.as_ptr(v)
                if p[1][0] == "cref":
                    return ("ptr", p[1], I0, None)
                return ("ptr", p[1], p[2] + I0, None)
            ft, tt = self.ptee(frm), self.ptee(to)
            return self.ptr_cast(v, ft, tt)
        if kind.startswith("PointerExposeProvenance"):
            return ("addr", v) if v[0] != "null" else K(0)
        if kind.startswith("PointerWithExposed"):
            if v == K(0):
                return NULL
            if v[0] == "addr":
                return v[1]
            return ("S", to, "fromaddr", v)
        if kind.startswith("FloatToInt"):
            return ("S", to, "f2i", v)
        if kind.startswith("IntToFloat"):
            if v[0] == "k":
                return ("f", repr(float(v[1])))
            return ("fop", "i2f", v)
        if kind.startswith("FloatToFloat"):
            return v if v[0] != "f" else v
        if kind.startswith("FnPtrToPtr"):
            return v
        return ("S", to, "cast", kind, v)

    def ptr_cast(self, v, ft, tt):
        if v[0] == "null" or v == ("ptr", NULL, I0, None):
            return NULL
        if ft == tt or ft is None or tt is None:
            return v
        a, b = self.p.types[ft], self.p.types[tt]
        if a["n"] == b["n"]:
            return v
        # slice -> element pointer, array -> element
        if a["k"] in ("slice",) and a["t"] == tt:
            p = self.as_ptr(v)
            return self.norm_ptr(p[1], p[2], None) if p[1][0] != "S" else ("ptr", p[1], p[2], None)
        if a["k"] == "str" and b["n"] == "u8":
            p = self.as_ptr(v)
            return ("ptr", p[1], p[2], None)
        if a["k"] == "slice" and b["k"] == "slice" and a["t"] == b["t"]:
            return v
        if a["k"] in ("slice", "str") and b["k"] in ("slice", "str"):
            return v
        if a["k"] == "array" and a["t"] == tt:
            p = self.as_ptr(v)
            return ("ptr", p[1], p[2] + I0, None)
        p = self.as_ptr(v)
        if p[1][0] == "cast" and p[2] == I0 and p[1][1] == tt:
            return p[1][3]
        if self.flatcast and len(p[2]) == 1 and p[2][0][0] == "i" and p[2] != I0 and a.get("sz") and b.get("sz") and a["sz"] % b["sz"] == 0:
            return self.norm_ptr(("cast", ft, tt, p[1]), (("i", scale(p[2][0][1], a["sz"] // b["sz"])),), None)
        return ("cast", ft, tt, v) if True else v

    # ------------------------------------------------ rvalues
    def rvalue(self, st, fr, fn, r, dtid):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            l = self.loc(st, fr, r[2])
            if l is None:
                return None
            base, path = l
            meta = None
            if len(r[2]) > 1:
                # reborrow of an unsized place keeps its length
                pt = self.ptee(dtid)
                if pt is not None and self.p.types[pt]["k"] in ("slice", "str"):
                    last = r[2][-1]
                    m = st.notes.get("lastmeta")
                    if isinstance(last, list) and last[0] == "[s]":
                        if m is None:
                            m = ("S", -2, "len", base)
                        meta = sub(m, K(last[1] + last[2])) if last[3] else K(last[2] - last[1])
                        return ("ptr", base, path, meta)
                    meta = m
            if base[0] == "L":
                return ("ptr", base, path, meta)
            return self.norm_ptr(base, path, meta)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            if self.on_bin and not self.record and a is not None and b is not None:
                self.on_bin(self, st, fn, r, a, b)
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            a = self.operand(st, fr, r[2])
            if a is None:
                return None
            if r[1] == "Not":
                if self.p.types[r[3]]["k"] == "bool":
                    return mk_not(a)
                if is_k(a):
                    return self.to_range(st, K(~a[1]), r[3])
                rg = self.p.irange(r[3])
                if isnum(a) and rg and rg[0] == 0:
                    return sub(K(rg[1]), a)
                if isnum(a):
                    return sub(K(-1), a)
                return ("S", r[3], "bnot", a)
            if r[1] == "Neg":
                if a[0] == "f":
                    return ("f", repr(-float(a[1])))
                if self.p.types[r[3]]["k"] == "float":
                    return ("fop", "Neg", a)
                return self.to_range(st, scale(a, -1), r[3]) if isnum(a) else ("S", r[3], "neg", a)
            if r[1].startswith("PtrMetadata"):
                p = self.as_ptr(a)
                if p[3] is not None:
                    return p[3]
                return ("S", -2, "len", a)
            return ("S", dtid, "un", r[1], a)
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == "disc":
            v = self.read_place(st, fr, r[1])
            if v is None:
                return None
            return self.discr(st, v, r[2])
        if k == "agg":
            vals = [self.operand(st, fr, o) for o in r[2]]
            if any(v is None for v in vals):
                return None
            kk = r[1]
            if kk[0] == "adt":
                t = self.p.types[r[3]]
                if t.get("d") in WRAPPERS and vals:
                    return vals[0]
                a = self.p.adts.get(kk[1])
                if a and a["kind"] == "union" and kk[3] is not None:
                    return ("union", r[3], kk[3], vals[0])
                return ("agg", kk[1], kk[2], tuple(vals))
            if kk[0] == "tuple":
                return ("agg", "tuple", 0, tuple(vals))
            if kk[0] == "array":
                return ("arr", r[3], ("consts", tuple(vals)), ())
            if kk[0] in ("closure", "coroutine", "coroclosure"):
                return ("agg", kk[0] + ":" + kk[1], 0, tuple(vals))
            if kk[0] == "rawptr":
                p = self.as_ptr(vals[0])
                return ("ptr", p[1], p[2], vals[1])
            return ("S", dtid, "agg", tuple(vals))
        if k == "rep":
            v = self.operand(st, fr, r[1])
            return ("arr", dtid, ("rep", v), ())
        if k == "tls":
            return ("ptr", ("static", r[1]), I0, None)
        return self.fresh(st, dtid, "rv", fn.key, k)

    def discr(self, st, v, tid):
        a = self.p.adt(tid)
        if v[0] == "agg":
            if a and v[2] < len(a["v"]):
                return K(a["v"][v[2]]["d"])
            return K(v[2])
        kv = st.var.get(v)
        if isinstance(kv, int) and a:
            return K(a["v"][kv]["d"])
        if a and a["kind"] != "enum":
            return K(0)
        if a:
            live = [i for i in range(len(a["v"])) if not any(self.p.types[ft]["k"] == "never" for _, ft in self.p.fields(tid, i))]
            if len(live) == 1:
                return K(a["v"][live[0]]["d"])
        return ("disc", v, tid)

    # ------------------------------------------------ branching
    def branch(self, st, cond, val):
        s = st.copy()
        return s if self.assume(s, cond, val) else None

    def assume(self, s, cond, val):
        s.assume(cond, val)
        return not s.dead

    def switch(self, st, d, t):
        """-> list of (target, state)"""
        out = []
        dt = t["dt"]
        vals = t["v"]
        if d is None:
            return out
        q, neg = d, False
        while q[0] == "not":
            q, neg = q[1], not neg
        if q[0] == "cmp" and q[1] in ("eq", "ne") and q[2][0] in BOOLS and q[3][0] in BOOLS and st.decide(d) is None:
            # two truth values are compared: one after the other
            for val in (True, False):
                s = st.copy()
                if not self.assume(s, q[2], val) or not s.feasible():
                    continue
                e = q[3] if val == ((q[1] == "eq") != neg) else mk_not(q[3])
                dec = s.decide(e)
                out.extend(self.switch(s, e if dec is None else K(int(dec)), t))
            return out
        if is_k(d):
            for v, b in vals:
                if v == d[1]:
                    return [(b, st)]
            return [(t["o"], st)]
        if d[0] == "disc":
            e, tid = d[1], d[2]
            a = self.p.adt(tid)
            known = st.var.get(e)
            nots = st.notes.get(("notvar", e), frozenset())
            d2v = {v["d"]: i for i, v in enumerate(a["v"])} if a else {}
            used = set()
            for v, b in vals:
                vi = d2v.get(v, v)
                used.add(vi)
                if isinstance(known, int) and known != vi or vi in nots:
                    continue
                s = st.copy()
                s.var[e] = vi
                self.refine_variant(s, e, vi)
                if not s.dead:
                    out.append((b, s))
            rest = [i for i in range(len(a["v"]) if a else 0) if i not in used and i not in nots]
            if isinstance(known, int):
                rest = [i for i in rest if i == known]
            if self._unreach(t["o"]):
                return out
            if a is None or rest:
                s = st.copy()
                s.notes[("notvar", e)] = nots | used
                if len(rest) == 1:
                    s.var[e] = rest[0]
                    self.refine_variant(s, e, rest[0])
                if not s.dead:
                    out.append((t["o"], s))
            return out
        k = self.p.types[dt]["k"]
        if k == "bool" or d[0] in BOOLS:
            # values are 0 -> false branch
            tb = fb = t["o"]
            for v, b in vals:
                if v == 0:
                    fb = b
                else:
                    tb = b
            dec = st.decide(d)
            if dec is True:
                return [(tb, st)]
            if dec is False:
                return [(fb, st)]
            for b, v in ((tb, True), (fb, False)):
                s = st.copy()
                if self.assume(s, d, v):
                    out.append((b, s))
            return out
        # integer switch
        if isnum(d):
            d = self.resolve(st, d)
            rest = st.copy()
            for v, b in vals:
                c = mk_cmp("eq", d, K(v))
                dec = rest.decide(c)
                if dec is False:
                    continue
                s = rest.copy()
                if self.assume(s, c, True):
                    out.append((b, s))
                if dec is True:
                    return out
                if not self.assume(rest, c, False):
                    return out
            if not rest.dead and not self._unreach(t["o"]):
                out.append((t["o"], rest))
            return out
        for v, b in vals:
            s = st.copy()
            c = ("pred", "sw", d, v)
            if self.assume(s, c, True):
                out.append((b, s))
        s = st.copy()
        out.append((t["o"], s))
        return out

    def refine_variant(self, st, e, vi):
        pass

    def _unreach(self, b):
        blk = self._curfn.blocks[b]
        return blk["t"] is not None and blk["t"]["k"] == "unreach" and not blk["s"]

    # ------------------------------------------------ calls
    def ret_tid(self, fn, t):
        """type of the destination of a call"""
        pl = t["d"]
        if len(pl) == 1:
            return fn.locals[pl[0]]
        return self.place_tid(fn, pl)

    def place_tid(self, fn, pl):
        tid = fn.locals[pl[0]]
        var = 0
        for e in pl[1:]:
            if e == "*":
                tid = self.ptee(tid) if self.p.pointee(tid) is None else self.p.pointee(tid)
            elif e[0] == ".":
                fs = self.p.fields(tid, var)
                var = 0
                tid = fs[e[1]][1] if e[1] < len(fs) else None
            elif e[0] == "as":
                var = e[1]
                continue
            elif e[0] in ("[]", "[c]"):
                tid = self.elem_tid(tid)
            if tid is None:
                return None
        return tid

    def call(self, st, fr, fn, bb, t, depth):
        """-> list of (state, retval)"""
        args = [self.operand(st, fr, a) for a in t["a"]]
        if any(a is None for a in args):
            return []
        rt = self.ret_tid(fn, t)
        site = (fn.key, bb)
        path = t.get("rs") or t.get("fn")
        key = t.get("key")
        ik = t.get("ik")
        argt = None
        fpv = None
        if path is None:
            fpv = self.operand(st, fr, t["fp"])
            if fpv is not None and fpv[0] == "fn":
                path = fpv[1]
                key = fpv[3] if len(fpv) > 3 else fpv[1]
            else:
                path = "<fnptr>"
        # calling a fn item / closure through the Fn traits
        if ik in ("FnPtr", "ClosureOnce", "Reify") or (t.get("fn") or "").split("::")[-1] in ("call_once", "call_mut", "call"):
            r = self.fn_trait_call(st, fr, fn, bb, t, args, rt, depth)
            if r is not None:
                return r
        return self.dispatch(st, path, key, args, rt, t, fn, bb, fr, depth, fpv)

    def fn_trait_call(self, st, fr, fn, bb, t, args, rt, depth):
        f = args[0]
        if f[0] == "ptr" or (f[0] == "S" and f[1] is not None and self.ptee(f[1]) is not None):
            p = self.as_ptr(f)
            inner = self.rd(st, p[1], p[2] if p[1][0] == "L" else p[2])
            fv = inner
            if fv is not None and fv[0] == "agg":
                f2 = fv
            else:
                f2 = fv
        else:
            f2 = f
        if f2 is None:
            return []
        tup = args[1] if len(args) > 1 else ("agg", "tuple", 0, ())
        targs = list(tup[3]) if tup[0] == "agg" else [tup]
        if f2[0] == "fn" and len(f2) == 3 and f2[2] is not None and self.p.types[f2[2]].get("rk"):
            ft = self.p.types[f2[2]]
            return self.dispatch(st, ft["rs"], ft["rk"], targs, rt, t, fn, bb, fr, depth, None, fnitem=f2 if ft["rk"] not in self.p.fns else None)
        if f2[0] == "fn":
            return self.dispatch(st, f2[1], f2[3] if len(f2) > 3 else f2[1], targs, rt, t, fn, bb, fr, depth, None, fnitem=f2)
        if f2[0] == "S" and f2[1] is not None and f2[1] >= 0 and self.p.types[f2[1]]["k"] == "fndef":
            ft = self.p.types[f2[1]]
            if ft.get("rk"):
                return self.dispatch(st, ft["rs"], ft["rk"], targs, rt, t, fn, bb, fr, depth, None)
            return self.dispatch(st, self.p.types[f2[1]]["d"], None, targs, rt, t, fn, bb, fr, depth, None)
        if f2[0] == "agg" and f2[1].startswith("closure:"):
            cpath = f2[1][8:]
            cands = self.p.bypath.get(cpath, [])
            key = t.get("key")
            cand = None
            for c in cands:
                if c.key == key:
                    cand = c
            if cand is None and cands:
                cand = cands[-1] if len(cands) > 1 else cands[0]
            if cand is None:
                return None
            # environment by reference or by value
            envt = cand.locals[1]
            if self.p.types[envt]["k"] in ("ref",):
                if f[0] == "agg":
                    tmp = ("L", ("tmp", fn.key, bb, fr), 0)
                    st.mem[tmp] = (None, f)
                    env = ("ptr", tmp, (), None)
                else:
                    env = f
            else:
                env = f2
            return self.enter(st, cand, [env] + targs, depth, (fn.key, bb), fr)
        return None

    def dispatch(self, st, path, key, args, rt, t, fn, bb, fr, depth, fpv=None, fnitem=None):
        if self.on_call:
            r = self.on_call(self, st, path, key, args, rt, t, fn, bb)
            if r is not None:
                return r
        m = self.models.get(path)
        if m is None:
            tr = t.get("fn")
            m = self.models.get(tr) if tr and fnitem is None and fpv is None else None
        if m is not None:
            r = m(self, st, args, rt, t, fn, bb, depth, fr)
            if r is not None:
                return r
        # enum/struct constructors used as functions
        if fnitem is not None or key is None or key not in self.p.fns:
            c = self.ctor(path, args, rt)
            if c is not None:
                return [(st, c)]
        callee_fn = self.p.fns.get(key) if key else None
        if callee_fn is None and fnitem is not None:
            l = self.p.bypath.get(path)
            if l and len(l) == 1:
                callee_fn = l[0]
        if callee_fn is not None and self.want_inline(callee_fn, path, depth):
            return self.enter(st, callee_fn, args, depth, (fn.key, bb), fr)
        return self.opaque(st, path, key, args, rt, t, fn, bb)

    def ctor(self, path, args, rt=None):
        if "::" not in path:
            return None
        head, last = path.rsplit("::", 1)
        a = self.p.adts.get(head)
        if a is None:
            # generic path printing e.g. std::option::Option::<T>::Some
            import re
            h2 = re.sub(r"::<[^<>]*>", "", head)
            a = self.p.adts.get(h2)
            head = h2
        if a is None and rt is not None and head.endswith("prelude::v1") and self.p.adt(rt) is not None and self.p.adt(rt)["kind"] == "enum":
            a, head = self.p.adt(rt), self.p.types[rt]["d"]     # a re-exported constructor
        if a is not None:
            for i, v in enumerate(a["v"]):
                if v["n"] == last and len(v["f"]) == len(args):
                    return ("agg", head, i, tuple(args))
        a = self.p.adts.get(path)
        if a is not None and a["kind"] == "struct" and len(a["v"][0]["f"]) == len(args):
            if path in WRAPPERS:
                return args[0]
            return ("agg", path, 0, tuple(args))
        return None

    def want_inline(self, f, path, depth):
        if depth > self.MAXDEPTH:
            return False
        if path in self.no_inline or f.key in self.no_inline:
            return False
        if f.local:
            return self.inline_local if not callable(self.inline_local) else self.inline_local(f)
        return self.inline_std

    recursion = 2

    def enter(self, st, f, args, depth, site, fr):
        if depth > self.MAXDEPTH:
            raise Budget("inlining depth at %s" % f.key)
        stack = st.notes.get("stack", ())
        if sum(1 for x in stack if x == f.key) >= self.recursion:
            raise Budget("recursion at %s" % f.key)
        nfr = (fr, site[1], f.key) if False else hash_frame(fr, site, f.key)
        st.notes = dict(st.notes)
        st.notes["stack"] = stack + (f.key,)
        outs = self.exec_fn(f, args, st, nfr, depth + 1)
        for s, r in outs:
            s.notes["stack"] = stack
        return outs

    def opaque(self, st, path, key, args, rt, t, fn, bb):
        """unknown callee: result unknown, memory reachable through mutable pointers forgotten"""
        self.opaque_calls[path] = self.opaque_calls.get(path, 0) + 1
        if t.get("t") is None:
            return []
        for a in args:
            self._havoc_reach(st, a, ("call", path))
        return [(st, self.fresh(st, rt, "ret", path, fn.key, bb))]

    # ------------------------------------------------ function execution
    def exec_fn(self, fn, args, st, fr=(), depth=0):
        self.visited.add(fn.key)
        # forget stale locals of the same frame
        for k in [k for k in st.mem if k[0] == "L" and k[1] == fr]:
            del st.mem[k]
        for i, tid in enumerate(fn.locals):
            if i <= fn.argc and i > 0:
                v = args[i - 1] if i - 1 < len(args) else self.sym(tid, "arg", i)
                st.mem[("L", fr, i)] = (tid, v)
            else:
                st.mem[("L", fr, i)] = (tid, UNDEF)
        cfg = fn.cfg()
        if cfg.irreducible:
            raise Unsupported("irreducible control flow in %s" % fn.key)
        region = set(cfg.rpo)
        rets = []
        self.region(fn, fr, depth, region, 0, [st], None, rets)
        out = []
        for s in rets:
            v = s.mem.get(("L", fr, 0), (None, UNDEF))[1]
            out.append((s, v))
        # drop the frame's locals unless something may still point to them
        for s, v in out:
            for k in [k for k in s.mem if k[0] == "L" and k[1] == fr]:
                if not contains(v, lambda x: x == k):
                    del s.mem[k]
        return out

    def region(self, fn, fr, depth, region, entry, states, loophead, rets):
        """run a region; returns (backs, exits)"""
        import heapq
        cfg = fn.cfg()
        num = cfg.rponum
        pend = {entry: list(states)}
        heap = [(num[entry], entry)]
        backs = []
        exits = {}
        first = True
        while heap:
            _, b = heapq.heappop(heap)
            sts = pend.pop(b, None)
            if not sts:
                continue
            if self.merge and len(sts) > 1:
                sts = self.merge_states(fn, fr, b, sts)
            outs = []
            if b in cfg.loops and not (b == loophead and first):
                if b == loophead:
                    backs.extend(sts)
                    continue
                for s in sts:
                    outs.extend(self.loop(fn, fr, depth, b, s, rets))
            else:
                first = False
                for s in sts:
                    self._curfn = fn
                    outs.extend(self.block(fn, fr, depth, b, s, rets))
            for tgt, s in outs:
                if s.dead:
                    continue
                if tgt == loophead:
                    backs.append(s)
                elif tgt not in region:
                    exits.setdefault(tgt, []).append(s)
                else:
                    if tgt not in pend:
                        pend[tgt] = []
                        heapq.heappush(heap, (num[tgt], tgt))
                    pend[tgt].append(s)
        return backs, exits

    def block(self, fn, fr, depth, b, st, rets):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget in %s" % fn.key)
        blk = fn.blocks[b]
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                pl = s[1]
                dtid = fn.locals[pl[0]] if len(pl) == 1 else self.place_tid(fn, pl)
                st.notes["lastmeta"] = None
                v = self.rvalue(st, fr, fn, s[2], dtid)
                if v is None:
                    return []
                self.assign(st, fr, fn, pl, v, dtid)
                self.after_rvalue(st, fr, fn, s)
            elif k == "sd":
                l = self.loc(st, fr, s[1])
                tid = self.place_tid(fn, s[1])
                old = self.rd(st, l[0], l[1])
                if old is not None and old[0] == "agg" and old[2] == s[2]:
                    continue
                nf = self.p.fields(tid, s[2]) if tid is not None else []
                self.wr(st, l[0], l[1], ("agg", self.p.types[tid].get("d", "?"), s[2], tuple(UNDEF for _ in nf)))
            elif k == "dead":
                pass
            elif k == "assume":
                c = self.operand(st, fr, s[1])
                if c is not None and (c[0] in BOOLS or c[0] == "k"):
                    if not self.assume(st, c, True):
                        return []
            elif k == "copynonov":
                a = self.operand(st, fr, s[1])
                d = self.operand(st, fr, s[2])
                n = self.operand(st, fr, s[3])
                self.do_copy(st, d, a, n)
        t = blk["t"]
        k = t["k"]
        st.notes["lastmeta"] = None
        if k == "goto":
            return [(t["t"], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k == "switch":
            d = self.operand(st, fr, t["d"])
            return self.switch(st, d, t)
        if k == "call":
            self.cursite = (fn, b, t)
            res = self.call(st, fr, fn, b, t, depth)
            self._curfn = fn
            if t["t"] is None:
                if self.on_panic and not self.record:
                    for s, _ in (res or [(st, None)]):
                        if not s.dead:
                            self.on_panic(self, s, "call:" + str(t.get("fn")), fn, b, t)
                return []
            out = []
            for s, v in res:
                if s.dead:
                    continue
                self.assign(s, fr, fn, t["d"], v, None)
                out.append((t["t"], s))
            return out
        if k == "assert":
            c = self.operand(st, fr, t["c"])
            if c is None:
                return []
            exp = t["e"]
            dec = st.decide(c) if c[0] in BOOLS or c[0] == "k" else None
            if dec is not None and dec == exp:
                return [(t["t"], st)]
            if self.on_panic and not self.record:
                s2 = st.copy()
                if self.assume(s2, c, not exp):
                    self.on_panic(self, s2, "assert:" + t["mk"], fn, b, t)
            if dec is not None:
                return []
            if c[0] in BOOLS:
                if not self.assume(st, c, exp):
                    return []
            return [(t["t"], st)]
        if k == "drop":
            if self.on_drop:
                v = self.read_place(st, fr, t["p"])
                if v is not None:
                    r = self.on_drop(self, st, v, t["pt"], fn, b, t)
                    if r is not None:
                        return [(t["t"], s) for s in r]
            return [(t["t"], st)]
        if k == "yield":
            return [(t["t"], st)]
        return []

    def after_rvalue(self, st, fr, fn, s):
        """mark operands moved out of plain locals"""
        r = s[2]
        ops = []
        if r[0] == "use":
            ops = [r[1]]
        elif r[0] == "agg":
            ops = r[2]
        elif r[0] == "cast":
            ops = [r[2]]
        for o in ops:
            if o[0] == "m" and len(o[1]) == 1 and o[1] != s[1]:
                self.mark_moved(st, fr, fn, o[1])

    def mark_moved(self, st, fr, fn, pl):
        pass

    def assign(self, st, fr, fn, pl, v, dtid):
        if len(pl) == 1:
            b = ("L", fr, pl[0])
            st.mem[b] = (fn.locals[pl[0]], v)
            return
        l = self.loc(st, fr, pl)
        if l is None:
            st.dead = True
            return
        self.wr(st, l[0], l[1], v)

    def do_copy(self, st, d, a, n):
        p = self.as_ptr(d)
        self.havoc_base(st, p[1], "copy") if p[1][0] != "L" else self.havoc_base(st, p[1], "copy")

    # ------------------------------------------------ merging
    def event_key(self, s):
        """paths with different keys are never merged"""
        return id(s.events) if s.events is not None else None

    def merge_states(self, fn, fr, b, sts):
        # exact duplicates
        groups = {}
        order = []
        for s in sts:
            rv = s.mem.get(("L", fr, 0))       # paths about to return different constants are kept apart
            k = (self.event_key(s), s.notes.get("stack"), s.notes.get("iter"), rv[1] if rv is not None and rv[1][0] in ("k", "null") else None)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        out = []
        for k in order:
            g = groups[k]
            if len(sts) > self.max_states and len(g) > 1:
                m = g[0]
                for s in g[1:]:
                    m = self.join(fn, fr, b, m, s)
                out.append(m)
            else:
                out.extend(g)
        if len(out) > 40 * max(self.max_states, 4):
            raise Budget("too many partitions in %s" % fn.key)
        return out

    def join(self, fn, fr, b, x, y):
        r = State(self.cx)
        r.events = x.events
        for c, v in x.facts.items():
            if y.facts.get(c) == v:
                r.facts[c] = v
        r.cons = tuple(c for c in x.cons if c in y.cons or y.entails(c))
        r.cons = r.cons + tuple(c for c in y.cons if c not in r.cons and x.entails(c))
        for a, rg in x.ranges.items():
            o = y.rng(a)
            lo = None if rg[0] is None or o[0] is None else min(rg[0], o[0])
            hi = None if rg[1] is None or o[1] is None else max(rg[1], o[1])
            if lo is not None or hi is not None:
                r.ranges[a] = (lo, hi)
        for e, v in x.var.items():
            if y.var.get(e) == v:
                r.var[e] = v
        for k, v in x.notes.items():
            w = y.notes.get(k)
            if isinstance(k, tuple) and k[0] == "fresh":
                r.notes[k] = max(v, w or 0)
            elif k == "gen":
                r.notes[k] = max(v, w or 0)
            elif w == v:
                r.notes[k] = v
            elif k == "ne" and w is not None:
                r.notes[k] = v & w
            elif isinstance(k, tuple) and k[0] == "notvar" and w is not None:
                r.notes[k] = v & w
        for k, v in y.notes.items():
            if k not in r.notes and (k == "gen" or (isinstance(k, tuple) and k[0] == "fresh")):
                r.notes[k] = max(v, x.notes.get(k, 0))
        jid = (fn.key, b, r.notes.get("iter", ()))
        cnt = [0]

        def leaf(tid, path, a, c):
            s = ("S", tid, "join", jid, path)
            if isnum(a) and isnum(c):
                ra, rc = x.rng(a), y.rng(c)
                lo = None if ra[0] is None or rc[0] is None else min(ra[0], rc[0])
                hi = None if ra[1] is None or rc[1] is None else max(ra[1], rc[1])
                r.ranges[s] = (lo, hi)
            return s
        for k in set(x.mem) | set(y.mem):
            if k[0] == "objs":
                gx = x.mem.get(k, (0, ()))
                gy = y.mem.get(k, (0, ()))
                if gx == gy:
                    r.mem[k] = gx
                else:
                    idxs = tuple(dict.fromkeys(gx[1] + gy[1]))
                    r.mem[k] = (gx[0] if gx[0] == gy[0] else ("j", jid), idxs)
                continue
            ex, ey = x.mem.get(k), y.mem.get(k)
            if ex is None or ey is None:
                if k[0] == "L":
                    continue
                # read through: initial value on the other side
                if ex is None:
                    ex = (ey[0], self.obj(x, k[0], k[1]))
                else:
                    ey = (ex[0], self.obj(y, k[0], k[1]))
            if ex[1] == ey[1]:
                r.mem[k] = ex
            else:
                r.mem[k] = (ex[0], self.genval(ex[0], ex[1], ey[1], (k,), leaf))
        return r

    def genval(self, tid, a, b, path, leaf):
        """common generalisation of two values"""
        if a == b:
            return a
        if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            fs = self.p.fields(tid, a[2]) if tid is not None and tid >= 0 else []
            return ("agg", a[1], a[2], tuple(
                self.genval(fs[i][1] if i < len(fs) else None, p, q, path + (i,), leaf)
                for i, (p, q) in enumerate(zip(a[3], b[3]))))
        # a symbolic struct against an exploded one
        if tid is not None and tid >= 0 and (a[0] == "agg") != (b[0] == "agg"):
            ea, eb = self.explode(a, tid), self.explode(b, tid)
            if ea[0] == "agg" and eb[0] == "agg" and ea[2] == eb[2] and len(ea[3]) == len(eb[3]) and ea[1] == eb[1]:
                return self.genval(tid, ea, eb, path, leaf)
        if a[0] in ("ptr", "S", "cast") and b[0] in ("ptr", "S", "cast") and (a[0] == "ptr" or b[0] == "ptr"):
            pa, pb = self.as_ptr(a), self.as_ptr(b)
            if pa[1] == pb[1] and pa[2] and pb[2] and pa[2][:-1] == pb[2][:-1] and pa[2][-1][0] == "i" and pb[2][-1][0] == "i":
                i = self.genval(self.tusize, pa[2][-1][1], pb[2][-1][1], path + ("idx",), leaf)
                m = pa[3] if pa[3] == pb[3] else (leaf(self.tusize, path + ("meta",), pa[3], pb[3]) if pa[3] is not None and pb[3] is not None else None)
                return self.norm_ptr(pa[1], pa[2][:-1] + (("i", i),), m)
        if a[0] == "arr" and b[0] == "arr" and a[2] == b[2] or (a[0] == "arr" and a[2] == b) or (b[0] == "arr" and b[2] == a):
            da = dict(a[3]) if a[0] == "arr" and a != b[2] else {}
            db = dict(b[3]) if b[0] == "arr" else {}
            base = a[2] if a[0] == "arr" else b[2]
            if a[0] == "arr" and b[0] == "arr":
                base = a[2]
            elif a[0] == "arr":
                db = {}
            else:
                da = {}
            et = self.elem_tid(tid)
            keys = list(dict.fromkeys(list(da) + list(db)))
            if all(is_k(k) for k in keys):
                ups = []
                A = ("arr", tid, base, tuple(da.items()))
                B = ("arr", tid, base, tuple(db.items()))
                for k in keys:
                    va, vb = self.elem(self._nost, A, k), self.elem(self._nost, B, k)
                    ups.append((k, self.genval(et, va, vb, path + (k,), leaf)))
                return ("arr", tid, base, tuple(ups))
        if a[0] in ("undef", "moved") or b[0] in ("undef", "moved"):
            return b if a[0] in ("undef", "moved") and False else ("undef",) if True else b
        return leaf(tid, path, a, b)

    # ------------------------------------------------ loops
    def loop(self, fn, fr, depth, h, st, rets):
        """-> list of (target, state) leaving the loop; returns inside go to rets"""
        cfg = fn.cfg()
        body = cfg.loops[h]
        if self.peel and (fn.key, h) not in self.peeled:
            # run the first round on its own
            self.peeled.add((fn.key, h))
            try:
                backs, exits = self.region(fn, fr, depth, body, h, [st.copy()], h, rets)
                outs = [(tgt, s) for tgt, ss in exits.items() for s in ss]
                for s in backs:
                    if not s.dead:
                        outs.extend(self.loop(fn, fr, depth, h, s, rets))
                return outs
            finally:
                self.peeled.discard((fn.key, h))
        if self.unroll:
            r = self.unrolled(fn, fr, depth, body, h, st, rets)
            if r is not None:
                return r
        elif self.decided:
            r = self.unrolled(fn, fr, depth, body, h, st, rets, True)
            if r is not None:
                return r
        lid = (fn.key, h, fr, st.notes.get("iter", ()))
        ksym = ("S", -1, "k", lid)
        # first: does the loop run at all / unrolls to nothing?
        forms = {}     # cell -> form
        outer_iter = st.notes.get("iter", ())
        rounds = 0
        inv = []
        outer_strict = self.strict_rel
        self.strict_rel = False
        while True:
            rounds += 1
            self.loop_iters += 1
            if rounds > 14:
                raise Budget("loop does not stabilise in %s bb%d" % (fn.key, h))
            H = self.loop_head(st, forms, ksym, inv, outer_iter, lid)
            H0 = H.copy()
            self.record += 1
            rr = []
            try:
                backs, exits = self.region(fn, fr, depth, body, h, [H], h, rr)
            finally:
                self.record -= 1
            if not backs:
                if not forms:
                    break
                break
            newforms = self.loop_forms(fn, st, H0, backs, forms, ksym, lid)
            if newforms == forms:
                ninv = self.loop_inv(st, H0, backs, forms, ksym, lid, inv)
                if ninv == inv:
                    break
                inv = ninv
                continue
            forms = newforms
            inv = []
        if self.sign_inv and forms:
            inv0 = inv
            # a guess of an outer loop is confirmed later, with everything inside it
            guess = self.record and not outer_strict
            while True:
                self.strict_rel = not guess
                inv = inv0 + self.signs(fn, fr, depth, body, h, st, forms, ksym, inv0, outer_iter, lid)
                if guess or not any(f[0] == "rel" for f in forms.values()):
                    break
                # relations were assumed not to wrap: with the signs known this has to be so
                H = self.loop_head(st, forms, ksym, inv, outer_iter, lid)
                H0 = H.copy()
                self.record += 1
                try:
                    backs, exits = self.region(fn, fr, depth, body, h, [H], h, [])
                    self.strict_rel = True
                    nf = self.loop_forms(fn, st, H0, backs, forms, ksym, lid) if backs else forms
                finally:
                    self.record -= 1
                if nf == forms:
                    break
                forms, inv0 = nf, []
        self.strict_rel = outer_strict
        H = self.loop_head(st, forms, ksym, inv, outer_iter, lid)
        if not self.record:
            self.loop_note(fn, h, st, H, forms, ksym)
        H.ev("loop", lid, ksym) if self.loop_events else None
        if (self.loop_events or self.loop_hooks) and not self.record:
            self.on_loop_enter(st, H, fn, h, lid)
        backs, exits = self.region(fn, fr, depth, body, h, [H], h, rets)
        if (self.loop_events or self.loop_hooks) and not self.record:
            for s in backs:
                self.on_loop_back(s, fn, h, lid)
        outs = []
        for tgt, ss in exits.items():
            for s in ss:
                s.notes["iter"] = outer_iter
                if self.loop_events:
                    s.ev("endloop", lid, ksym)
                outs.append((tgt, s))
        return outs

    loop_events = False
    loop_hooks = False
    loop_bound = 1 << 30

    def on_loop_back(self, s, fn, h, lid):
        pass

    def on_loop_enter(self, st, head, fn, h, lid):
        pass

    def unrolled(self, fn, fr, depth, body, h, st, rets, only=False):
        """a loop whose every iteration decides whether it goes on runs out by itself"""
        st = st.copy()
        cur, outs, lrets = [st], [], []
        outer = st.notes.get("iter", ())
        for n in range((self.decided if only else self.unroll) + 1):
            for s in cur:
                s.notes["iter"] = outer + (("round", h, n),)
            backs, exits = self.region(fn, fr, depth, body, h, [s.copy() for s in cur], h, lrets)
            backs = [b for b in backs if not b.dead]
            for tgt, ss in exits.items():
                for s in ss:
                    if not s.dead:
                        s.notes["iter"] = outer
                        outs.append((tgt, s))
            if not backs:
                rets.extend(lrets)
                return outs
            if only and (outs or lrets or len(backs) > 1):
                return None
            if len(backs) > self.unroll_width or (n == 2 and len(outs) >= 2 and self.unroll_width < 4):
                return None
            cur = backs
        return None

    strict_rel = False

    def loose(self, B, v):
        v = self.resolve(B, v)
        if self.sign_inv and not self.strict_rel and v[0] == "wrap":
            return v[2]
        return v

    sign_inv = False
    inv_bounds = ()

    def signs(self, fn, fr, depth, body, h, st, forms, ksym, inv, outer_iter, lid):
        """the signs that loop cells keep: assumed all together, dropped until they are inductive"""
        cand = []
        for cell, f in forms.items():
            if f[0] not in ("havoc", "rel"):
                continue
            init = self.leaf_value(st, cell)
            if not isnum(init) or init[0] in BOOLS:
                continue
            for sg in (1, -1):
                for b in (K(0),) + tuple(self.inv_bounds):
                    if st.entails(scale(sub(init, b), sg)):
                        cand.append((cell, sg, b))
        while cand:
            cs = [scale(sub(self.form_value(st, c, forms[c], ksym, lid, forms), b), sg) for c, sg, b in cand]
            H = self.loop_head(st, forms, ksym, inv + cs, outer_iter, lid)
            self.record += 1
            try:
                backs, exits = self.region(fn, fr, depth, body, h, [H], h, [])
            finally:
                self.record -= 1
            keep = [(c, sg, b) for c, sg, b in cand if all(isnum(self.leaf_value(B, c)) and B.entails(scale(sub(self.resolve(B, self.leaf_value(B, c)), b), sg)) for B in backs)]
            if keep == cand:
                return cs
            cand = keep
        return []

    def loop_note(self, fn, h, st, H, forms, ksym):
        pass

    def leaf_value(self, st, cell):
        """initial value at a leaf cell path (key, ...)"""
        key = cell[0]
        ent = st.mem.get(key)
        if ent is None:
            if key[0] == "L":
                return UNDEF
            v = self.obj(st, key[0], key[1])
        else:
            v = ent[1]
        return self.leaf_in(st, v, cell[1:])

    def leaf_in(self, st, v, path):
        for p in path:
            if v is None:
                return UNDEF
            if p == "idx":
                v = self.as_ptr(v)[2][-1][1]
            elif p == "meta":
                v = self.as_ptr(v)[3]
            elif isinstance(p, int):
                v = self.field(st, v, p, str(p))
            else:
                v = self.elem(st, v, p)
        return v

    def loop_head(self, st, forms, ksym, inv, outer_iter, lid):
        H = st.copy()
        H.notes["iter"] = outer_iter + (ksym,)
        H.add_cons(ksym)
        groups = {}
        for cell, form in forms.items():
            groups.setdefault(cell[0], []).append((cell, form))
        for key, lst in groups.items():
            if key[0] == "objs":
                gen, idxs = st.mem.get(key, (0, ()))
                H.mem[key] = (("loop", lid, gen), ())
                for j in idxs:
                    H.mem.pop((key[1], j), None)
                continue
            if lst[0][1][0] == "drop":
                H.mem.pop(key, None)
                continue
            ent = H.mem.get(key)
            if ent is None:
                if key[0] == "L":
                    continue
                v0 = self.obj(H, key[0], key[1])
                bt = self.base_tid(key[0])
                if bt is not None and self.p.types[bt]["k"] in ("slice", "str"):
                    bt = self.elem_tid(bt)
                ent = (bt, v0)
                gen, idxs = H.mem.get(("objs", key[0]), (0, ()))
                if key[1] not in idxs:
                    H.mem[("objs", key[0])] = (gen, idxs + (key[1],))
            v = ent[1]
            # long cell paths last so that prefixes are set first
            for cell, form in sorted(lst, key=lambda x: len(x[0])):
                nv = self.form_value(st, cell, form, ksym, lid, forms)
                v = self.leaf_set(H, v, cell[1:], nv, ent[0])
            H.mem[key] = (ent[0], v)
        for c in inv:
            H.add_cons(c)
        for cell, form in forms.items():
            if form[0] == "ind" and len(form) == 4:
                v = add(self.leaf_value(st, cell), mul(form[1], ksym))
                H.add_cons(sub(v, K(form[2])))
                H.add_cons(sub(K(form[3]), v))
        return H

    def leaf_set(self, st, v, path, nv, tid):
        if not path:
            return nv
        p = path[0]
        if p == "idx":
            q = self.as_ptr(v)
            return self.norm_ptr(q[1], q[2][:-1] + (("i", nv),), q[3])
        if p == "meta":
            q = self.as_ptr(v)
            return ("ptr", q[1], q[2], nv)
        if isinstance(p, int):
            v = self.explode(v, tid)
            fs = self.p.fields(tid, v[2] if v[0] == "agg" else 0) if tid is not None and tid >= 0 else []
            if v[0] == "agg":
                l = list(v[3])
                l[p] = self.leaf_set(st, l[p], path[1:], nv, fs[p][1] if p < len(fs) else None)
                return ("agg", v[1], v[2], tuple(l))
            return nv
        old = self.elem(st, v, p)
        x = self.leaf_set(st, old, path[1:], nv, self.elem_tid(tid))
        if v[0] != "arr":
            v = ("arr", tid, v, ())
        return ("arr", v[1], v[2], tuple((i, y) for i, y in v[3] if i != p) + ((p, x),))

    def form_value(self, st, cell, form, ksym, lid, forms):
        if form[0] == "ind":
            init = self.leaf_value(st, cell)
            return add(init, mul(form[1], ksym))
        if form[0] == "rel":
            other = self.form_value(st, form[1], forms[form[1]], ksym, lid, forms)
            oi = self.leaf_value(st, form[1])
            init = self.leaf_value(st, cell)
            return add(init, scale(sub(other, oi), form[2]))
        if form[0] == "undef":
            return UNDEF
        # havoc
        return self.sym(form[1], "phi", lid, cell)

    def loop_forms(self, fn, st, H, backs, forms, ksym, lid):
        nf = dict(forms)
        changed = {}
        for B in backs:
            for k in set(B.mem) | set(H.mem):
                if k[0] == "objs":
                    gh = H.mem.get(k, (0, ()))
                    gb = B.mem.get(k, (0, ()))
                    if gh[0] != gb[0] and (("objs", k[1]),) not in nf and not self._same_gen(gh[0], gb[0]):
                        nf[(k,)] = ("drop",)
                    # stores at a varying index
                    for j in gb[1]:
                        if j not in gh[1] and self.loop_variant(j, ksym, lid):
                            nf[(k,)] = ("drop",)
                    continue
                ev_h, ev_b = H.mem.get(k), B.mem.get(k)
                if ev_h == ev_b:
                    continue
                if k[0] == "L":
                    if ev_h is None:
                        continue
                    if ev_b is None:
                        continue
                else:
                    if self.loop_variant(k[1], ksym, lid) or self.loop_variant(k[0], ksym, lid):
                        continue
                    if ev_h is None:
                        ev_h = (ev_b[0], self.obj(H, k[0], k[1]))
                    if ev_b is None:
                        ev_b = (ev_h[0], self.obj(B, k[0], k[1]))
                if ev_h[1] == ev_b[1]:
                    continue

                def leaf(tid, path, a, c, k=k):
                    changed.setdefault(path, []).append((tid, a, c, B))
                    return a
                x = self.genval2(ev_h[0], ev_h[1], ev_b[1], (k,), leaf, changed, B)
        # drop objects whose base is forgotten
        # classify
        for cell, obs in changed.items():
            if any(cell != c and cell[:len(c)] == c and nf.get(c, ("",))[0] in ("havoc", "undef") for c in nf):
                continue
            old = nf.get(cell)
            tid = obs[0][0]
            if old is not None and old[0] == "undef":
                continue
            if any(c[0] in ("undef", "moved") or a[0] in ("undef", "moved") for _, a, c, _ in obs):
                nf[cell] = ("undef",)
                continue
            if old is None:
                init = self.leaf_value(st, cell)
                ds = set()
                ok = True
                for _, a, c, B in obs:
                    if isnum(a) and isnum(c):
                        d = sub(c, a)
                        ds.add(d)
                        if self.loop_variant(d, ksym, lid):
                            ok = False
                    else:
                        ok = False
                if len(obs) != len(backs):
                    ok = False
                if ok and len(ds) == 1 and isnum(init) and not any(x[0] in BOOLS for x in (init,)):
                    nf[cell] = ("ind", ds.pop())
                else:
                    nf[cell] = ("havoc", tid)
            elif old[0] == "ind":
                for _, a, c, B in obs:
                    want = add(a, old[1])
                    if c != want and self.resolve(B, c) != want:
                        # the step may only look non-linear because it could leave the type: try with a bound, confirmed below
                        init = self.leaf_value(st, cell)
                        if len(old) == 2 and is_k(old[1]) and isnum(init) and self.loop_bound and \
                                st.entails(sub(K(self.loop_bound), init)) and st.entails(add(init, K(self.loop_bound))):
                            # a count-down that stops at zero stays at or above zero
                            lo = 0 if old[1][1] < 0 and st.entails(init) else -self.loop_bound
                            nf[cell] = ("ind", old[1], lo, self.loop_bound)
                        elif len(old) == 4 and old[2] == 0:
                            nf[cell] = ("ind", old[1], -self.loop_bound, self.loop_bound)
                        else:
                            nf[cell] = ("havoc", tid)
                        break
                    if len(old) == 4 and not (B.entails(sub(want, K(old[2]))) and B.entails(sub(K(old[3]), want))):
                        nf[cell] = ("ind", old[1], -self.loop_bound, self.loop_bound) if old[2] == 0 else ("havoc", tid)
                        break
                if len(obs) != len(backs) and old[1] != K(0):
                    nf[cell] = ("havoc", tid)
            elif old[0] == "rel":
                ok = True
                for B in backs:
                    a, c = self.leaf_value(H, cell), self.leaf_value(B, cell)
                    oa, oc = self.leaf_value(H, old[1]), self.leaf_value(B, old[1])
                    if not (isnum(a) and isnum(c) and isnum(oa) and isnum(oc)):
                        ok = False
                        break
                    d1 = sub(self.loose(B, c), a)
                    d2 = sub(self.loose(B, oc), oa)
                    if d1 != scale(d2, old[2]):
                        ok = False
                if not ok:
                    nf[cell] = ("havoc", tid, "norel")
        # an induction cell that did not change on some back edge
        for cell, f in list(nf.items()):
            if f[0] == "ind" and cell in forms and cell not in changed and f[1] != K(0):
                nf[cell] = ("havoc", self.cell_tid(st, cell))
        if nf != forms:
            # remove cells under a havocked prefix
            hv = [c for c, f in nf.items() if f[0] in ("havoc", "undef", "drop")]
            for c in list(nf):
                if any(c != p and c[:len(p)] == p for p in hv):
                    del nf[c]
            return nf
        # stable: look for linear relations between unknown cells
        hav = [(c, f) for c, f in nf.items() if f[0] == "havoc" and len(f) == 2 and
               isnum(self.leaf_value(st, c)) and self.leaf_value(st, c)[0] not in BOOLS]
        for i in range(len(hav)):
            for j in range(i + 1, len(hav)):
                c1, c2 = hav[i][0], hav[j][0]
                if nf[c1][0] != "havoc" or nf[c2][0] != "havoc":
                    continue
                ratio = None
                for B in backs:
                    d = []
                    for c in (c1, c2):
                        a, b = self.leaf_value(H, c), self.leaf_value(B, c)
                        if not (isnum(a) and isnum(b)):
                            d = None
                            break
                        d.append(sub(self.loose(B, b), a))
                    if d is None:
                        ratio = 0
                        break
                    if d[0] == K(0) and d[1] == K(0):
                        continue
                    r = lin_ratio(d[0], d[1])
                    if r is None or (ratio is not None and ratio != r):
                        ratio = 0
                        break
                    ratio = r
                if ratio:
                    nf[c2] = ("rel", c1, ratio)
        return nf

    def cell_tid(self, st, cell):
        ent = st.mem.get(cell[0])
        tid = ent[0] if ent else None
        if len(cell) == 1:
            return tid
        return self.tusize

    def _same_gen(self, a, b):
        return a == b

    def genval2(self, tid, a, b, path, leaf, changed, B):
        return self.genval(tid, a, b, path, lambda t, p, x, y: leaf(t, p, x, y))

    def loop_variant(self, e, ksym, lid):
        def f(x):
            if x == ksym:
                return True
            if len(x) > 3 and x[0] == "S" and x[2] == "phi" and x[3] == lid:
                return True
            return False
        return contains(e, f)

    def loop_inv(self, st, H, backs, forms, ksym, lid, inv):
        """guard-based and monotonicity invariants"""
        out = list(inv)
        # linear constraints true on every back edge that decrease with k
        common = None
        for B in backs:
            s = set(c for c in B.cons if c not in H.cons)
            common = s if common is None else common & s
        for c in sorted(common or (), key=rank):
            cc, m = lin_of(c)
            a = m.get(ksym, 0)
            if a >= 0:
                continue
            rest = mk_lin(cc, {x: y for x, y in m.items() if x != ksym})
            if self.loop_variant(rest, ksym, lid):
                continue
            # holds at k-1 for k >= 1:  rest + a(k-1) >= 0 ;  need at k=0: rest - a >= 0
            cand = add(c, K(-a))
            base = add(rest, K(-a))
            if st.entails(base) and cand not in out:
                out.append(cand)
        # monotone unknown cells
        for cell, f in forms.items():
            if f[0] != "havoc":
                continue
            init = self.leaf_value(st, cell)
            if not isnum(init) or init[0] in BOOLS:
                continue
            phi = self.sym(f[1], "phi", lid, cell)
            up = dn = True
            for B in backs:
                v = self.leaf_value(B, cell)
                if not isnum(v):
                    up = dn = False
                    break
                v = self.resolve(B, v)
                if up and not B.entails(sub(v, phi)):
                    up = False
                if dn and not B.entails(sub(phi, v)):
                    dn = False
            if up:
                c = sub(phi, init)
                if c not in out and not is_k(c):
                    out.append(c)
            if dn:
                c = sub(init, phi)
                if c not in out and not is_k(c):
                    out.append(c)
            # candidate bounds taken from the facts on the back edges
            for B in backs[:1]:
                v = self.leaf_value(B, cell)
                for c in B.cons:
                    if c in out:
                        continue
                    # constraint about the new value, restated for phi
                    if v[0] == "S" and v in lin_of(c)[1] and v != phi:
                        cand = subst_lin(c, v, phi)
                        if self.loop_variant(subst_lin(cand, phi, K(0)), ksym, lid):
                            continue
                        if contains(subst_lin(cand, phi, K(0)), lambda x: x == ksym):
                            continue
                        if not st.entails(subst_lin(cand, phi, init)):
                            continue
                        ok = True
                        for B2 in backs:
                            v2 = self.leaf_value(B2, cell)
                            if not isnum(v2) or not B2.entails(subst_lin(cand, phi, v2)):
                                ok = False
                                break
                        if ok and cand not in out:
                            out.append(cand)
        return out


def subst_lin(e, a, v):
    c, m = lin_of(e)
    k = m.pop(a, 0)
    return add(mk_lin(c, m), v, k)


def lin_ratio(x, y):
    """integer r with y == r*x (same r for all coefficients), or None"""
    cx, mx = lin_of(x)
    cy, my = lin_of(y)
    if not mx and cx == 0:
        return None
    r = None
    for a in set(mx) | set(my):
        p, q = mx.get(a, 0), my.get(a, 0)
        if p == 0:
            return None
        if q % p:
            return None
        if r is None:
            r = q // p
        elif r != q // p:
            return None
    if cx or cy:
        if cx == 0 or cy % cx:
            return None
        if r is None:
            r = cy // cx
        elif r != cy // cx:
            return None
    return r if r else None


_frames = {}


def hash_frame(fr, site, key):
    k = (fr, site, key)
    n = _frames.get(k)
    if n is None:
        n = len(_frames) + 1
        _frames[k] = n
    return n


Interp._nost = None
