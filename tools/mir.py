"""Program model over the extracted facts: functions, types, CFG, loops."""
import json, os, re, sys
sys.setrecursionlimit(20000)
import facts


class Prog:
    def __init__(self, crate, mode="debug"):
        d = facts.load(crate, mode)
        self.crate = crate
        self.mode = mode
        self.types = d["types"]
        self.adts = d["adts"]
        self.consts = d["consts"]
        self.statics = {s["name"]: s for s in d["statics"]}
        self.files = d["files"]
        self.impls = d["impls"]
        self.debug_assertions = d["debug_assertions"]
        self.fns = {}
        self.bypath = {}
        for f in d["fns"]:
            fn = Fn(self, f)
            self.fns[fn.key] = fn
            self.bypath.setdefault(fn.path, []).append(fn)
        self.tybyname = {}
        for i, t in enumerate(self.types):
            self.tybyname.setdefault(t["n"], i)

    # ---- types
    def t(self, tid):
        return self.types[tid]

    def tn(self, tid):
        return self.types[tid]["n"]

    def kind(self, tid):
        return self.types[tid]["k"]

    def pointee(self, tid):
        t = self.types[tid]
        if t["k"] in ("ref", "ptr"):
            return t["t"]
        if t["k"] == "adt" and t["d"] in ("std::boxed::Box", "alloc::boxed::Box"):
            return t["a"][0]
        return None

    def adt(self, tid):
        t = self.types[tid]
        if t["k"] == "adt":
            return self.adts.get(t["d"])
        return None

    def irange(self, tid):
        t = self.types[tid]
        k = t["k"]
        if k == "int":
            b = t["b"]
            if t["s"]:
                return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            return (0, (1 << b) - 1)
        if k == "bool":
            return (0, 1)
        if k == "char":
            return (0, 0x10FFFF)
        return None

    def fields(self, tid, variant=0):
        """list of (name, tid) of a struct / variant / tuple / closure"""
        t = self.types[tid]
        k = t["k"]
        if k == "adt":
            a = self.adts.get(t["d"])
            vs = t.get("v")
            if a is None:
                return []
            fs = a["v"][variant]["f"] if variant < len(a["v"]) else []
            if vs is not None:
                return [(f["n"], ft) for f, ft in zip(fs, vs[variant])]
            return [(f["n"], f["t"]) for f in fs]
        if k in ("tuple", "closure"):
            return [(str(i), x) for i, x in enumerate(t.get("ts", []))]
        return []

    def local_fns(self):
        return [f for f in self.fns.values() if f.local]

    def find(self, suffix, local=True, one=True):
        """functions whose path ends with the given suffix (path-segment aligned)"""
        r = []
        for p, l in self.bypath.items():
            if p == suffix or p.endswith("::" + suffix):
                for f in l:
                    if local and not f.local:
                        continue
                    if f.inst is not None:
                        continue
                    r.append(f)
        if one:
            if len(r) != 1:
                raise Missing("anchor %s: %d matches" % (suffix, len(r)))
            return r[0]
        return r


class Missing(Exception):
    pass


class Fn:
    def __init__(self, prog, d):
        self.p = prog
        self.d = d
        self.key = d["key"]
        self.path = d["path"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.local = bool(d.get("local"))
        self.inst = d.get("inst")
        self.trait = d.get("trait")
        self.selfty = d.get("self")
        self.coroutine = bool(d.get("coroutine"))
        self.file = prog.files[d["file"]]
        self.line = d["line"]
        self._cfg = None

    def __repr__(self):
        return "<Fn %s>" % self.key

    @property
    def short(self):
        f = self.file
        f = f.replace("/repo/", "")
        return "%s (%s)" % (self.path, f)

    def names(self):
        return self.d["names"]

    def argnames(self):
        r = {}
        for nm, pl, ai in self.d["names"]:
            if ai is not None and len(pl) == 1:
                r[pl[0]] = nm
        return r

    def succ(self, b, unwind=False):
        t = self.blocks[b]["t"]
        if t is None:
            return []
        k = t["k"]
        r = []
        if k == "goto":
            r = [t["t"]]
        elif k == "switch":
            r = [x[1] for x in t["v"]] + [t["o"]]
        elif k in ("drop", "assert", "yield"):
            r = [t["t"]]
        elif k == "call":
            if t["t"] is not None:
                r = [t["t"]]
        if unwind and t.get("u") is not None:
            r.append(t["u"])
        return r

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg


class Cfg:
    def __init__(self, fn):
        self.fn = fn
        n = len(fn.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        seen = set()
        order = []
        stack = [(0, iter(fn.succ(0)))]
        seen.add(0)
        self.succ[0] = fn.succ(0)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    self.succ[s] = fn.succ(s)
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.rponum = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._dom()
        self._loops()

    def _dom(self):
        idom = {0: 0}
        changed = True
        num = self.rponum
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def _loops(self):
        """natural loops: header -> set of blocks"""
        loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
        self.loops = loops
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.rponum[s] <= self.rponum[b] and not self.dominates(s, b):
                    self.irreducible = True
        # innermost loop header per block
        self.inner = {}
        for h in sorted(loops, key=lambda h: -len(loops[h])):
            for b in loops[h]:
                self.inner[b] = h
        # parent loop
        self.parent = {}
        for h in loops:
            best = None
            for g in loops:
                if g != h and h in loops[g]:
                    if best is None or len(loops[g]) < len(loops[best]):
                        best = g
            self.parent[h] = best


def calls(fn):
    for i, b in enumerate(fn.blocks):
        t = b["t"]
        if t and t["k"] == "call":
            yield i, t


def callee(t):
    return t.get("rs") or t.get("fn")


def place_str(fn, pl):
    names = {}
    for nm, p, _ in fn.d["names"]:
        if len(p) == 1:
            names.setdefault(p[0], nm)
    s = names.get(pl[0], "_%d" % pl[0])
    for e in pl[1:]:
        if e == "*":
            s = "(*%s)" % s
        elif e[0] == ".":
            s += "." + str(e[2])
        elif e[0] == "[]":
            s += "[%s]" % names.get(e[1], "_%d" % e[1])
        elif e[0] == "[c]":
            s += "[%s%d]" % ("-" if e[2] else "", e[1])
        elif e[0] == "as":
            s += "@%d" % e[1]
    return s


def dump(fn, out=sys.stdout):
    P = fn.p

    def cst(c):
        if "name" in c:
            return c["name"]
        v = c.get("c", {})
        for k in ("v", "str", "fn", "fl", "static"):
            if k in v:
                return repr(v[k]) if k == "str" else str(v[k])
        return json.dumps(v)[:80]

    def op(o):
        if o[0] in ("c", "m"):
            return ("move " if o[0] == "m" else "") + place_str(fn, o[1])
        if o[0] == "k":
            return cst(o[1])
        return str(o)

    def rv(r):
        k = r[0]
        if k == "use":
            return op(r[1])
        if k == "ref":
            return "&%s %s" % (r[1], place_str(fn, r[2]))
        if k == "bin":
            return "%s(%s, %s)" % (r[1], op(r[2]), op(r[3]))
        if k == "un":
            return "%s(%s)" % (r[1], op(r[2]))
        if k == "cast":
            return "%s as %s (%s)" % (op(r[2]), P.tn(r[3]), r[1].split("(")[0])
        if k == "disc":
            return "disc(%s)" % place_str(fn, r[1])
        if k == "agg":
            return "%s{%s}" % (r[1][:3], ", ".join(op(o) for o in r[2]))
        return str(r)[:150]

    print("fn %s argc=%d  %s:%d" % (fn.key, fn.argc, fn.file, fn.line), file=out)
    for i, t in enumerate(fn.locals):
        print("   _%d: %s" % (i, P.tn(t)), file=out)
    for i, b in enumerate(fn.blocks):
        if b.get("c"):
            continue
        print(" bb%d:" % i, file=out)
        for s in b["s"]:
            if s[0] == "=":
                print("    %s = %s   // %s" % (place_str(fn, s[1]), rv(s[2]), s[3]), file=out)
            elif s[0] not in ("live", "dead"):
                print("    ", s, file=out)
        t = b["t"]
        if t is None:
            continue
        if t["k"] == "call":
            print("    %s = %s(%s) -> %s  // %s %s" % (place_str(fn, t["d"]), t.get("key") or t.get("fn") or op(t["fp"]),
                  ", ".join(op(a) for a in t["a"]), t["t"], t["l"], t.get("mac", "")), file=out)
        elif t["k"] == "switch":
            print("    switch %s %s else %s" % (op(t["d"]), t["v"], t["o"]), file=out)
        elif t["k"] == "assert":
            print("    assert %s == %s %s -> %s" % (op(t["c"]), t["e"], t["mk"], t["t"]), file=out)
        elif t["k"] == "drop":
            print("    drop %s -> %s" % (place_str(fn, t["p"]), t["t"]), file=out)
        else:
            print("    ", {k: v for k, v in t.items() if k not in ("l",)}, file=out)


if __name__ == "__main__":
    P = Prog(sys.argv[1])
    for k, f in P.fns.items():
        if sys.argv[2] in k:
            dump(f)
