"""C30: no mutable state is shared between codecs."""
from mir import Prog, Missing, callee, calls

LEVEL = "other"
TECHNIQUE = "whole-program effect analysis: interprocedural flow of every static's address in the compiler's MIR, with a type-reachability rule for the codec, stream and image types"
NOTE = ("Every static of the codec crate and every place its address can reach (locals, fields, arguments, results) is followed; no solver, no bound. "
        "References obtained from thread-local storage are confined by their types; raw copies of them are not followed.")
EXPLANATION = ("For every static item of the codec crate: it is thread-local, or its type has no interior mutability and no instruction writes through its address. The address is followed "
               "flow-insensitively from every constant operand naming the static through copies, casts, pointer arithmetic, fields, calls and returns; a store, a mutable borrow, or passing it to "
               "foreign code that takes a mutable pointer is a violation. The types a codec, stream or image is made of contain no shared-ownership pointer and no interior-mutable static reference, "
               "and no call reaches a function that changes process-wide settings.")
ASSUMPTIONS = ["references handed out by thread-local storage do not leave their thread"]

PROCESS = {"setlocale", "srand", "rand", "random", "srandom", "strtok", "setenv", "putenv", "unsetenv", "localtime", "gmtime", "asctime", "ctime", "strerror", "chdir", "umask", "signal", "set_var", "remove_var", "set_current_dir", "set_hook", "take_hook"}
SHARED = ("std::sync::Arc", "alloc::sync::Arc", "std::rc::Rc", "alloc::rc::Rc", "smallvec::alloc::sync::Arc", "smallvec::alloc::rc::Rc")
# extern functions through which a pointer only moves
MOVES = ("offset", "add", "sub", "wrapping_add", "wrapping_sub", "wrapping_offset", "cast", "cast_mut", "cast_const", "as_ptr", "as_mut_ptr", "get_unchecked", "get", "index", "from", "into", "clone", "unwrap", "as_ref", "iter", "next", "into_iter", "addr_of")


class Flow:
    def __init__(self, P):
        self.P = P
        self.loc = {}       # (fn key, local) -> set of statics
        self.fld = {}       # field name -> set
        self.ret = {}
        self.bad = {}
        self.work = True

    def put(self, d, k, s):
        if s and not s <= d.get(k, set()):
            d[k] = d.get(k, set()) | s
            self.work = True

    def ptrish(self, tid):
        return self.P.types[tid].get("k") in ("ptr", "ref") if tid is not None and tid >= 0 else True

    def hasptr(self, tid, depth=0):
        t = self.P.types[tid]
        if t.get("k") in ("ptr", "ref", "fnptr"):
            return True
        if t.get("k") in ("int", "uint", "float", "bool", "char"):
            return False
        return True

    def fkeys(self, f, pl):
        """(owner type, field) of every field projection of a place, None for other projections"""
        P, t, var, out = self.P, f.locals[pl[0]], 0, []
        for e in pl[1:]:
            k = None
            if e == "*":
                t = P.pointee(t) if t is not None else None
            elif e[0] == ".":
                fs = P.fields(t, var) if t is not None else []
                ty = P.types[t] if t is not None else {}
                k = (ty.get("d") or ty.get("k") or "?", e[2])
                t = fs[e[1]][1] if e[1] < len(fs) else None
                var = 0
            elif e[0] == "as":
                var = e[1] if isinstance(e[1], int) else 0
            elif t is not None:
                t = P.types[t].get("t")
            out.append(k)
        return out

    def place(self, f, pl):
        """statics a value loaded from pl may point to"""
        if len(pl) > 1:
            ks = [k for k in self.fkeys(f, pl) if k]
            # the last field decides; a load through a static's address yields its content, not its address
            return set(self.fld.get(ks[-1], set())) if ks else set()
        return self.loc.get((f.key, pl[0]), set())

    def operand(self, f, o):
        if o[0] in ("c", "m"):
            return self.place(f, o[1])
        if o[0] == "k" and "c" in o[1] and isinstance(o[1]["c"], dict) and "static" in o[1]["c"]:
            return {o[1]["c"]["static"]}
        return set()

    def assign(self, f, pl, s):
        if not s:
            return
        if len(pl) == 1:
            self.put(self.loc, (f.key, pl[0]), s)
        else:
            for k in reversed(self.fkeys(f, pl)):
                if k:
                    self.put(self.fld, k, s)
                    return
            self.put(self.loc, (f.key, pl[0]), s)

    def through(self, f, pl):
        """statics written when pl is stored to"""
        if len(pl) > 1 and "*" in pl[1:]:
            s = set(self.loc.get((f.key, pl[0]), set()))
            # after a field load only the field's own targets matter
            i = max(i for i, e in enumerate(pl) if e == "*")
            fl = [k for k in self.fkeys(f, pl)[:i - 1] if k]
            if fl:
                s = set(self.fld.get(fl[-1], set()))
            return s
        return set()

    def flag(self, s, f, why):
        for x in s:
            self.bad.setdefault((x, f.path), why)

    def run(self):
        fns = self.P.local_fns()
        rounds = 0
        while self.work:
            self.work = False
            rounds += 1
            for f in fns:
                self.one(f)
        return rounds

    def one(self, f):
        P = self.P
        for b in f.blocks:
            for st in b["s"]:
                if st[0] != "=":
                    continue
                pl, rv = st[1], st[2]
                w = self.through(f, pl)
                if w:
                    self.flag(w, f, "is written to")
                if rv[0] == "use":
                    self.assign(f, pl, self.operand(f, rv[1]))
                elif rv[0] == "cast":
                    self.assign(f, pl, self.operand(f, rv[2]))
                elif rv[0] == "ref":
                    tgt = rv[2]
                    t = self.through(f, tgt)
                    if t:
                        if rv[1] == "mut":
                            self.flag(t, f, "is borrowed mutably")
                        self.assign(f, pl, t)
                elif rv[0] == "agg":
                    fs = P.fields(rv[3], 0) if len(rv) > 3 and isinstance(rv[3], int) else []
                    own = P.types[rv[3]].get("d") if fs else None
                    for i, o in enumerate(rv[2]):
                        if isinstance(o, list):
                            x = self.operand(f, o)
                            if own and i < len(fs):
                                self.put(self.fld, (own, fs[i][0]), x)
                            else:
                                self.assign(f, pl, x)
                elif rv[0] == "bin" and len(rv) > 3:
                    for o in rv[2:4]:
                        if isinstance(o, list) and self.ptrish(self.loct(f, pl)):
                            self.assign(f, pl, self.operand(f, o))
            t = b["t"]
            if t["k"] == "ret":
                self.put(self.ret, f.key, self.loc.get((f.key, 0), set()))
            if t["k"] != "call":
                continue
            c = callee(t)
            g = P.fns.get(t.get("key")) if t.get("key") else None
            if g is None and c in P.bypath:
                g = P.bypath[c][0]
            args = [self.operand(f, a) for a in t["a"]]
            if t.get("d"):
                w = self.through(f, t["d"])
                if w:
                    self.flag(w, f, "is written to")
            if g is not None and g.local:
                for i, s in enumerate(args):
                    if s and i < g.argc:
                        self.put(self.loc, (g.key, i + 1), s)
                if t.get("d"):
                    self.assign(f, t["d"], self.ret.get(g.key, set()))
                continue
            s = set().union(*args) if args else set()
            if not s:
                continue
            nm = (c or "").split("::")[-1]
            if t.get("d") and self.hasptr(self.loct(f, t["d"])):
                self.assign(f, t["d"], s)
            if nm in MOVES:
                continue
            for a, x in zip(t["a"], args):
                if x and a[0] in ("c", "m") and len(a[1]) == 1:
                    ty = P.types[f.locals[a[1][0]]]
                    if ty.get("k") in ("ref", "ptr") and ty.get("m"):
                        self.flag(x, f, "is handed to %s as writable memory" % (c or "an unknown function"))

    def loct(self, f, pl):
        return f.locals[pl[0]]


def reach_types(P, roots):
    """(type name, path) of every type a value of the roots contains or points to"""
    seen, out, work = set(), [], [(r, P.adts[r].get("loc", r) and r.split("::")[-1]) for r in roots]
    tq = []
    for r in roots:
        for v in P.adts[r]["v"]:
            for fl in v["f"]:
                tq.append((fl["t"], r.split("::")[-1] + "." + fl["n"]))
    while tq:
        t, w = tq.pop()
        if t in seen or t is None or t < 0:
            continue
        seen.add(t)
        ty = P.types[t]
        out.append((P.tn(t), w, ty))
        for k in ("t",):
            if isinstance(ty.get(k), int):
                tq.append((ty[k], w))
        for k in ("ts", "a"):
            for x in ty.get(k) or ():
                if isinstance(x, int):
                    tq.append((x, w))
        d = ty.get("d") or ty.get("n")
        a = P.adts.get(d) if isinstance(d, str) else None
        if a is None and ty.get("k") == "adt":
            a = P.adts.get(str(ty.get("n")))
        if a is not None and str(a.get("crate", "")) in ("openjp2", "", "None") or a is not None and a.get("loc"):
            for v in a["v"]:
                for fl in v["f"]:
                    tq.append((fl["t"], w + "." + fl["n"] if len(w) < 80 else w))
    return out


def run(R):
    P = Prog("openjp2", "release")
    st = list(P.statics.values()) if isinstance(P.statics, dict) else list(P.statics)
    F = Flow(P)
    rounds = F.run()
    for s in st:
        nm = s["name"]
        if s["tls"]:
            R.ok("statics", nm + " is thread-local")
            continue
        ty = P.tn(s["t"])
        lazy = ty.startswith(("std::sync::LazyLock<", "std::sync::lazy_lock::LazyLock<")) and not any(x in ty.split("<", 1)[1] for x in ("Mutex", "RwLock", "Atomic", "Cell", "Once", "*mut"))
        R.check("statics", s["freeze"] or lazy, "%s:interior" % nm.split("::")[-1], "the process-wide static %s can be changed through a shared reference: codecs on different threads share it" % nm, nm + " has no interior mutability")
        bad = sorted((fn, why) for (x, fn), why in F.bad.items() if x == nm)
        if bad:
            for fn, why in bad:
                R.fail("statics", "%s:%s" % (nm.split("::")[-1], fn.split("::")[-1]), "the process-wide static %s %s in %s: codecs on different threads share it" % (nm, why, fn))
        else:
            R.ok("statics", nm + " is never written")
    known = {s["name"] for s in st}
    for l in list(F.loc.values()):
        for x in l:
            if x not in known:
                known.add(x)
                R.check("statics", x.split("::")[0] in ("std", "core", "alloc"), "%s:foreign" % x, "a static of another crate is used: %s" % x, x)
    roots = [a for a in P.adts if a in ("codec::Codec", "types::Stream", "image::opj_image", "types::opj_j2k") or a.endswith("::opj_jp2")]
    if len(roots) < 5:
        raise Missing("codec, stream or image type (%s)" % roots)
    ts = reach_types(P, roots)
    for n, w, ty in ts:
        b = n.lstrip("&").replace("mut ", "")
        R.check("types", not b.startswith(SHARED), "%s:%s" % (w, b[:40]), "%s holds a shared-ownership pointer %s: two objects can share what it points to" % (w, n), "%s: %s" % (w, n[:60]))
    calls_n = 0
    for f in P.local_fns():
        for _, t in calls(f):
            c = callee(t)
            calls_n += 1
            if c and c.split("::")[-1] in PROCESS and not (c in P.bypath and P.bypath[c][0].local):
                R.fail("process", "%s:%s" % (f.path.split("::")[-1], c.split("::")[-1]), "%s calls %s, which changes or uses process-wide state" % (f.path, c))
    R.ok("process", "%d calls" % calls_n)
    R.analysed["functions"] = len(P.local_fns())
    R.analysed["statics"] = len(st)
    R.notes.append("address flow converged after %d rounds; %d pointer locals, %d fields hold a static's address" % (rounds, len(F.loc), len(F.fld)))
    R.floor("statics", 10)
    R.floor("types", 60)
