"""Blocks of memory on every path of a function: requested, tested, used, released, owned."""
from mir import Prog, Missing, callee, calls
from absint import *
from apimodel import *
import kern

ALLOC = {"opj_malloc", "opj_calloc", "opj_aligned_malloc", "opj_aligned_32_malloc", "opj_image_data_alloc"}
REALLOC = {"opj_realloc", "opj_aligned_realloc", "opj_aligned_32_realloc"}
FREE = {"opj_free", "opj_aligned_free", "opj_image_data_free"}
MEMFN = {"std::ptr::mut_ptr::<impl *mut T>::is_null", "std::ptr::const_ptr::<impl *const T>::is_null"}


def last(p):
    return (p or "").split("::")[-1]


def is_ptr(P, t):
    return P.types[t].get("k") == "ptr"


class Heap:
    """one function interpreted; alloc = further functions that return a block or null, frees = {function: argument released}"""

    def __init__(self, P, f, alloc=(), frees=None, max_states=24, **opt):
        self.P, self.f = P, f
        self.alloc, self.frees = set(alloc), frees or {}
        self.A = Api(P, self.stop, havoc=True, max_states=max_states, **opt)
        self.I = I = self.A.interp()
        self.bad = {}           # key -> text
        self.sites = set()
        self.nderef = self.nfree = 0
        oc = I.on_call

        def on_call(I, st, path, key, args, rt, t, fn, bb):
            n = last(path)
            loc = path in P.bypath
            if loc and (n in ALLOC or n in REALLOC or path in self.alloc):
                site = (fn.path, n, bb)
                if not I.record:
                    self.sites.add(site)
                    for i, a in enumerate(args):
                        self.use(st, a, fn, bb, "given to " + n, deref=False)
                v = I.fresh(st, rt, "alloc", n, fn.key, bb)
                if n in REALLOC:
                    st.ev("realloc", args[0], v)
                return [(st, v)]
            if loc and n in FREE or path in self.frees:
                i = self.frees.get(path, len(args) - 1 if n != "opj_free" else 0) if n not in FREE else 0
                if not I.record:
                    self.nfree += 1
                    self.use(st, args[i], fn, bb, "released", deref=False)
                st.ev("free", args[i], n)
                return [(st, I.fresh(st, rt, "ret", path, fn.key, bb))]
            if path is not None and self.stop(path) and known(P, path) and not I.record:
                cf = P.fns.get(key)
                for i, a in enumerate(args):
                    self.use(st, a, fn, bb, "given to " + n, deref=True)
            if path is not None and self.stop(path):
                cf = P.fns.get(key)
                for i, a in enumerate(args):
                    r, pth = root(a)
                    if cf is not None and i < cf.argc and P.types[cf.locals[i + 1]].get("k") == "ref" and not P.types[cf.locals[i + 1]].get("m"):
                        continue
                    if r[0] in ("L", "obj", "S"):
                        I._havoc_reach(st, a, ("call", path))
                return [(st, I.fresh(st, rt, "ret", path, fn.key, bb))]
            return oc(I, st, path, key, args, rt, t, fn, bb)
        I.on_call = on_call

        def on_deref(I, st, v):
            if not I.record:
                self.nderef += 1
                self.use(st, v, None, None, "used", deref=True)
        I.on_deref = on_deref
        I.loop_hooks = True
        self.ends = []
        I.on_loop_back = lambda s, fn, h, lid: self.ends.append(("back", s, lid, None))

    def stop(self, path):
        return path in self.P.bypath and any(x.local for x in self.P.bypath[path]) and known(self.P, path)

    def use(self, st, v, fn, bb, how, deref):
        r, p = root(v)
        if deref and r[0] == "S" and r[2] == "alloc":
            d = st.decide(("isnull", r))
            if d is not False:
                self.note("untested:%s:%s" % (last(r[4].split("::<")[0]), r[3]), "a block from %s in %s is %s without having been tested" % (r[3], r[4], how))
        if r[0] == "S":
            for e in st.evlist():
                if e[0] == "free" and root(e[1])[0] == r and not root(e[1])[1]:
                    if st.decide(("isnull", r)) is True:
                        continue
                    self.note("freed:%s:%s:%s" % (last(self.f.path), name(r), how.split(" ")[0]), "%s is %s in %s after it was released" % (name(r), how, self.f.path))
                if e[0] == "realloc" and root(e[1])[0] == r and st.decide(("isnull", e[2])) is not True and st.decide(("isnull", r)) is not True:
                    self.note("moved:%s:%s:%s" % (last(self.f.path), name(r), how.split(" ")[0]), "the old block %s is %s in %s after a reallocation" % (name(r), how, self.f.path))

    def note(self, k, t):
        self.bad.setdefault(k, t)

    def run(self):
        f = self.f
        args = [self.I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        self.outs = [(s, r) for s, r in self.I.exec_fn(f, args, State(self.I.cx)) if not s.dead]
        return self


def name(r):
    """a place in words"""
    out = []
    while isinstance(r, tuple) and r and r[0] == "S" and len(r) >= 4:
        if r[2] == "fld":
            out.append(r[4])
            r = r[3]
        elif r[2] in ("mem", "el", "vf"):
            r = r[3]
        elif r[2] == "arg":
            out.append("arg%d" % r[3])
            break
        elif r[2] in ("alloc", "ret"):
            out.append(last(r[3]))
            break
        else:
            out.append(str(r[2]))
            break
    return ".".join(reversed(out))
