"""Paths through the public codec interface: which engine operation each path performs, with which arguments."""
import os, re
from mir import Prog, Missing, callee, calls
from absint import *

SHORT = re.compile(r"^(j2k::|jp2::)")


def strip_casts(b):
    while b[0] == "cast":
        b = b[3]
    return b


def root(v):
    """(root object, path) a pointer value leads to, casts removed"""
    path = ()
    while True:
        if v[0] == "cast":
            v = v[3]
        elif v[0] == "ptr":
            path = tuple(p for p in v[2] if p != ("i", K(0))) + path
            v = v[1]
        else:
            return v, path


def rdp(I, st, p):
    """what a pointer value points to"""
    if p[0] == "ptr":
        return I.rd(st, p[1], p[2])
    return I.rd(st, p, I0)


def wrp(I, st, p, v):
    if p[0] == "ptr":
        I.wr(st, p[1], p[2], v)
    else:
        I.wr(st, p, I0, v)


def events_noop(I):
    """the message functions do nothing here"""
    def nop(I, st, a, rt, t, fn, bb, depth, fr):
        return [(st, I.fresh(st, rt, "msg", fn.key, bb))]

    def off(I, st, a, rt, t, fn, bb, depth, fr):
        return [(st, K(0))]
    I.models["event::opj_event_mgr::msg_write"] = nop
    I.models["event::opj_event_mgr::is_enabled"] = off


def is_log(path):
    return path is not None and (path.startswith("log::") or path.startswith("core::fmt") or path.startswith("std::fmt") or path.startswith("alloc::fmt"))


KNOWN = None


def known(P, path):
    """false for a function of the crate that was not there when the checks were written: such a helper is entered, not treated as an operation"""
    global KNOWN
    if KNOWN is None:
        KNOWN = set(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "openjp2_fns.txt")).read().split("\n"))
    return path in KNOWN or path not in P.bypath or not any(f.local for f in P.bypath[path])


class Api:
    def __init__(self, P, stop, havoc=False, **opt):
        self.havoc = havoc          # recorded operations may change whatever they get a writable pointer to
        self.P = P
        self.stop = lambda p: stop(p) and known(P, p)            # path -> bool: an engine operation, recorded and not entered
        self.derefs = []
        self.opt = opt

    def interp(self):
        I = Interp(self.P, inline_std=True, **dict({"max_states": 200}, **self.opt))
        events_noop(I)
        import kern
        kern.minmax(I)

        def on_call(I, st, path, key, args, rt, t, fn, bb):
            if path is None:
                return None
            if is_log(path):
                return [(st, I.fresh(st, rt, "log", path, fn.key, bb))]
            if self.stop(path):
                st.ev("call", path, tuple(args))
                cf = self.P.fns.get(key)
                for i, a in enumerate(args):
                    r, pth = root(a)
                    if cf is not None and i < cf.argc and self.P.types[cf.locals[i + 1]].get("k") == "ref" and not self.P.types[cf.locals[i + 1]].get("m"):
                        continue        # a shared reference: not written through
                    if r[0] in ("L", "obj") or self.havoc and r[0] == "S":
                        I._havoc_reach(st, a, ("call", path))
                return [(st, I.fresh(st, rt, "ret", path, fn.key, bb))]
            return None
        I.on_call = on_call
        return I

    def run(self, f, args=None, st=None, I=None):
        I = I or self.interp()
        st = st or State(I.cx)
        if args is None:
            args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        outs = I.exec_fn(f, args, st)
        return I, args, outs


def box_models(I):
    """Box::new gives a fresh object"""
    def new(I, st, a, rt, t, fn, bb, depth, fr):
        n = st.notes.get("boxes", 0)
        st.notes["boxes"] = n + 1
        pt = I.ptee(rt)
        return [(st, I.newobj(st, pt, ("box", fn.key, bb, n), a[0]))]
    I.models["std::boxed::Box::<T>::new"] = new
    I.models["smallvec::alloc::boxed::Box::<T>::new"] = new

    def into(I, st, a, rt, t, fn, bb, depth, fr):
        return [(st, a[0])]
    for p in ("std::boxed::Box::<T>::into_raw", "std::boxed::Box::<T, A>::into_raw", "smallvec::alloc::boxed::Box::<T, A>::into_raw"):
        I.models[p] = into
