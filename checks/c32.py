"""C32: stream positions are exact."""
import sys
from apimodel import *
from strdom import ngen
import kern

LEVEL = "other"
TECHNIQUE = "abstract interpretation of the stream layer with a ghost counter of the bytes moved (loop invariants by linear relations between cells)"
NOTE = "All outcomes of the underlying reader, writer and callbacks are symbolic, any number of short transfers included; trusts std's BufReader and BufWriter."
EXPLANATION = ("Stream::read, write, skip and seek are interpreted with every answer the buffered source can give (any count up to the room offered, end, error); a ghost counter adds what it moved. On every return the "
               "position has changed by exactly the counter, an Ok carries the counted bytes, successive reads fill the buffer without gaps, and an error leaves the position alone with nothing moved. The custom-stream "
               "callbacks are called with the caller's buffer, length and user data and their answer is taken over: negative or refused is an error, a short skip is continued. The variants of the inner stream "
               "run their own operation, and the C-style wrappers turn errors into their failure value and nothing else. The position is stored nowhere else.")
ASSUMPTIONS = ["a Read returns at most the room it was given, and std's BufReader::read_exact may have taken bytes when it fails", "after a failed write_all the number of bytes accepted is not known and the position is left alone",
               "stream positions do not overflow 64 bits"]
SI = "stream::StreamInner"
ST = "stream::<impl types::Stream>::"


class Model:
    def __init__(self, P):
        self.P = P
        self.A = Api(P, lambda p: False, havoc=False, max_states=400)
        global CUR
        CUR = self.I = I = self.A.interp()
        self.i64 = P.tybyname["i64"]
        self.u64 = P.tybyname["usize"]
        I.sign_inv = True
        kern.minmax(I)
        oc = I.on_call

        def on_call(I, st, path, key, args, rt, t, fn, bb):
            r = self.io(st, path, key, args, rt, fn, bb)
            return r if r is not None else oc(I, st, path, key, args, rt, t, fn, bb)
        I.on_call = on_call
        orig = I.call

        def call(st, fr, fn, bb, t, depth):
            if (t.get("rs") or t.get("fn")) is None:
                v = I.operand(st, fr, t["fp"])
                args = tuple(I.operand(st, fr, a) for a in t["a"])
                rt = I.ret_tid(fn, t)
                lo, hi = P.irange(rt)
                good, bad = st.copy(), st.copy()
                r = I.fresh(good, rt, "cb", fn.key, bb)
                out = [(good, r)]
                if lo == 0 and hi > 2 ** 60:
                    # a count: at most the room offered, or negative
                    good.add_cons(sub(args[1], r))
                    m = I.fresh(bad, rt, "cbfail", fn.key, bb)
                    bad.add_cons(sub(m, K(1)))
                    bad.add_cons(sub(K((hi + 1) // 2), m))
                    b = sub(K(hi + 1), m)
                    bad.ev("cb", v, args, b, True)
                    out.append((bad, b))
                good.ev("cb", v, args, r, False)
                self.move(good, r)
                return out
            return orig(st, fr, fn, bb, t, depth)
        I.call = call
        self.panics = []
        I.on_panic = lambda I, st, what, fn, bb, t: self.panics.append(what)

    def start(self, signed=False):
        st = State(self.I.cx)
        self.ghost = self.I.newobj(st, self.i64 if signed else self.u64, ("ghost",), K(0))
        return st

    def moved(self, st):
        return st.resolve(rdp(self.I, st, self.ghost)) if hasattr(st, "resolve") else rdp(self.I, st, self.ghost)

    def move(self, st, n):
        wrp(self.I, st, self.ghost, add(rdp(self.I, st, self.ghost), n))

    def result(self, rt, ok, v):
        return ("agg", "std::result::Result", 0 if ok else 1, (v,))

    def io(self, st, path, key, args, rt, fn, bb):
        I = self.I
        np = path or ""
        nm = np.split("::")[-1]
        inner = np.startswith(("<" + SI, SI + "::")) or key and ("::<%s>" % SI) in key
        buf = "BufReader" in np or "BufWriter" in np
        if np == SI + "::has_seek" or not (inner and self.stop_inner or buf) or nm not in ("read", "read_exact", "write", "write_all", "flush", "seek_relative", "seek", "read_to_end"):
            return None
        okt = self.P.fields(rt, 0)[0][1] if self.P.fields(rt, 0) else None
        good, bad = st.copy(), st.copy()
        e = I.fresh(bad, None, "ioerr", fn.key, bb)
        unit = ("agg", "tuple", 0, ())
        bad.ev("io", nm, args, None, e, key)
        if nm in ("read", "write"):
            n = I.fresh(good, okt, "ion", fn.key, bb)
            ln = args[1][3] if args[1][0] == "ptr" and args[1][3] is not None else self.length(args[1])
            good.add_cons(sub(ln, n))
            good.add_cons(n)
            self.move(good, n)
            v = n
        elif nm in ("read_exact", "write_all"):
            ln = args[1][3] if args[1][0] == "ptr" and args[1][3] is not None else self.length(args[1])
            self.move(good, ln)
            if nm == "read_exact":
                self.move(bad, I.fresh(bad, self.u64, "lost", fn.key, bb))
            v = unit
        elif nm == "seek_relative":
            self.move(good, args[1])
            v = unit
        elif nm == "seek":
            v = I.fresh(good, okt, "pos", fn.key, bb)
        elif nm == "flush":
            v = unit
        else:
            return None
        good.ev("io", nm, args, v, None, key)
        return [(good, self.result(rt, True, v)), (bad, self.result(rt, False, e))]

    def length(self, v):
        return ("S", -2, "len", v)

    stop_inner = True


def field(P, adt, name):
    for i, x in enumerate(P.adts[adt]["v"][0]["f"]):
        if x["n"] == name:
            return i
    raise Missing("%s.%s" % (adt, name))


def err_of(v):
    return v[3][0] if v[0] == "agg" and v[2] == 1 else None


def run(R):
    sys.setrecursionlimit(20000)
    for mode in ("release", "debug"):
        P = Prog("openjp2", mode)
        stream_ops(R, P, mode)
        inner_ops(R, P, mode)
        custom_ops(R, P, mode)
        wrappers(R, P, mode)
    stores(R, Prog("openjp2", "release"))
    R.floor("position", 16)
    R.floor("inner stream", 30)
    R.floor("callbacks", 16)
    R.floor("wrappers", 20)


def RES(st, v):
    return CUR.resolve(st, v)


CUR = None


def same(st, a, b):
    a, b = RES(st, a), RES(st, b)
    return a == b or st.entails(sub(a, b)) and st.entails(sub(b, a))


def stream_ops(R, P, mode):
    G = "position"
    fo = field(P, "types::Stream", "m_byte_offset")
    fi = field(P, "types::Stream", "m_inner")
    fl = field(P, "types::Stream", "m_stream_length")
    for op in ("read", "write", "skip", "seek"):
        f = P.find(ST + op)
        M = Model(P)
        I = M.I
        st = M.start(op in ("skip", "seek"))
        args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        self = args[0]
        at = lambda s, i, n: I.rd(s, self, I0 + (("f", i, n),))
        old = at(st, fo, "m_byte_offset")
        length = at(st, fl, "m_stream_length")
        # positions and lengths are far from the end of 64 bits
        lim = K(2 ** 61)
        for x in (old, length):
            st.add_cons(x)
            st.add_cons(sub(lim, x))
        if op in ("skip", "seek"):
            st.add_cons(sub(lim, args[1]))
            st.add_cons(add(lim, args[1]))
            if op == "seek":
                st.add_cons(args[1])
        if op in ("read", "write"):
            st.add_cons(sub(lim, M.length(args[1])))
            I.inv_bounds = (M.length(args[1]),)
        where = {}
        for s, v in I.exec_fn(f, args, st):
            if s.dead or not s.feasible():
                continue
            new = at(s, fo, "m_byte_offset")
            mv = rdp(I, s, M.ghost)
            ev = [e for e in s.evlist() if e[0] == "io"]
            bad = None
            ok = v[0] == "agg" and v[2] == 0
            if not (v[0] == "agg" and v[1].endswith("Result")):
                bad = "its result is not decided"
            elif at(s, fi, "m_inner") != at(State(I.cx), fi, "m_inner") and False:
                bad = "replaces its source"
            elif any(root(e[2][0]) [0] != self for e in ev):
                bad = "works on another stream"
            elif not same(s, new, add(old, mv)):
                bad = "leaves the position at another place than its start plus the bytes moved"
            elif ok and op in ("read", "write") and not same(s, v[3][0], mv):
                bad = "reports another count than the bytes moved"
            elif ok and op == "skip" and not (same(s, v[3][0], mv) and same(s, mv, args[1])):
                bad = "reports success without having skipped exactly the bytes asked for"
            elif ok and op == "seek" and not same(s, new, args[1]):
                bad = "reports success at another place than the one asked for"
            elif ok and op == "write" and not same(s, mv, M.length(args[1])):
                bad = "reports success without having written all bytes"
            elif not ok and not same(s, mv, K(0)):
                bad = "reports failure although bytes were moved"
            elif not ok and op == "read" and not any(e[4] is not None for e in ev):
                bad = "reports failure although the source did not"
            elif not ok and not any(e[4] is not None for e in ev) and op != "skip":
                bad = "reports failure although the source did not"
            elif not ok and op == "skip" and not any(e[4] is not None for e in ev) and not legit_skip(s, args[1], old, length):
                bad = "refuses a skip that lies within the stream"
            elif ok and op == "skip" and not s.entails(args[1]):
                bad = "accepts a negative skip"
            if bad is None and op in ("read", "write"):
                bad = gaps(s, ev, args[1], mv, op, M)
            what = "%s (%s) %s" % (op, mode, "success" if ok else "failure")
            R.check(G, bad is None, "position:%s:%s" % (op, bad), "Stream::%s %s" % (op, bad), what)
        for what in M.panics:
            R.fail(G, "panic:%s" % op, "Stream::%s can panic: %s" % (op, what))
    # reading the position
    f = P.find(ST + "tell")
    M = Model(P)
    self = M.I.sym(f.locals[1], "arg", 1)
    for s, v in M.I.exec_fn(f, [self], State(M.I.cx)):
        R.check(G, v == M.I.rd(s, self, I0 + (("f", fo, "m_byte_offset"),)), "tell", "Stream::tell does not return the position", "tell")
    f = P.find(ST + "get_bytes_left")
    M = Model(P)
    self = M.I.sym(f.locals[1], "arg", 1)
    st = State(M.I.cx)
    o, l = (M.I.rd(st, self, I0 + (("f", i, n),)) for i, n in ((fo, "m_byte_offset"), (fl, "m_stream_length")))
    for x in (o, l):
        st.add_cons(x)
        st.add_cons(sub(K(2 ** 61), x))
    for s, v in M.I.exec_fn(f, [self], st):
        if s.dead or not s.feasible():
            continue
        known_len = s.decide(mk_cmp("eq", l, K(0)))
        if known_len is True:
            R.check(G, v == K(0), "left", "the bytes left of a stream of unknown length are not reported as 0", "bytes left, unknown length")
            continue
        s.add_cons(sub(l, o))
        if s.dead or not s.feasible():
            continue
        R.check(G, same(s, v, sub(l, o)), "left", "the bytes left are not the length minus the position", "bytes left")


def legit_skip(s, count, old, length):
    """a refused skip: negative, or past a known end"""
    if s.entails(sub(K(-1), count)):
        return True
    return s.entails(sub(length, K(1))) and s.entails(sub(add(old, count), add(length, K(1))))


def gaps(s, ev, buf, mv, op, M):
    """each transfer uses the part of the buffer the ones before it left"""
    for e in ev:
        p = e[2][1]
        if p == buf:
            start, end = K(0), M.length(buf)
        elif p[0] == "ptr" and p[1] == buf and len(p[2]) == 1 and p[2][0][0] == "i" and p[3] is not None:
            start, end = p[2][0][1], add(p[2][0][1], p[3])
        elif p[0] == "ptr" and p[1] == buf and p[2] in ((), I0):
            start, end = K(0), p[3] if p[3] is not None else M.length(buf)
        else:
            return "uses another buffer than its caller's"
        if not s.entails(sub(M.length(buf), end)):
            return "uses more than its caller's buffer"
    return None


def inner_ops(R, P, mode):
    """every variant runs its own operation and hands its answer on"""
    G = "inner stream"
    adt = next(n for n in P.adts if n == SI)
    vs = [v["n"] for v in P.adts[adt]["v"]]
    ALLOWED = {"read": ("Reader", "CustomReader"), "write": ("Writer", "CustomWriter"), "flush": ("Writer", "CustomWriter"), "seek": tuple(vs), "seek_relative": tuple(vs)}
    for op, allowed in ALLOWED.items():
        f = next(f for f in P.local_fns() if f.path.startswith(("<" + SI, SI + "::")) and f.path.endswith("::" + op))
        M = Model(P)
        M.stop_inner = False
        I = M.I
        st = M.start()
        args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        seen = set()
        whole = I.rd(st, args[0], I0)
        todo = []
        for var in range(len(vs)):
            s0 = st.copy()
            s0.var[whole] = var
            todo += [(var, s, v) for s, v in I.exec_fn(f, args, s0)]
        for var, s, v in todo:
            if s.dead or not s.feasible():
                continue
            ev = [e for e in s.evlist() if e[0] == "io"]
            nm = vs[var]
            seen.add(nm)
            bad = None
            if nm not in allowed:
                if ev:
                    bad = "moves data on a %s" % nm
                elif not (v[0] == "agg" and v[2] == 1) and not (op == "flush" and v[0] == "agg"):
                    bad = "reports success on a %s" % nm
            elif len(ev) != 1:
                bad = "runs %d operations on a %s" % (len(ev), nm)
            else:
                e = ev[0]
                r, path = root(e[2][0])
                if r != args[0] or ("as", var) not in path:
                    bad = "uses something else than its own %s" % nm
                elif e[1] != op and not (op == "seek_relative" and e[1] == "seek"):
                    bad = "runs %s on a %s" % (e[1], nm)
                elif e[4] is not None and err_of(v) != e[4]:
                    bad = "turns an error of a %s into something else" % nm
                elif e[4] is None and not (v[0] == "agg" and v[2] == 0 and (v[3][0] == e[3] or op == "seek_relative")):
                    bad = "turns the answer of a %s into something else" % nm
                elif len(args) > 1 and not ptr_same(e[2][1], args[1]):
                    if not (op == "seek_relative" and e[2][1] == ("agg", "std::io::SeekFrom", 2, (args[1],))):
                        bad = "hands another argument to a %s" % nm
            R.check(G, bad is None, "inner:%s:%s" % (op, bad), "the inner stream's %s %s" % (op, bad), "%s of a %s (%s)" % (op, nm, mode))
        R.check(G, set(allowed) <= seen, "inner:%s:missing" % op, "the inner stream's %s has no path for %s" % (op, sorted(set(allowed) - seen)), op)


def ptr_same(a, b):
    if a == b:
        return True
    return root(a)[0] == root(b)[0] and root(a)[1] in ((), I0) and root(b)[1] in ((), I0)


def custom_ops(R, P, mode):
    G = "callbacks"
    CS = "stream::CustomStream"
    names = {i: x["n"] for i, x in enumerate(P.adts[CS]["v"][0]["f"])}
    fo = field(P, CS, "m_byte_offset")
    for op, cbn in (("read", "m_read_fn"), ("write", "m_write_fn"), ("seek", None)):
        f = next(f for f in P.local_fns() if f.path.startswith("<" + CS) and f.path.endswith("::" + op))
        M = Model(P)
        I = M.I
        st = M.start(op == "seek")
        args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        self = args[0]
        at = lambda s, n: I.rd(s, self, I0 + (("f", next(i for i, x in names.items() if x == n), n),))
        old = at(st, "m_byte_offset")
        st.add_cons(old)
        st.add_cons(sub(K(2 ** 61), old))
        if op != "seek":
            st.add_cons(sub(K(2 ** 61), M.length(args[1])))
        user = at(st, "m_user_data")
        seen = set()
        todo = [(st, None)]
        if op == "seek":
            todo = []
            stid = f.locals[2]
            for var, sg in ((0, 0), (1, 0), (2, 1), (2, 0), (2, -1)):
                s2 = st.copy()
                ft = P.fields(stid, var)[0][1]
                off = I.sym(ft, "offset", var)
                s2.add_cons(sub(K(2 ** 61), off))
                s2.add_cons(add(K(2 ** 61), off))
                if var == 2 and sg == 0:
                    off = K(0)
                elif var == 2:
                    s2.add_cons(sub(scale(off, sg), K(1)))
                todo.append((s2, (var, off)))
        for st0, how in todo:
            a = list(args)
            if how is not None:
                a[1] = ("agg", "std::io::SeekFrom", how[0], (how[1],))
                I.inv_bounds = (old, add(old, how[1]), how[1])
            for s, v in I.exec_fn(f, a, st0):
                if s.dead or not s.feasible():
                    continue
                cbs = [e for e in s.evlist() if e[0] == "cb"]
                new = at(s, "m_byte_offset")
                mv = rdp(I, s, M.ghost)
                ok = v[0] == "agg" and v[2] == 0
                bad = None
                want = cbn or {0: "m_seek_fn", 2: "m_skip_fn"}.get(how[0])
                if not (v[0] == "agg" and v[1].endswith("Result")):
                    bad = "leaves its result undecided"
                for e in cbs:
                    if fnfield(e[1]) != want:
                        bad = "calls %s instead of %s" % (fnfield(e[1]), want)
                    elif e[2][-1] != user:
                        bad = "does not pass the user data"
                    elif op in ("read", "write") and not (strip_casts(root(e[2][0])[0]) == args[1] and root(e[2][0])[1] in ((), I0) and e[2][1] == M.length(args[1])):
                        bad = "does not pass its caller's buffer and length"
                if bad is None and ok and not cbs and not (how is not None and same(s, how[1], K(0))) and not any(e[0] == "loop" for e in s.evlist()):
                    if not (how is not None and how[0] == 2):
                        bad = "reports success without calling %s" % want
                if bad is None and op in ("read", "write"):
                    if len(cbs) > 1:
                        bad = "calls %s %d times" % (want, len(cbs))
                    elif ok and (not cbs or cbs[0][4]):
                        bad = "takes a negative answer for a count"
                    elif ok and not same(s, v[3][0], cbs[0][3]):
                        bad = "reports another count than the callback"
                    elif ok and not same(s, new, add(old, cbs[0][3])):
                        bad = "does not advance by the callback's count"
                    elif not ok and cbs and not cbs[0][4]:
                        bad = "turns a count into an error"
                    elif not ok and new != old:
                        bad = "moves on although it failed"
                elif bad is None and how[0] == 0:
                    if cbs and e_arg(cbs[0]) != how[1] and not same(s, e_arg(cbs[0]), how[1]):
                        bad = "asks for another position"
                    elif ok and not (len(cbs) == 1 and s.decide(mk_cmp("eq", cbs[0][3], K(0))) is False):
                        bad = "reports a refused seek as success"
                    elif ok and not same(s, new, how[1]):
                        bad = "remembers another position"
                    elif not ok and cbs and s.decide(mk_cmp("eq", cbs[0][3], K(0))) is not True:
                        bad = "reports an accepted seek as failure"
                elif bad is None and how[0] == 2:
                    if ok and not (same(s, mv, how[1]) and same(s, new, add(old, how[1]))):
                        bad = "reports success without having skipped exactly the bytes asked for"
                elif bad is None and ok:
                    bad = "accepts a seek from the end"
                R.check(G, bad is None, "callback:%s:%s:%s" % (op, how and how[0], bad), "a custom stream's %s %s" % (op, bad), "%s%s (%s) %s" % (op, "" if how is None else " (%s)" % ("start", "end", "current")[how[0]], mode, "success" if ok else "failure"))
                seen.add(ok)
            for what in M.panics:
                R.fail(G, "panic:%s" % op, "a custom stream's %s can panic: %s" % (op, what))


def e_arg(e):
    return strip_casts(e[2][0])


def fnfield(v):
    while v[0] == "S" and len(v) > 3 and v[2] in ("vf",):
        v = v[3]
    if v[0] == "S" and len(v) == 5 and v[2] == "fld":
        return v[4]
    return None


def wrappers(R, P, mode):
    G = "wrappers"
    FAIL = {"read_data": -1, "write_data": -1, "skip": -1, "seek": 0, "flush": 0}
    OPN = {"read_data": "read", "write_data": "write", "skip": "skip", "seek": "seek", "flush": "flush"}
    for w, fail in FAIL.items():
        f = P.find("stream::opj_stream_" + w)
        I = Interp(P, inline_std=True, max_states=200)
        events_noop(I)
        ops = []

        def on_call(I, st, path, key, args, rt, t, fn, bb):
            if path is not None and path.startswith(ST):
                nm = path.split("::")[-1]
                good, bad = st.copy(), st.copy()
                okt = P.fields(rt, 0)[0][1]
                n = I.fresh(good, okt, "n", fn.key, bb)
                good.ev("op", nm, args, n)
                bad.ev("op", nm, args, None)
                return [(good, ("agg", "std::result::Result", 0, (n,))), (bad, ("agg", "std::result::Result", 1, (("S", None, "e"),)))]
            if is_log(path):
                return [(st, I.fresh(st, rt, "log", fn.key, bb))]
            return None
        I.on_call = on_call
        args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        rtid = f.locals[0]
        lo, hi = P.irange(rtid)
        for s, v in I.exec_fn(f, args, State(I.cx)):
            if s.dead or not s.feasible():
                continue
            ev = [e for e in s.evlist() if e[0] == "op"]
            bad = None
            if len(ev) != 1 or ev[0][1] != OPN[w]:
                bad = "does not run the stream's %s once" % OPN[w]
            elif root(ev[0][2][0])[0] != args[0]:
                bad = "runs it on another stream"
            elif w in ("read_data", "write_data") and not buffer_is(ev[0][2][1], args[1], args[2]):
                bad = "does not hand on its caller's buffer and size"
            elif w in ("skip", "seek") and ev[0][2][1] != args[1]:
                bad = "does not hand on its caller's count"
            elif ev[0][3] is None:
                if v not in (K(fail), K(fail % (hi + 1)) if lo == 0 else K(fail)):
                    bad = "reports a failure as %s" % repr(v)[:60]
            elif w in ("seek", "flush"):
                if v != K(1):
                    bad = "reports a success as %s" % repr(v)[:60]
            elif v != ev[0][3]:
                bad = "reports another count than the stream"
            R.check(G, bad is None, "wrapper:%s:%s" % (w, bad), "opj_stream_%s %s" % (w, bad), "%s (%s)" % (w, mode))
    # the Read and Write traits of a stream are its read and write
    for f in P.local_fns():
        if f.path.startswith("stream::<impl std::io::") and f.path.endswith(("::read", "::write", "::flush")):
            A = Api(P, lambda p: p.startswith(ST))
            I, args, outs = A.run(f)
            for s, v in outs:
                ev = [e for e in s.evlist() if e[0] == "call"]
                ok = len(ev) == 1 and ev[0][1].split("::")[-1] == f.path.split("::")[-1] and all(ptr_same(x, y) for x, y in zip(ev[0][2], args)) and v[0] == "S" and v[3] == ev[0][1]
                R.check(G, ok, "trait:%s" % f.path, "%s is not the stream's own operation" % f.path, "%s (%s)" % (f.path, mode))


def buffer_is(p, ptr, size):
    r, path = root(p)
    return strip_casts(r) == strip_casts(root(ptr)[0]) and path in ((), I0) and p[0] == "ptr" and p[3] is not None and strip_casts(p[3]) == size


def stores(R, P):
    """who stores the position"""
    G = "position stores"
    OK = {"types::Stream": tuple(ST + x for x in ("read", "write", "skip", "seek")), "stream::CustomStream": ("<stream::CustomStream as std::io::",)}
    n = 0
    for f in P.local_fns():
        for b in f.blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                if any(isinstance(e, list) and e[0] == "." and e[2] == "m_byte_offset" for e in s[1][1:]):
                    n += 1
                    ok = f.path.startswith(tuple(x for v in OK.values() for x in v)) or not known(P, f.path)
                    R.check(G, ok, "store:%s" % f.path, "%s stores a stream position" % f.path, f.path)
                rv = s[2]
                if rv[0] == "ref" and rv[1] == "mut" and any(isinstance(e, list) and e[0] == "." and e[2] == "m_byte_offset" for e in rv[2][1:]):
                    n += 1
                    ok = f.path.startswith(tuple(x for v in OK.values() for x in v)) or not known(P, f.path)
                    R.check(G, ok, "borrow:%s" % f.path, "%s borrows a stream position for writing" % f.path, f.path)
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] in OK:
                    i = field(P, rv[1][1], "m_byte_offset")
                    o = rv[2][i]
                    R.check(G, o[0] == "k" and o[1].get("c", {}).get("v") == 0, "new:%s" % f.path, "%s makes a stream that does not start at position 0" % f.path, "new in %s" % f.path)
    R.floor(G, 8)
