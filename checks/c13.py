"""C13: messages reach the callback registered for their severity."""
from apimodel import *

LEVEL = "other"
TECHNIQUE = "abstract interpretation (MIR) of the registration functions and of the message dispatch; constant-argument check of every formatted message site against the formatter's rules"
NOTE = ("Registration and dispatch are followed for every severity and every registered/unregistered combination. "
        "Each formatted message site is checked to have a format its arguments satisfy, because the formatter drops a message otherwise.")
EXPLANATION = ("Each exported registration function is interpreted on a symbolic codec: exactly one (callback, data) pair of the event manager changes, to the given values. "
               "Message dispatch is interpreted for each severity: it calls exactly the callback stored by that severity's registration, with the data stored with it, and nothing when none is registered. "
               "At every formatted message site the format string must parse and its conversions must match the argument types, and the severity tested must be the severity written.")
ASSUMPTIONS = ["the sprintf crate formats as its source states (conversion/argument type rules transcribed from format.rs)"]

SEV = {"Error": "opj_set_error_handler", "Warning": "opj_set_warning_handler", "Info": "opj_set_info_handler"}
EM = "event::opj_event_mgr"


def run(R):
    P = Prog("openjp2", "release")
    pairs = registration(R, P)
    dispatch(R, P, pairs)
    defaults(R, P)
    sites(R, P)
    R.floor("registration", 3)
    R.floor("dispatch", 6)
    R.floor("message sites", 100)


def fields(P):
    return [f["n"] for f in P.adts[EM]["v"][0]["f"]]


def registration(R, P):
    pairs = {}
    names = fields(P)
    for sev, op in SEV.items():
        f = P.find("openjpeg::" + op)
        I = Interp(P, merge=False)
        st = State(I.cx)
        a = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        st.assume(("isnull", a[0]), False)
        n = 0
        for s, r in I.exec_fn(f, a, st):
            n += 1
            cod = [(k, s.mem[k][1]) for k in s.mem if k[0] != "objs" and k[0] != "L" and strip_casts(k[0]) == a[0]]
            got = {}
            other = []
            for k, v in cod:
                base = k[0]
                mi = next(i for i, x in enumerate(P.adts["codec::Codec"]["v"][0]["f"]) if x["n"] == "m_event_mgr")
                m = I.field(s, v, mi, "m_event_mgr")
                o = I.field(s, ("S", P.tybyname["codec::Codec"], "mem", base, K(0)), mi, "m_event_mgr")
                for i, nm in enumerate(names):
                    x, y = I.field(s, m, i, nm), I.field(s, o, i, nm)
                    if x != y:
                        got[nm] = x
                for i, x in enumerate(P.adts["codec::Codec"]["v"][0]["f"]):
                    if i != mi and I.field(s, v, i, x["n"]) != I.field(s, ("S", P.tybyname["codec::Codec"], "mem", base, K(0)), i, x["n"]):
                        other.append(x["n"])
            cb = [nm for nm, x in got.items() if x == a[1]]
            dt = [nm for nm, x in got.items() if x == a[2]]
            bad = None
            if other:
                bad = "changes %s of the codec" % other[0]
            elif len(cb) != 1 or len(dt) != 1 or len(got) != 2:
                bad = "sets %s; it must store the callback and its data and change nothing else" % (sorted(got) or "nothing")
            elif r != K(1):
                bad = "does not report success"
            else:
                pairs[sev] = (cb[0], dt[0])
            R.check("registration", bad is None, op, "%s %s" % (op, bad), op)
        R.check("registration", n > 0, op + ":paths", "%s has no path for a valid codec" % op)
    flat = [x for p in pairs.values() for x in p]
    R.check("registration", len(set(flat)) == 6, "distinct", "two severities share storage: %s" % pairs, "callbacks stored separately")
    return pairs


def manager(I, P, st, on, pairs):
    """a manager object with the given severities registered"""
    tid = P.tybyname[EM]
    fs = []
    for i, f in enumerate(P.adts[EM]["v"][0]["f"]):
        nm = f["n"]
        sev = next((s for s, p in pairs.items() if p[0] == nm), None)
        if sev is None:
            fs.append(I.sym(f["t"], "data", nm))
        elif sev in on:
            fs.append(("agg", "std::option::Option", 1, (("S", None, "handler", sev),)))
        else:
            fs.append(("agg", "std::option::Option", 0, ()))
    return I.newobj(st, tid, "mgr", ("agg", EM, 0, tuple(fs))), fs


def dispatch(R, P, pairs):
    if len(pairs) != 3:
        return
    names = fields(P)
    vs = {v["n"]: i for i, v in enumerate(P.adts["consts::event::EventType"]["v"])}
    f = P.find(EM + "::msg_write")
    en = P.find(EM + "::is_enabled")
    for sev in SEV:
        if sev not in vs:
            raise Missing("severity " + sev)
        for on in ((), ("Error",), ("Warning",), ("Info",), ("Error", "Warning"), ("Error", "Info"), ("Warning", "Info"), ("Error", "Warning", "Info")):
            what = "%s message with %s registered" % (sev, "+".join(on) or "nothing")
            I = Interp(P, merge=False)
            calls_ = []

            def on_call(I, st, path, key, args, rt, t, fn, bb):
                if path == "<fnptr>":
                    st.ev("callback", I.operand(st, st.notes["frame"], t["fp"]) if "frame" in st.notes else None, tuple(args))
                    return [(st, I.fresh(st, rt, "cb"))]
                if "CString" in path or path.startswith("alloc::ffi") or path.startswith("std::ffi"):
                    return [(st, I.fresh(st, rt, "c", path))] if t.get("t") is not None else []
                return None
            I.on_call = on_call
            # the called pointer: remember it when the call is reached
            orig = I.call

            def call(st, fr, fn, bb, t, depth):
                if (t.get("rs") or t.get("fn")) is None:
                    v = I.operand(st, fr, t["fp"])
                    args = tuple(I.operand(st, fr, a) for a in t["a"])
                    st.ev("callback", v, args)
                    return [(st, I.fresh(st, I.ret_tid(fn, t), "cb"))]
                return orig(st, fr, fn, bb, t, depth)
            I.call = call
            st = State(I.cx)
            mgr, fs = manager(I, P, st, on, pairs)
            ty = ("agg", "consts::event::EventType", vs[sev], ())
            args = [mgr, ty] + [I.sym(f.locals[i], "arg", i) for i in range(3, f.argc + 1)]
            outs = I.exec_fn(f, args, st)
            for s, r in outs:
                ev = [e for e in s.evlist() if e[0] == "callback"]
                if sev not in on:
                    R.check("dispatch", not ev, what, "a %s message calls a callback although none is registered for it (%s)" % (sev, "+".join(on)), what)
                    continue
                data = fs[names.index(pairs[sev][1])]
                bad = None
                if len(ev) != 1:
                    bad = "is delivered %d times" % len(ev)
                elif ev[0][1] != ("S", None, "handler", sev):
                    bad = "goes to %s" % (ev[0][1][3] + "'s callback" if ev[0][1] and ev[0][1][2:3] == ("handler",) else "something else")
                elif len(ev[0][2]) < 2 or ev[0][2][1] != data:
                    bad = "is delivered with other user data"
                R.check("dispatch", bad is None, what, "%s: the message %s" % (what, bad), what)
            R.check("dispatch", bool(outs), what + ":paths", "%s: no path" % what)
            I2 = Interp(P)
            st = State(I2.cx)
            mgr, fs = manager(I2, P, st, on, pairs)
            for s, r in I2.exec_fn(en, [mgr, ty], st):
                R.check("dispatch", r == K(int(sev in on)), what + ":enabled", "is_enabled(%s) is wrong with %s registered" % (sev, "+".join(on) or "nothing"), what + ": enabled")
    for c, sev in (("EVT_ERROR", "Error"), ("EVT_WARNING", "Warning"), ("EVT_INFO", "Info")):
        v = next((x["c"] for k, x in P.consts.items() if k.endswith("event::" + c)), None)
        R.check("dispatch", v is not None and v.get("var") == vs[sev] or v is not None and v.get("v") == vs[sev], c, "%s is not the %s severity" % (c, sev.lower()), c)


def defaults(R, P):
    f = P.find(EM + "::set_default_event_handler")
    I = Interp(P)
    st = State(I.cx)
    p = I.newobj(st, P.tybyname[EM], "mgr", I.sym(P.tybyname[EM], "m0"))
    for s, r in I.exec_fn(f, [p], st):
        v = I.rd(s, p[1], I0)
        ok = v[0] == "agg" and all(x == NULL or (x[0] == "agg" and x[2] == 0) for x in v[3])
        R.check("registration", ok, "default", "the default event handler still has callbacks or data", "default handlers are empty")


# ------------------------------------------------ message sites
INT = {"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize", "isize"}


def conversions(fmt):
    """the formatter's own parsing: list of (conversion, args popped before it) or None"""
    out, i = [], 0
    while True:
        i = fmt.find("%", i)
        if i < 0:
            return out
        i += 1
        while i < len(fmt) and fmt[i] in "#0- +":
            i += 1
        stars = 0
        if i < len(fmt) and fmt[i] == "*":
            stars, i = stars + 1, i + 1
        else:
            while i < len(fmt) and fmt[i].isdigit():
                i += 1
        if i < len(fmt) and fmt[i] == ".":
            i += 1
            if i < len(fmt) and fmt[i] == "*":
                stars, i = stars + 1, i + 1
            elif i < len(fmt) and fmt[i] in "123456789":
                while i < len(fmt) and fmt[i].isdigit():
                    i += 1
        for l in ("hh", "h", "ll", "l", "q", "L", "j", "z", "Z", "t"):
            if fmt.startswith(l, i):
                i += len(l)
                break
        if i >= len(fmt) or fmt[i] not in "iduoxXeEfFgGcCsSp%":
            return None
        out.append((fmt[i], stars))
        i += 1


def accepts(conv, ty):
    if ty is None:          # a constant argument promoted by the compiler: its type is not kept
        return True
    ty = ty.lstrip("&").replace("mut ", "")
    if conv in "iduoxXp":
        return ty in INT or (conv in "oxXp" and ty.startswith(("*const", "*mut")))
    if conv in "eEfFgG":
        return ty in ("f32", "f64")
    if conv in "cC":
        return ty in ("u8", "i8", "u16", "u32", "char")
    if conv in "sS":
        return ty in ("str", "std::string::String", "String", "std::ffi::CStr", "std::ffi::CString") or ty.endswith("::String") or ty.endswith("CStr") or ty.endswith("CString") or ty.startswith(("*const i8", "*mut i8"))
    return False


class Site:
    def __init__(self, P, f):
        self.P, self.f = P, f
        self.defs = {}
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and len(s[1]) == 1:
                    self.defs.setdefault(s[1][0], []).append(s[2])
            t = b["t"]
            if t["k"] == "call" and t["d"] and len(t["d"]) == 1:
                self.defs.setdefault(t["d"][0], []).append(("call", t))

    def rv(self, o):
        """the rvalue an operand or place stands for, through moves, copies and reborrows"""
        for _ in range(30):
            if o[0] == "k":
                return o
            pl = o[1] if o[0] in ("c", "m") else o
            if len(pl) > 1 and pl[-1] == "*" and len(pl) == 2:
                d = self.defs.get(pl[0], [])
                if len(d) != 1:
                    return None
                r = d[0]
                if r[0] == "ref":
                    o = r[2]
                    continue
                if r[0] == "use":
                    if r[1][0] == "k":
                        return r[1]
                    o = [*r[1][1], "*"]
                    continue
                return r
            if len(pl) != 1:
                return ("place", pl)
            d = self.defs.get(pl[0], [])
            if len(d) != 1:
                return None
            r = d[0]
            if r[0] == "use":
                o = r[1]
                continue
            if r[0] == "ref" and r[2][-1] == "*" and len(r[2]) == 2:
                o = ["c", [r[2][0]]]
                continue
            return r
        return None


def const_str(P, o):
    if o is None or o[0] != "k":
        return None
    c = o[1].get("c")
    if c is None and o[1].get("cn"):
        c = P.consts[o[1]["name"]]["c"]
    return c.get("str") if isinstance(c, dict) else None


def sev_of(P, o):
    if o is None or o[0] != "k":
        return None
    c = o[1].get("c")
    if o[1].get("cn") or c is None:
        c = P.consts[o[1]["name"]]["c"]
    return c.get("var", c.get("v"))


def sites(R, P):
    total = 0
    for f in P.local_fns():
        S = None
        for bb, t in calls(f):
            c = callee(t)
            if c == "sprintf::vsprintf" and t.get("mac") != "fprintf":
                S = S or Site(P, f)
                total += 1
                fmt = const_str(P, S.rv(t["a"][0]))
                key = "%s: %s" % (f.path, (fmt or "?").strip()[:60])
                if fmt is None:
                    R.check("message sites", False, key, "%s formats a message whose format is not a constant" % f.path)
                    continue
                tys = argtypes(P, S, t["a"][1])
                if tys is None:
                    R.check("message sites", False, key, "%s: the arguments of %r cannot be determined" % (f.path, fmt))
                    continue
                R.check("message sites", *fits(fmt, tys, key, f.path))
        severity(R, P, f)
    R.analysed["formatted messages"] = total


def fits(fmt, tys, key, where):
    cv = conversions(fmt)
    if cv is None:
        return False, key, "%s: the format %r is malformed, so the message is dropped" % (where, fmt), key
    need = sum(st + (c != "%") for c, st in cv)
    if need != len(tys):
        return False, key, "%s: the format %r takes %d arguments but is given %d, so the message is dropped" % (where, fmt, need, len(tys)), key
    i = 0
    for c, st in cv:
        for _ in range(st):
            if tys[i] is not None and tys[i] not in INT:
                return False, key, "%s: a width of %r is a %s, so the message is dropped" % (where, fmt, tys[i]), key
            i += 1
        if c == "%":
            continue
        if not accepts(c, tys[i]):
            return False, key, "%s: %%%s of %r is given a %s, so the message is dropped" % (where, c, fmt, tys[i]), key
        i += 1
    return True, key, "", key


def argtypes(P, S, o):
    r = S.rv(o)
    for _ in range(12):
        if r is None:
            return None
        if r[0] == "k":
            c = r[1].get("c") or {}
            c = c.get("ref", c)
            return [] if "zst" in c else [None] * len(c["arr"]) if "arr" in c else None
        if r[0] == "cast":
            r = S.rv(r[2]) if isinstance(r[2], list) else None
            continue
        if r[0] == "ref":
            d = S.defs.get(r[2][0], [])
            if len(d) == 1 and len(r[2]) == 1:
                r = d[0] if d[0][0] != "use" else S.rv(d[0][1])
                continue
            return None
        if isinstance(r, tuple) and r[0] == "call":
            a = r[1]["a"]
            r = S.rv(a[0]) if a else None
            continue
        if r[0] == "agg":
            out = []
            for x in r[2]:
                v = S.rv(x)
                while v is not None and v[0] == "cast" and v[3] == v[4]:
                    v = S.rv(v[2])
                if v is None or v[0] != "cast":
                    return None
                t = P.types[v[4]]
                out.append(P.tn(t["t"]) if t["k"] in ("ref", "ptr") else P.tn(v[4]))
            return out
        return None
    return None


def severity(R, P, f):
    """a message is written with the severity whose callback was tested"""
    en = [(bb, t) for bb, t in calls(f) if callee(t) == EM + "::is_enabled"]
    if not en:
        return
    S = Site(P, f)
    g = f.cfg()
    wr = [(bb, t) for bb, t in calls(f) if callee(t) == EM + "::msg_write"]
    doms = {}
    for bb, t in en:
        nb = t["t"]
        tm = f.blocks[nb]["t"]
        if tm["k"] != "switch":
            continue
        yes = tm["o"]
        for v, tgt in tm["v"]:
            if v != 0:
                yes = tgt
        doms[yes] = (bb, sev_of(P, S.rv(t["a"][1])))
    for bb, t in wr:
        b = bb
        while b is not None:
            if b in doms:
                es, ws = doms[b][1], sev_of(P, S.rv(t["a"][2 - 1]))
                if es is not None and ws is not None:
                    R.check("message severity", es == ws, "%s:%s" % (f.path, "sev"), "%s writes a message with another severity than the one it tested" % f.path, "%s" % f.path)
                break
            nb = g.idom.get(b) if isinstance(g.idom, dict) else g.idom[b]
            if nb == b:
                break
            b = nb
