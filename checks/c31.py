"""C31: the bytes overwritten by the decoding sentinel are saved and given back."""
import sys
from apimodel import *
from mir import Prog, callee, calls, Missing
from lay import Unk

LEVEL = "other"
TECHNIQUE = "abstract interpretation with a typestate of the borrowed bytes, plus an effect analysis of everything that can run while they are borrowed"
NOTE = "every path of the code-block decoder saves before it overwrites and restores before the next segment and before it returns"
EXPLANATION = """opj_mqc_init_dec and opj_mqc_raw_init_dec are interpreted: on every path the bytes behind the segment are copied to the decoder's
backup field with their old values before anything is stored there, the two end-marker bytes are stored, and no other byte is changed;
opq_mqc_finish_dec is interpreted: exactly these bytes get exactly the saved values. Every function that sets up or gives back (directly or
through helpers) is interpreted path by path with a typestate (given back / borrowed, and by which decoder): set-up only when given back, giving
back only when borrowed and by the same decoder, and no return while borrowed. Everything that can be called while bytes are borrowed (closure
of the call graph, including closures handed to library functions) is scanned: no store to the fields that hold the end and the saved bytes,
no store of a byte through a pointer, no block copy, no release of memory, no further set-up, no call through a pointer."""
ASSUMPTIONS = ["a panic inside a coding pass ends the decoding; the bytes are then not read again",
               "code-block bytes are reached as bytes only (the sample and flag arrays of the decoder are separate objects)"]

MQC = "opj_mqc"
SETUP = ("opj_mqc_init_dec", "opj_mqc_raw_init_dec")
GIVE = ("opq_mqc_finish_dec",)
U8 = "u8"


def mqc_type(P):
    for n in P.adts:
        if n.endswith("::" + MQC):
            return n
    raise Missing("struct " + MQC)


def fidx(P, tid, name):
    for i, (n, t) in enumerate(P.fields(tid, 0)):
        if n == name:
            return i, t
    raise Missing("field " + name)


def bytes_of(I, s, base):
    """cells reached through a byte pointer after a path: {index: value}"""
    r = {}
    for b, m in s.mem.items():
        if isinstance(b, tuple) and len(b) == 2 and b[0] == base:
            r[b[1]] = I.resolve(s, m[1])
    return r


def get(I, s, base, off, k):
    """the byte k after base+off"""
    m = s.mem.get((base, off))
    if m is not None and m[1][0] == "arr":
        return I.resolve(s, I.elem(s, m[1], K(k)))
    return I.resolve(s, rdp(I, s, ("ptr", base, (("i", add(off, K(k))),), None)))


def orig(v):
    """(base, offset) when v is a byte of memory nothing was stored to yet"""
    if v[0] != "S":
        return None
    if v[2] == "mem" and len(v) == 5:
        return v[3], v[4]
    if v[2] == "el" and v[3][0] == "S" and v[3][2] == "mem" and len(v[3]) == 5:
        return v[3][3], add(v[3][4], v[4])
    return None


def models(I, P):
    """byte copies of constant length"""
    oc = I.on_call

    def step(p, i):
        return ("ptr", p[1], p[2] + (("i", K(i)),), None) if p[2] == I0 and I.p is None else ("ptr", p[1], p[2][:-1] + (("i", add(p[2][-1][1], K(i))),), None)

    def on_call(I, st, path, key, a, rt, t, fn, bb):
        w = (path or "").split("::")[-1]
        n = d = s = None
        if w in ("copy_from_slice", "clone_from_slice") and len(a) == 2:
            d, s = a
            n = d[3] if d[0] == "ptr" else None
            if n is not None and (s[0] != "ptr" or s[3] != n):
                n = None
        elif w in ("memcpy", "memmove", "copy_nonoverlapping", "copy") and len(a) == 3:
            d, s, n = a
            if w.startswith("copy"):
                d, s = s, d
        elif w == "fill" and len(a) == 2 and a[0][0] == "ptr" and a[0][3] is not None and a[0][3][0] == "k" and a[0][3][1] <= 64 or w in ("memset", "write_bytes") and a[2][0] == "k" and a[2][1] <= 64 and a[0][0] == "ptr":
            v = a[1][3] if a[1][0] == "cast" else a[1]
            for i in range((a[0][3] if w == "fill" else a[2])[1]):
                write(I, st, a[0], i, v)
            return [(st, a[0] if w == "memset" else ("agg", "tuple", 0, ()))]
        elif w in ("ptr_offset_from_unsigned", "ptr_offset_from") and a[0][0] == "ptr" and a[1][0] == "ptr" and a[0][1] == a[1][1] and a[0][2][:-1] == a[1][2][:-1]:
            x, y = a[0][2][-1][1], a[1][2][-1][1]
            if x[0] == "k" and y[0] == "k":
                return [(st, K(x[1] - y[1]))]
        elif w in ("integer_min", "min") and a[0][0] == "k" and a[1][0] == "k":
            return [(st, K(min(a[0][1], a[1][1])))]
        if n is not None and n[0] == "k" and 0 < n[1] <= 64 and d[0] == "ptr" and s[0] == "ptr":
            vs = [read(I, st, s, i) for i in range(n[1])]
            for i, v in enumerate(vs):
                write(I, st, d, i, v)
            return [(st, d if w.startswith("mem") else ("agg", "tuple", 0, ()))]
        return oc(I, st, path, key, a, rt, t, fn, bb)
    I.on_call = on_call


def spot(I, st, p, i):
    """the place of element i behind a thin or wide pointer"""
    m = I.resolve(st, I.rd(st, p[1], p[2]))
    if m[0] == "arr" or m[0] == "S" and m[1] is not None and m[1] >= 0 and I.p.types[m[1]]["k"] == "array":
        return p[2] + (("i", K(i)),)
    return p[2][:-1] + (("i", add(p[2][-1][1], K(i))),) if p[2] and p[2][-1][0] == "i" else p[2] + (("i", K(i)),)


def read(I, st, p, i):
    return I.resolve(st, I.rd(st, p[1], spot(I, st, p, i)))


def write(I, st, p, i, v):
    I.wr(st, p[1], spot(I, st, p, i), v)


def changed(I, s, base):
    """offsets from base that hold something else than before: {offset: value}"""
    r = {}
    for b, m in s.mem.items():
        if isinstance(b, tuple) and len(b) == 2 and b[0] == base:
            v = I.resolve(s, m[1])
            if v[0] == "arr":
                for i, x in v[3]:
                    r[add(b[1], i)] = I.resolve(s, x)
                v = v[2]
                if v[0] == "S" and v[2] == "mem":
                    continue
                r[("?", b[1])] = v
            elif orig(v) != (base, b[1]) and not (v[0] == "S" and v[2] == "mem"):
                r[b[1]] = v
        elif isinstance(b, tuple) and b[0] == "objs" and b[1] == base and b in s.mem and m[0] and isinstance(m[0], tuple) and m[0][0] == "g":
            r[("?", "any")] = m[0]
    return r


def borrow(R, P):
    """what the set-up and the giving back do to the bytes"""
    G = "saving"
    sizes = set()
    for nm in SETUP:
        f = P.find("mqc::" + nm)
        I = Api(P, lambda p: False, max_states=80).interp()
        models(I, P)
        st = State(I.cx)
        args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        mqc, bp, ln, ex = args
        tid = P.pointee(f.locals[1])
        bi, bt = fidx(P, tid, "backup")
        ei, _ = fidx(P, tid, "end")
        n = P.types[bt].get("len")
        sizes.add(n)
        outs = [s for s, v in I.exec_fn(f, args, st) if not s.dead and s.feasible()]
        bad = set() if outs else {"never returns"}
        for s in outs:
            o = rdp(I, s, mqc)
            e = I.as_ptr(I.resolve(s, I.field(s, o, ei, "end")))
            if e != ("ptr", bp, (("i", ln),), None):
                bad.add("the end of the segment is not where its bytes end")
            b = I.resolve(s, I.field(s, o, bi, "backup"))
            ch = changed(I, s, bp)
            for k in range(n):
                if orig(I.resolve(s, I.elem(s, b, K(k)))) != (bp, add(ln, K(k))):
                    bad.add("byte %d after the segment is not saved before it is overwritten" % k)
            for off, v in ch.items():
                if off not in [add(ln, K(k)) for k in range(n)]:
                    bad.add("a byte is overwritten that is not saved")
            for k in range(2):
                if ch.get(add(ln, K(k))) != K(255):
                    bad.add("no end marker is put after the segment")
        if n != 2:
            bad.add("%d bytes are borrowed; the buffers have two to spare" % n)
        R.check(G, not bad, "%s:saves" % nm, "%s: %s" % (nm, "; ".join(sorted(bad))), "%s saves %d bytes and puts the marker (%d paths)" % (nm, n, len(outs)))
    for nm in GIVE:
        f = P.find("mqc::" + nm)
        I = Api(P, lambda p: False, max_states=80).interp()
        models(I, P)
        st = State(I.cx)
        mqc = I.sym(f.locals[1], "arg", 1)
        tid = P.pointee(f.locals[1])
        bi, bt = fidx(P, tid, "backup")
        ei, _ = fidx(P, tid, "end")
        n = P.types[bt].get("len")
        o = rdp(I, st, mqc)
        b0, e0 = I.resolve(st, I.field(st, o, bi, "backup")), I.resolve(st, I.field(st, o, ei, "end"))
        outs = [s for s, v in I.exec_fn(f, [mqc], st) if not s.dead and s.feasible()]
        bad = set() if outs else {"never returns"}
        for s in outs:
            ch = changed(I, s, e0)
            want = {K(k): I.elem(s, b0, K(k)) for k in range(n)}
            for k in want:
                if ch.get(k) != want[k]:
                    bad.add("byte %d after the segment does not get its saved value back" % k[1])
            if set(ch) - set(want):
                bad.add("other bytes are written")
        R.check(G, not bad, "%s:gives back" % nm, "%s: %s" % (nm, "; ".join(sorted(bad))), "%s gives back %d bytes" % (nm, n))


# ------------------------------------------------------------- pairing
class Flow:
    def __init__(self, P, users):
        self.P, self.users = P, users
        self.during = {}            # functions that run while bytes are borrowed
        self.bad = {}

    def run(self, f):
        P = self.P
        self.bad = {}
        I = Interp(P, inline_std=True, max_states=120)
        events_noop(I)
        mt = P.tybyname.get("u32")
        flag = ("obj", mt, ("borrowed",))
        who = ("obj", f.locals[1], ("by",))

        def state(st):
            v = I.resolve(st, I.rd(st, flag, I0))
            return v[1] if v[0] == "k" else None

        def put(st, v):
            I.wr(st, flag, I0, K(v))

        def on_call(I, st, path, key, a, rt, t, fn, bb):
            if path is None:
                if state(st) != 0:
                    self.during.setdefault("<fnptr>", fn.path)
                I_ = [I._havoc_reach(st, x, ("call", "ptr", fn.key, bb)) for x in a]
                return [(st, I.fresh(st, rt, "ret", "fnptr", fn.key, bb))]
            w = path.split("::")[-1]
            if is_log(path):
                return [(st, I.fresh(st, rt, "log", path, fn.key, bb))]
            if w in SETUP and known(P, path):
                if a[3][0] != "k" or a[3][1] < self.n:
                    self.bad.setdefault("room", "%s does not vouch for room for the %d bytes that are overwritten" % (fn.path, self.n))
                if state(st) != 0:
                    self.bad.setdefault("set up twice", "%s sets up the next segment while bytes of the last are still overwritten" % fn.path)
                put(st, 1)
                I._havoc_reach(st, a[0], ("call", path))
                I.wr(st, who, I0, a[0])
                return [(st, I.fresh(st, rt, "ret", path, fn.key, bb))]
            if w in GIVE and known(P, path):
                if state(st) != 1:
                    self.bad.setdefault("given back twice", "%s gives back bytes that are not borrowed on every path" % fn.path)
                if I.resolve(st, I.rd(st, who, I0)) != a[0]:
                    self.bad.setdefault("other decoder", "%s gives back the bytes of another decoder than it set up" % fn.path)
                put(st, 0)
                return [(st, I.fresh(st, rt, "ret", path, fn.key, bb))]
            if key in self.users:
                return None
            cf = P.fns.get(key)
            if cf is not None and not cf.d.get("local", True) is False and cf.path in self.local:
                if state(st) != 0:
                    self.during.setdefault(key, fn.path)
                for i, x in enumerate(a):
                    if i < cf.argc and P.types[cf.locals[i + 1]].get("k") == "ref" and not P.types[cf.locals[i + 1]].get("m"):
                        continue
                    I._havoc_reach(st, x, ("call", path, fn.key, bb))
                return [(st, I.fresh(st, rt, "ret", path, fn.key, bb))]
            if w in EFFECT and state(st) != 0:
                self.during.setdefault(path, fn.path)
            return None
        I.on_call = on_call

        def on_store(I, st, base, path, v):
            if base in (flag, who) or state(st) == 0:
                return
            if path and path[-1][0] == "f" and path[-1][2] in ("end", "backup"):
                self.bad.setdefault("lost", "%s changes what was saved while the bytes are borrowed" % f.path)
            if base[0] == "S" and I.ptee(base[1]) is not None and P.types[I.ptee(base[1])]["n"] == U8:
                self.bad.setdefault("stored", "%s stores into code-block bytes while the end marker is set" % f.path)
        I.on_store = on_store
        I.untracked = None
        st = State(I.cx)
        st.mem[("objs", flag)] = (0, (K(0),))
        st.mem[(flag, K(0))] = (mt, K(0))
        st.mem[("objs", who)] = (0, (K(0),))
        st.mem[(who, K(0))] = (f.locals[1], NULL)
        args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        outs = [s for s, v in I.exec_fn(f, args, st) if not s.dead and s.feasible()]
        for s in outs:
            if state(s) != 0:
                self.bad.setdefault("not given back", "%s returns on a path with the bytes after a segment still overwritten" % f.path)
        return len(outs)


EFFECT = ("memcpy", "memmove", "memset", "copy_nonoverlapping", "copy", "write_bytes", "copy_from_slice", "clone_from_slice", "fill", "swap", "replace", "free", "realloc", "opj_free", "opj_realloc", "opj_aligned_free")


def place_types(P, f, pl):
    t, var, r = f.locals[pl[0]], 0, [f.locals[pl[0]]]
    for p in pl[1:]:
        k = P.types[t]
        if p == "*":
            t = P.pointee(t)
        elif p[0] == ".":
            t = P.fields(t, var)[p[1]][1] if k["k"] == "adt" else k["a"][p[1]] if k["k"] == "tuple" else None
            var = 0
        elif p[0] in ("[]", "[c]"):
            t = k.get("t") or (k.get("a") or [None])[0]
        elif p[0] == "as":
            var = p[1]
        else:
            t = None
        r.append(t)
        if t is None:
            break
    return r


def effects(P, f, own):
    """stores of a function that could reach the borrowed bytes or what was saved"""
    r = []
    for b, bl in enumerate(f.blocks):
        if bl.get("c"):
            continue
        pls = [(s[1], s) for s in bl["s"] if s[0] == "="]
        t = bl["t"]
        if t["k"] == "call" and t.get("d"):
            pls.append((t["d"], t))
        for s in bl["s"]:
            if s[0] == "=" and isinstance(s[2], list) and s[2][0] == "ref" and s[2][1] in ("mut", "raw"):
                for p in s[2][2][1:]:
                    if isinstance(p, list) and p[0] == "." and p[2] in ("end", "backup") and P.types[place_types(P, f, s[2][2])[s[2][2].index(p)]]["n"].endswith(MQC):
                        r.append("takes a writable reference to what was saved")
        for pl, s in pls:
            if len(pl) < 2:
                continue
            ts = place_types(P, f, pl)
            for j, p in enumerate(pl[1:]):
                if isinstance(p, list) and p[0] == "." and p[2] in ("end", "backup") and ts[j] is not None and P.types[ts[j]].get("d", "").endswith(MQC):
                    r.append("changes '%s'" % p[2])
            if ts[-1] is not None and P.types[ts[-1]]["n"] == U8 and "*" in pl and (pl[-1] == "*" or pl[-1][0] in ("[]", "[c]") and not any(isinstance(p, list) and p[0] == "." for p in pl)):
                r.append("stores a byte through a pointer")
        if t["k"] == "call":
            c = callee(t)
            if c is None:
                r.append("calls through a pointer")
            elif c.split("::")[-1] in EFFECT:
                r.append("calls " + c.split("::")[-1])
            elif c.split("::")[-1] in SETUP + GIVE and known(P, c):
                r.append("calls " + c.split("::")[-1])
    return r


def pairing(R, P):
    G = "pairing"
    fns = list(P.local_fns())
    byp = {}
    for f in fns:
        byp.setdefault(f.path, []).append(f)
    local = {f.path for f in P.local_fns()}
    callers = {}
    for f in fns:
        for _, t in calls(f):
            c = callee(t)
            if c:
                callers.setdefault(c, set()).add(f.path)
    names = [p for p in local if p.split("::")[-1] in SETUP + GIVE and known(P, p)]
    if len(names) < len(SETUP + GIVE):
        raise Unk("set-up or giving back not found")
    users, todo = set(), list(names)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in users:
                users.add(c)
                todo.append(c)
    R.check(G, "t1::opj_t1_decode_cblk" in users or any(u.startswith("t1::") for u in users), "users", "no code-block decoder sets up segments", "users of the end marker")
    done, todo = set(), sorted({c for n in names for c in callers.get(n, ())} - set(names))
    ukeys = {f.key for p in users for f in byp[p]}
    F = Flow(P, ukeys)
    F.local = local
    mt = next(f for f in fns if f.path in names)
    F.n = P.types[fidx(P, P.pointee(mt.locals[1]), "backup")[1]].get("len")
    npaths = 0
    while todo:
        p = todo.pop()
        if p in done:
            continue
        done.add(p)
        for f in byp[p]:
            npaths += F.run(f)
            if F.bad and set(F.bad) <= {"not given back", "given back twice"} and callers.get(p):
                todo += sorted(callers[p])         # a helper: judged where it is called
                continue
            if F.bad and callers.get(p) and all(c in users for c in callers[p]) and p.split("::")[-1] not in ("opj_t1_decode_cblk",) and "set up twice" not in F.bad and "lost" not in F.bad and "stored" not in F.bad and "other decoder" not in F.bad:
                todo += sorted(callers[p])
                continue
            for k, v in sorted(F.bad.items()):
                R.fail(G, "%s:%s" % (p, k), v)
            if not F.bad:
                R.ok(G, "%s: saved, decoded, given back on every path" % p)
    R.analysed["decoder_paths"] = npaths
    # nothing that runs meanwhile touches the bytes
    own = set(names)
    seen, todo = {}, [(k, v) for k, v in F.during.items()]
    G = "meanwhile"
    while todo:
        k, by = todo.pop()
        if k in seen:
            continue
        seen[k] = by
        f = P.fns.get(k)
        nm = (f.path if f else k).split("::")[-1]
        if k == "<fnptr>" or f is None or f.path not in local:
            if k == "<fnptr>" or nm in EFFECT and by in local:
                R.fail(G, "%s:%s" % (by, nm), "%s calls %s while the bytes after a segment are overwritten" % (by, nm))
            for _, t in calls(f) if f else ():          # closures are reached through the library
                if t.get("key") in P.fns:
                    todo.append((t["key"], f.path))
            continue
        if is_log(f.path) or f.path.startswith("event::"):
            continue
        es = effects(P, f, own)
        R.check(G, not es, "%s:effects" % f.path, "%s, which runs while the bytes after a segment are overwritten, %s" % (f.path, "; ".join(sorted(set(es)))), "%s leaves the bytes alone" % f.path)
        for _, t in calls(f):
            if t.get("key") and callee(t):
                todo.append((t["key"], f.path))
    R.analysed["functions_meanwhile"] = len([k for k in seen if k in P.fns and P.fns[k].path in local])


def run(R):
    sys.setrecursionlimit(20000)
    P = Prog("openjp2", "debug")
    for part, G in ((borrow, "saving"), (pairing, "pairing")):
        try:
            part(R, P)
        except Unk as e:
            R.fail(G, "%s:not understood" % G, str(e)[:150])
    R.floor("saving", 3)
    R.floor("pairing", 2)
    R.floor("meanwhile", 10)
