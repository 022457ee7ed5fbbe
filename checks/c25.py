"""C25: a written file has its headers complete and in the prescribed order."""
import sys
from apimodel import *
from strdom import ngen
import kern

LEVEL = "other"
TECHNIQUE = "typestate over the encoder's procedure lists: abstract interpretation of the start/end operations with every step able to fail, and ghost counters through the tile-part writers"
NOTE = "The lists are followed from their construction to their execution, direct calls included; steps are the baseline's writer functions."
EXPLANATION = ("The start and end of a codestream and of a JP2 file are interpreted: each list of procedures as built on that path, executed step by step with every step succeeding or failing. On each path: validation before any "
               "writing, SOC then SIZ first, COD and QCD once each and before the component overrides, TLM, COM and MCT groups exactly under their conditions, EOC last; signature, file type and header boxes in order, then the room for "
               "the codestream box header, then the codestream; nothing runs after a failing step and the operation fails then. The list executor itself is checked to run the steps in order and stop at the first failure. The header "
               "super box counts the length of its contents and precedes them; the codestream box is filled in at its recorded place with its true length. Tile parts: SOT opens, SOD closes, each written where the last ended, "
               "Psot at offset 6 is the number of bytes of that part, and the bytes handed to the stream are all of them.")
ASSUMPTIONS = ["each part writer reports how many bytes it wrote, at most the room it was given", "the order of bytes inside one segment is the business of C21"]
J, B = "j2k::opj_j2k_", "jp2::opj_jp2_"
LISTS = ("function_list::ProcedureList::<P>::new", "function_list::ProcedureList::<P>::add", "function_list::ProcedureList::<P>::execute")
ENTER = (J + "setup_end_compress", J + "setup_encoding_validation", J + "setup_header_writing", B + "setup_header_writing", B + "setup_encoding_validation", B + "setup_end_header_writing",
         J + "exec", B + "exec")
STEPS_WRITING = "_write_"


def fieldval(I, P, st, base, names):
    """the value of base.a.b.c (base a reference argument)"""
    tid = I.ptee(base[1])
    path = I0
    for n in names:
        fs = P.fields(tid, 0)
        for i, f in enumerate(fs):
            if f[0] == n:
                path += (("f", i, n),)
                tid = f[1]
                break
        else:
            raise Missing("field %s" % n)
    return I.rd(st, base, path)


class Seq:
    def __init__(self, P, enter):
        self.P = P
        self.A = Api(P, lambda p: p not in LISTS and p not in enter and p.startswith(("j2k::", "jp2::", "tcd::", "image::", "stream::", "malloc::")), havoc=False, max_states=600)
        self.I = I = self.A.interp()
        oc = I.on_call

        def on_call(I, st, path, key, args, rt, t, fn, bb):
            r = oc(I, st, path, key, args, rt, t, fn, bb)
            if r is not None and path is not None and self.A.stop(path):
                lo = P.irange(rt) if rt is not None else None
                st.ev("step", path, None, r[0][1], tuple(args))
                # the record of the step is enough
            return r
        I.on_call = on_call
        I.models[LISTS[0]] = self.new
        I.models[LISTS[1]] = self.add
        I.models[LISTS[2]] = self.execute

    def new(self, I, st, a, rt, t, fn, bb, depth, fr):
        k = st.notes.get("nl", 0)
        st.notes["nl"] = k + 1
        return [(st, ("S", None, "plist", k))]

    def add(self, I, st, a, rt, t, fn, bb, depth, fr):
        st.ev("add", rdp(I, st, a[0]), a[1])
        return [(st, ("agg", "tuple", 0, ()))]

    def execute(self, I, st, a, rt, t, fn, bb, depth, fr):
        l = rdp(I, st, a[0])
        todo = [e[2] for e in st.evlist() if e[0] == "add" and e[1] == l]
        done = st.notes.get(("done", l), 0)
        todo = todo[done:]
        outs, cur = [], [st]
        clo = a[1]
        caps = clo[3] if clo[0] == "agg" else ()
        for fv in todo:
            while fv[0] in ("cast",):
                fv = fv[3]
            if fv[0] != "fn":
                st.ev("step", "?", None, None, ())
                return [(st, K(0))]
            nxt = []
            for s in cur:
                s.notes[("done", l)] = s.notes.get(("done", l), done) + 1
                if known(self.P, fv[1]):
                    for ok in (True, False):
                        s2 = s.copy()
                        s2.ev("step", fv[1], ok, None, caps)
                        (nxt if ok else outs).append(s2 if ok else (s2, K(0)))
                else:
                    g = self.P.bypath[fv[1]][0]
                    args = [rdp(I, s, c) if c[0] == "ptr" and root(c)[0][0] == "L" else c for c in caps][:g.argc]
                    for s2, v in I.exec_fn(g, args, s, (fr, "exec", fv[1], s.notes[("done", l)]), depth + 1):
                        for val in (False, True):
                            s3 = s2.copy()
                            c = mk_cmp("eq", v, K(0))
                            d = s3.decide(c)
                            if d is not None and d != val:
                                continue
                            s3.assume(c, val)
                            if s3.dead or not s3.feasible():
                                continue
                            if val:
                                outs.append((s3, K(0)))
                            else:
                                nxt.append(s3)
            cur = nxt
        return outs + [(s, K(1)) for s in cur]

    def run(self, f):
        I = self.I
        st = State(I.cx)
        args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        out = []
        for s, v in I.exec_fn(f, args, st):
            if s.dead or not s.feasible():
                continue
            seq = []
            for e in s.evlist():
                if e[0] != "step":
                    continue
                ok = e[2]
                if ok is None and e[3] is not None:
                    d = s.decide(mk_cmp("eq", e[3], K(0))) if e[3][0] == "S" and self.P.irange(e[3][1]) else None
                    ok = None if d is None else not d
                seq.append((e[1].split("::")[-1], ok, e))
            out.append((s, args, v, seq))
        return out


def stops(seq, v, s):
    """after a failing step nothing runs and the operation fails"""
    for i, (n, ok, e) in enumerate(seq):
        if ok is False and i + 1 < len(seq) and any("_write_" in m or m.startswith("opj_stream_write") or "start_compress" in m for m, _, _ in seq[i + 1:]):
            return "goes on with %s after %s failed" % (next(m for m, _, _ in seq[i + 1:] if "_write_" in m or "stream_write" in m or "start_compress" in m), n)
    if any(ok is False for n, ok, e in seq) and not (v == K(0)) and s.decide(mk_cmp("eq", v, K(0))) is not True:
        return "does not fail although %s did" % next(n for n, ok, e in seq if ok is False)
    if s.decide(mk_cmp("eq", v, K(0))) is not False and not any(ok is False for n, ok, e in seq) and not (seq and v == seq[-1][2][3]):
        if not any(n.startswith(("opj_image_create", "opj_malloc", "opj_calloc")) for n, ok, e in seq[-1:]):
            return "fails although every step succeeded"
    return None


def count(seq, n):
    return sum(1 for m, _, _ in seq if m == n)


def pos(seq, n):
    return next((i for i, x in enumerate(seq) if x[0] == n), None)


def before(seq, a, b):
    i, j = pos(seq, a), pos(seq, b)
    return i is not None and j is not None and i < j


def is_write(n):
    return ("_write_" in n or n.startswith("opj_stream_write")) and n not in ("opj_j2k_write_epc",)


def cond(s, e):
    """True/False when a boolean expression is decided on the path"""
    return s.decide(e)


def truth(s, v, k=0):
    d = s.decide(mk_cmp("eq", v, K(k)))
    return None if d is None else not d


ANY = "free"
# step -> after these
START = {"opj_j2k_write_siz": ("opj_j2k_write_soc",), "opj_j2k_write_cod": ("opj_j2k_write_siz",), "opj_j2k_write_qcd": ("opj_j2k_write_siz",),
         "opj_j2k_write_all_coc": ("opj_j2k_write_cod",), "opj_j2k_write_all_qcc": ("opj_j2k_write_qcd",), "opj_j2k_write_regions": ("opj_j2k_write_siz",),
         "opj_j2k_write_tlm": ("opj_j2k_write_siz",), "opj_j2k_write_poc": ("opj_j2k_write_siz",), "opj_j2k_write_com": ("opj_j2k_write_siz",), "opj_j2k_write_mct_data_group": ("opj_j2k_write_siz",)}
ONCE = ("opj_j2k_write_soc", "opj_j2k_write_siz", "opj_j2k_write_cod", "opj_j2k_write_qcd", "opj_j2k_write_all_coc", "opj_j2k_write_all_qcc", "opj_j2k_write_regions",
        "opj_j2k_create_tcd", "opj_j2k_update_rates", "opj_j2k_build_encoder", "opj_j2k_encoding_validation", "opj_j2k_mct_validation", "opj_j2k_init_info")


def codestream(R, P):
    G = "codestream start"
    f = P.find(J + "start_compress")
    S = Seq(P, ENTER)
    n = 0
    for s, args, v, seq in S.run(f):
        n += 1
        I = S.I
        tlm = fieldval(I, P, s, args[0], ("m_specific_param", "m_encoder", "m_TLM"))
        com = fieldval(I, P, s, args[0], ("m_cp", "comment"))
        rsiz = fieldval(I, P, s, args[0], ("m_cp", "rsiz"))
        bad = stops(seq, v, s)
        names = [m for m, _, _ in seq]
        wr = [m for m in names if is_write(m)]
        full = s.decide(mk_cmp("eq", v, K(0))) is False
        if bad is None and wr:
            if wr[0] != "opj_j2k_write_soc":
                bad = "writes %s before SOC" % wr[0]
            elif len(wr) > 1 and wr[1] != "opj_j2k_write_siz":
                bad = "writes %s between SOC and SIZ" % wr[1]
            for chk in ("opj_j2k_encoding_validation", "opj_j2k_mct_validation", "opj_j2k_build_encoder"):
                if bad is None and not before(seq, chk, "opj_j2k_write_soc"):
                    bad = "writes before %s" % chk
            for m, aft in START.items():
                for a in aft:
                    if bad is None and m in names and not before(seq, a, m):
                        bad = "writes %s before %s" % (m, a)
            for m in set(wr):
                if bad is None and count(seq, m) > 1:
                    bad = "writes %s twice" % m
        if bad is None and full:
            for m in ONCE:
                if count(seq, m) != 1:
                    bad = "completes with %s run %d times" % (m, count(seq, m))
                    break
            t = truth(s, tlm)
            if bad is None and (t is None or t != (count(seq, "opj_j2k_write_tlm") == 1)):
                bad = "does not write TLM exactly when tile-part lengths are asked for"
            c = s.decide(("isnull", com))
            if bad is None and (c is None or c == (count(seq, "opj_j2k_write_com") == 1)):
                bad = "does not write COM exactly when there is a comment"
            vals = possible(s, rsiz, 1 << 16)
            want = count(seq, "opj_j2k_write_mct_data_group") == 1
            if bad is None and not (vals == (vals & MCT) if want else vals & MCT == 0):
                bad = "does not write the MCT group exactly with the MCT extension"
        R.check(G, bad is None, "start:%s" % bad, "opj_j2k_start_compress %s" % bad, "path %d (%s)" % (n, ",".join(names)[-60:]))
    f = P.find(J + "end_compress")
    G = "codestream end"
    S = Seq(P, ENTER)
    for s, args, v, seq in S.run(f):
        tlm = fieldval(S.I, P, s, args[0], ("m_specific_param", "m_encoder", "m_TLM"))
        bad = stops(seq, v, s)
        wr = [m for m, _, _ in seq if is_write(m)]
        full = s.decide(mk_cmp("eq", v, K(0))) is False
        if bad is None and wr and wr[0] != "opj_j2k_write_eoc":
            bad = "writes %s before EOC" % wr[0]
        if bad is None and [m for m in wr if m not in ("opj_j2k_write_eoc", "opj_j2k_write_updated_tlm")]:
            bad = "writes %s after EOC" % [m for m in wr if m not in ("opj_j2k_write_eoc", "opj_j2k_write_updated_tlm")][0]
        if bad is None and full:
            t = truth(s, tlm)
            if count(seq, "opj_j2k_write_eoc") != 1:
                bad = "completes with EOC written %d times" % count(seq, "opj_j2k_write_eoc")
            elif t is None or (count(seq, "opj_j2k_write_updated_tlm") == 1) != t:
                bad = "does not fill in TLM exactly when tile-part lengths are asked for"
            elif count(seq, "opj_j2k_end_encoding") != 1:
                bad = "completes without opj_j2k_end_encoding"
        if bad is None and pos(seq, "opj_j2k_end_encoding") is not None and any(is_write(m) for m, _, _ in seq[pos(seq, "opj_j2k_end_encoding"):]):
            bad = "writes after the encoder is gone"
        if bad is None and pos(seq, "opj_j2k_destroy_header_memory") is not None and any(is_write(m) for m, _, _ in seq[pos(seq, "opj_j2k_destroy_header_memory"):]):
            bad = "writes after its memory is gone"
        R.check(G, bad is None, "end:%s" % bad, "opj_j2k_end_compress %s" % bad, "path (%s)" % ",".join(m for m, _, _ in seq)[-60:])


TABLES = {}


def table(e, sym, n):
    """the values of sym for which a condition holds, as a bit set; None when it depends on something else"""
    if (e, sym) not in TABLES:
        r = 0
        for v in range(n):
            x = value(e, sym, v)
            if x is None:
                r = None
                break
            if x:
                r |= 1 << v
        TABLES[(e, sym)] = r
    return TABLES[(e, sym)]


def value(e, sym, v):
    if e == sym:
        return v
    t = e[0]
    if t == "k":
        return e[1]
    if t == "lin":
        out = e[1]
        for a, k in e[2]:
            x = value(a, sym, v)
            if x is None:
                return None
            out += k * x
        return out
    if t == "wrap":
        x = value(e[2], sym, v)
        lo, hi = e[1]
        return None if x is None else (x - lo) % (hi - lo + 1) + lo
    if t == "not":
        x = value(e[1], sym, v)
        return None if x is None else not x
    if t == "cmp":
        a, b = value(e[2], sym, v), value(e[3], sym, v)
        return None if a is None or b is None else {"lt": a < b, "le": a <= b, "eq": a == b, "ne": a != b}[e[1]]
    if t in ("and", "or", "xor", "shr", "shl", "mul", "div", "rem", "band", "bor") and len(e) == 3:
        a, b = value(e[1], sym, v), value(e[2], sym, v)
        if a is None or b is None or t in ("div", "rem") and b == 0:
            return None
        return {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shr": lambda: a >> b, "shl": lambda: a << b, "mul": lambda: a * b, "div": lambda: a // b,
                "rem": lambda: a % b, "band": lambda: a and b, "bor": lambda: a or b}[t]()
    return None


def possible(s, sym, n):
    """the values of a 16-bit field with which a path is taken"""
    r = (1 << n) - 1
    for e, val in s.facts.items():
        if contains(e, lambda x: x == sym):
            t = table(e, sym, n)
            if t is not None:
                r &= t if val else ~t
    for c in s.cons:
        if contains(c, lambda x: x == sym):
            t = table(mk_not(mk_cmp("lt", c, K(0))), sym, n)
            if t is not None:
                r &= t
    return r


MCT = sum(1 << v for v in range(1 << 16) if v & 0x8100 == 0x8100)


def files(R, P):
    G = "file start"
    f = P.find(B + "start_compress")
    S = Seq(P, ENTER)
    order = ["opj_jp2_write_jp", "opj_jp2_write_ftyp", "opj_jp2_write_jp2h", "opj_jpip_skip_iptr", "opj_jp2_skip_jp2c", "opj_j2k_start_compress"]
    for s, args, v, seq in S.run(f):
        jpip = fieldval(S.I, P, s, args[0], ("jpip_on",))
        bad = stops(seq, v, s)
        names = [m for m, _, _ in seq if m in order or is_write(m)]
        full = s.decide(mk_cmp("eq", v, K(0))) is False or names[-1:] == ["opj_j2k_start_compress"]
        want = [m for m in order if m != "opj_jpip_skip_iptr" or truth(s, jpip) is True]
        if bad is None and names != want[:len(names)]:
            bad = "runs %s" % ", ".join(names)
        if bad is None and full and names != want:
            bad = "completes with %s" % ", ".join(names)
        if bad is None and full and v != seq[-1][2][3] and s.decide(mk_cmp("eq", v, K(0))) is not (None if seq[-1][1] is None else not seq[-1][1]):
            bad = "does not answer what starting the codestream answered"
        if bad is None and names and not before(seq, "opj_jp2_default_validation", names[0]):
            bad = "writes before the parameters are validated"
        if bad is None and full and truth(s, jpip) is None:
            bad = "does not look at the JPIP setting"
        R.check(G, bad is None, "jp2 start:%s" % bad, "opj_jp2_start_compress %s" % bad, "path (%s)" % ",".join(names)[-60:])
    G = "file end"
    f = P.find(B + "end_compress")
    S = Seq(P, ENTER)
    for s, args, v, seq in S.run(f):
        bad = stops(seq, v, s)
        names = [m for m, _, _ in seq if is_write(m) or m == "opj_j2k_end_compress"]
        want = ["opj_j2k_end_compress", "opj_jp2_write_jp2c"]
        jpip = fieldval(S.I, P, s, args[0], ("jpip_on",))
        full = s.decide(mk_cmp("eq", v, K(0))) is False or v == seq[-1][2][3]
        extra = [m for m in names if m not in want and m not in ("opj_jpip_write_iptr", "opj_jp2_write_fidx", "opj_jp2_write_cidx", "opj_jpip_write_cidx", "opj_jpip_write_fidx")]
        core = [m for m in names if m in want]
        if bad is None and extra:
            bad = "writes %s" % extra[0]
        elif bad is None and core != want[:len(core)]:
            bad = "runs %s" % ", ".join(names)
        elif bad is None and full and core != want:
            bad = "completes with %s" % ", ".join(names)
        R.check(G, bad is None, "jp2 end:%s" % bad, "opj_jp2_end_compress %s" % bad, "path (%s)" % ",".join(names)[-60:])


def executor(R, P):
    """the list runs its procedures one after the other, in order, and stops at the first that fails"""
    G = "list executor"
    for f in P.fns.values():
        if f.path == LISTS[2] and f.inst is not None:
            I = Interp(P, inline_std=False, max_states=100, loop_events=True)
            loops = []

            def on_call(I, st, path, key, args, rt, t, fn, bb):
                nm = (path or "").split("::")[-1]
                if nm == "drain":
                    r, pth = root(args[0])
                    whole = any(a[0] == "agg" and a[1] == "std::ops::RangeFull" for a in args)
                    st.ev("source", r, pth, whole)
                    return [(st, I.fresh(st, rt, "iter", fn.key, bb))]
                if nm in ("into_iter", "take"):
                    if nm == "take":
                        r, pth = root(args[0])
                        st.ev("source", r, pth, True)
                    return [(st, I.fresh(st, rt, "iter", fn.key, bb) if nm == "take" else args[0])]
                if nm == "next":
                    some, none = st.copy(), st.copy()
                    v = I.fresh(some, None, "item", fn.key, bb)
                    some.ev("next", v)
                    none.ev("next", None)
                    return [(some, ("agg", "std::option::Option", 1, (v,))), (none, ("agg", "std::option::Option", 0, ()))]
                if nm in ("all", "any") and len(args) == 2 and "Iterator" in path:
                    # one round stands for every round: it stops when the closure answers otherwise
                    some, none = st.copy(), st.copy()
                    v = I.fresh(some, None, "item", fn.key, bb)
                    some.ev("next", v)
                    none.ev("next", None)
                    res = [(none, K(int(nm == "all")))]
                    for s2, r in I.fn_trait_call(some, ("rounds",), fn, bb, t, [args[1], ("agg", "tuple", 0, (v,))], rt, 1) or ():
                        if r not in (K(0), K(1)):
                            return None
                        if (r == K(1)) == (nm == "all"):
                            loops.append(s2)
                        else:
                            res.append((s2, r))
                    return res
                if "{closure" in (key or path or "") or nm in ("call_mut", "call"):
                    v = args[1][3][0] if len(args) > 1 and args[1][0] == "agg" else None
                    y, n = st.copy(), st.copy()
                    y.ev("eval", v, True)
                    n.ev("eval", v, False)
                    return [(y, K(1)), (n, K(0))]
                return None
            I.on_call = on_call
            I.loop_events = True
            I.on_loop_back = lambda s, fn, h, lid: loops.append(s)
            args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
            outs = [(s, v) for s, v in I.exec_fn(f, args, State(I.cx)) if not s.dead]
            for s, v in [(s, None) for s in loops] + outs:
                ev = [e for e in s.evlist() if e[0] in ("source", "next", "eval")]
                bad = None
                if len(ev) < 2 or ev[0][0] != "source" or not ev[0][3] or ev[0][1] != args[0]:
                    bad = "does not go through its whole list"
                last = ev[-2:]
                if bad is None and v is None and not (last[0][0] == "next" and last[1] == ("eval", last[0][1], True)):
                    bad = "goes on without a success"
                elif bad is None and v == K(1) and ev[-1] != ("next", None):
                    bad = "reports success before the end"
                elif bad is None and v == K(0) and not (last[0][0] == "next" and last[1] == ("eval", last[0][1], False)):
                    bad = "reports failure although nothing failed"
                elif bad is None and v not in (None, K(0), K(1)):
                    bad = "leaves its answer open"
                R.check(G, bad is None, "execute:%s" % bad, "ProcedureList::execute %s" % bad, "path of execute")
    for suffix, owner in (("j2k::opj_j2k_exec", J), ("jp2::opj_jp2_exec", B)):
        for f in P.local_fns():
            if not (f.path.startswith(suffix + "::{closure") and f.inst is None):
                continue
            A = Api(P, lambda p: False)
            I = A.interp()
            orig = I.call

            def call(st, fr, fn, bb, t, depth):
                if (t.get("rs") or t.get("fn")) is None:
                    v = I.operand(st, fr, t["fp"])
                    r = I.fresh(st, I.ret_tid(fn, t), "proc", fn.key, bb)
                    st.ev("proc", v, tuple(I.operand(st, fr, a) for a in t["a"]), r)
                    return [(st, r)]
                return orig(st, fr, fn, bb, t, depth)
            I.call = call
            args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
            for s, v in I.exec_fn(f, args, State(I.cx)):
                ev = [e for e in s.evlist() if e[0] == "proc"]
                ok = len(ev) == 1 and contains(ev[0][1], lambda x: x == args[1])
                if ok:
                    z = mk_cmp("eq", ev[0][3], K(0))
                    ok = v == mk_not(z) or (v[0] == "k" and s.decide(z) is (v[1] == 0))
                R.check(G, ok, "closure:%s" % suffix, "%s does not take a procedure's answer as its success" % suffix, f.path)


class Lists:
    """small vectors followed element by element"""

    def __init__(self, I):
        n = ("std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T>::new")
        for x in n:
            I.models[x] = self.new
        I.models["std::vec::Vec::<T, A>::push"] = self.push
        for x in ("<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
                  "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::slice::<impl [T]>::iter", "std::slice::<impl [T]>::iter_mut"):
            I.models[x] = self.iter
        for x in ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::next", "<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next"):
            I.models[x] = self.next

    def vec(self, I, st, v):
        while True:
            if v[0] == "S" and v[2] == "vec":
                return v
            if v[0] in ("ptr", "cast"):
                v = rdp(I, st, v) if v[0] == "ptr" else v[3]
                continue
            return None

    def new(self, I, st, a, rt, t, fn, bb, depth, fr):
        k = st.notes.get("nv", 0)
        st.notes["nv"] = k + 1
        return [(st, ("S", None, "vec", k))]

    def push(self, I, st, a, rt, t, fn, bb, depth, fr):
        st.ev("push", self.vec(I, st, a[0]), a[1])
        return [(st, ("agg", "tuple", 0, ()))]

    def iter(self, I, st, a, rt, t, fn, bb, depth, fr):
        return [(st, ("agg", "listiter", 0, (self.vec(I, st, a[0]) or a[0], K(0))))]

    def next(self, I, st, a, rt, t, fn, bb, depth, fr):
        it = rdp(I, st, a[0])
        if it[0] != "agg" or it[1] != "listiter":
            return [(st, I.fresh(st, rt, "next", fn.key, bb))]
        items = [e[2] for e in st.evlist() if e[0] == "push" and e[1] == it[3][0]]
        i = it[3][1][1]
        if i >= len(items):
            return [(st, ("agg", "std::option::Option", 0, ()))]
        wrp(I, st, a[0], ("agg", "listiter", 0, (it[3][0], K(i + 1))))
        return [(st, ("agg", "std::option::Option", 1, (items[i],)))]


def unwrap(v):
    if v[0] == "wrap":
        return unwrap(v[2])
    if v[0] == "lin":
        out = K(v[1])
        for a, k in v[2]:
            out = add(out, unwrap(a), k)
        return out
    return v


def boxes(R, P):
    """the header super box: its contents and its length"""
    G = "header box"
    f = P.find(B + "write_jp2h")
    A = Api(P, lambda p: p.startswith("jp2::opj_jp2_write_"), havoc=False, max_states=400, unroll=12, unroll_width=600)
    I = A.interp()
    Lists(I)
    oc = I.on_call

    def on_call(I, st, path, key, args, rt, t, fn, bb):
        if path == "jp2::HeaderWriter::new":
            n = st.notes.get("nh", 0)
            st.notes["nh"] = n + 1
            return [(st, ("S", None, "hw", n, args[0]))]
        if path == "jp2::HeaderWriter::run":
            good, bad = st.copy(), st.copy()
            n = I.fresh(good, P.tybyname["u32"], "size", fn.key, bb)
            good.ev("run", args[0], n)
            bad.ev("run", args[0], None)
            return [(good, ("agg", "std::option::Option", 1, (n,))), (bad, ("agg", "std::option::Option", 0, ()))]
        if path in ("jp2::HeaderWriter::write", "jp2::Jp2BoxHeader::write"):
            what = args[0]
            if "BoxHeader" in path:
                h = rdp(I, st, what)
                what = (I.field(st, h, idx(P, "jp2::Jp2BoxHeader", "ty"), "ty"), I.field(st, h, idx(P, "jp2::Jp2BoxHeader", "length"), "length"))
            good, bad = st.copy(), st.copy()
            good.ev("out", "box" if "BoxHeader" in path else "data", what, args[1], True)
            bad.ev("out", "box" if "BoxHeader" in path else "data", what, args[1], False)
            return [(good, K(1)), (bad, K(0))]
        return oc(I, st, path, key, args, rt, t, fn, bb)
    I.on_call = on_call
    args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
    for s, v in I.exec_fn(f, args, State(I.cx)):
        if s.dead or not s.feasible():
            continue
        bpc = fieldval(I, P, s, args[0], ("bpc",))
        cdef = fieldval(I, P, s, args[0], ("color", "jp2_cdef"))
        ev = [e for e in s.evlist() if e[0] in ("run", "out")]
        fn = lambda h: h[4][1].split("::")[-1] if h[0] == "S" and h[2] == "hw" and h[4][0] == "fn" else str(h)[:40]
        runs = [fn(e[1]) for e in ev if e[0] == "run"]
        outs = [(e[1], e[2] if e[1] == "box" else fn(e[2]), e[4]) for e in ev if e[0] == "out"]
        failed = any(e[0] == "run" and e[2] is None or e[0] == "out" and not e[4] for e in ev)
        b255 = truth(s, bpc, 255)
        dc = s.var.get(cdef)
        if dc is None and cdef[0] == "S":
            dc = {True: 0, False: 1}.get(truth(s, ("disc", cdef, cdef[1]), 1))
        want = ["opj_jp2_write_ihdr"] + ([] if b255 is not False else ["opj_jp2_write_bpcc"]) + ["opj_jp2_write_colr"] + (["opj_jp2_write_cdef"] if dc == 1 else [])
        bad = None
        if b255 is None and len(runs) > 1:
            bad = "does not look at the depth for BPCC"
        elif dc is None and len(runs) > 2:
            bad = "does not look for channel definitions"
        elif runs != want[:len(runs)]:
            bad = "makes %s" % ", ".join(runs)
        elif outs and runs != want:
            bad = "writes before all of its contents are made"
        elif outs and outs[0][0] != "box":
            bad = "writes %s before its own header" % outs[0][1]
        elif outs and not (outs[0][1][0][0] == "agg" and outs[0][1][0][2] == box_variant(P, "JP2H")):
            bad = "writes another box header"
        elif outs and unwrap(outs[0][1][1]) != unwrap(total([e[2] for e in ev if e[0] == "run"])):
            bad = "does not count the length of its contents"
        elif [o[1] for o in outs[1:]] != want[:len(outs) - 1 if outs else 0]:
            bad = "writes %s" % ", ".join(str(o[1]) for o in outs[1:])
        elif any(root(e[3])[0] != args[1] for e in ev if e[0] == "out"):
            bad = "writes elsewhere"
        elif (v == K(0)) != failed:
            bad = "reports %s" % ("failure although nothing failed" if v == K(0) else "success although a step failed")
        elif not failed and len(outs) != len(want) + 1:
            bad = "leaves contents out"
        elif failed and (ev[-1][0] == "run" and ev[-1][2] is not None or ev[-1][0] == "out" and ev[-1][4]):
            bad = "goes on after a failure"
        R.check(G, bad is None, "jp2h:%s" % bad, "opj_jp2_write_jp2h %s" % bad, "path (%s)" % ",".join(runs)[-60:])


def total(ns):
    out = K(8)
    for n in ns:
        out = add(out, n)
    return out


def idx(P, adt, name):
    for i, x in enumerate(P.adts[adt]["v"][0]["f"]):
        if x["n"] == name:
            return i
    raise Missing("%s.%s" % (adt, name))


def box_variant(P, name):
    for i, x in enumerate(P.adts["consts::Jp2BoxType"]["v"]):
        if x["n"] == name:
            return i
    raise Missing("box type %s" % name)


def codestream_box(R, P):
    """room for the codestream box header is left and filled in with the true length"""
    G = "codestream box"
    f = P.find(B + "skip_jp2c")
    A = Api(P, lambda p: p.startswith("stream::"))
    I, args, outs = A.run(f)
    for s, v in outs:
        if s.dead or not s.feasible():
            continue
        calls = [e for e in s.evlist() if e[0] == "call"]
        names = [e[1].split("::")[-1] for e in calls]
        off = fieldval(I, P, s, args[0], ("j2k_codestream_offset",))
        bad = None
        if names != ["opj_stream_tell", "opj_stream_skip"]:
            bad = "runs %s" % ", ".join(names)
        elif not (off[0] == "S" and off[2] == "ret" and off[3].endswith("opj_stream_tell")):
            bad = "does not remember where the codestream box starts"
        elif calls[1][2][1] != K(8):
            bad = "does not leave room for the 8 bytes of the box header"
        R.check(G, bad is None, "skip:%s" % bad, "opj_jp2_skip_jp2c %s" % bad, "skip_jp2c")
    f = P.find(B + "write_jp2c")
    A = Api(P, lambda p: p.startswith("stream::"))
    I = A.interp()
    oc = I.on_call

    def on_call(I, st, path, key, args, rt, t, fn, bb):
        if path == "jp2::Jp2BoxHeader::write":
            h = rdp(I, st, args[0])
            st.ev("call", path, (I.field(st, h, idx(P, "jp2::Jp2BoxHeader", "ty"), "ty"), I.field(st, h, idx(P, "jp2::Jp2BoxHeader", "length"), "length"), args[1]))
            good, bad = st.copy(), st.copy()
            bad.ev("fail")
            return [(good, K(1)), (bad, K(0))]
        return oc(I, st, path, key, args, rt, t, fn, bb)
    I.on_call = on_call
    I, args, outs = A.run(f, I=I)
    for s, v in outs:
        if s.dead or not s.feasible():
            continue
        off = fieldval(I, P, s, args[0], ("j2k_codestream_offset",))
        calls = [e for e in s.evlist() if e[0] == "call"]
        names = [e[1].split("::")[-1] for e in calls if not e[1].endswith("has_seek")]
        want = ["opj_stream_tell", "opj_stream_seek", "write", "opj_stream_seek"]
        full = v == K(1)
        c = [e for e in calls if not e[1].endswith("has_seek")]
        bad = None
        if names != want[:len(names)] or full and names != want:
            bad = "runs %s" % ", ".join(names)
        elif len(c) > 1 and c[1][2][1] != off:
            bad = "goes to another place than the recorded one"
        elif len(c) > 2:
            ty, ln, st_ = c[2][2]
            d = unwrap(ln)
            cc, m = lin_of(d)
            ok = cc == 0 and len(m) == 2 and m.get(off) == -1 and any(k == 1 and a[0] == "S" and a[2] == "ret" and a[3].endswith("opj_stream_tell") for a, k in m.items())
            if not ok:
                bad = "does not write the length from the box start to the end"
            elif not (ty[0] == "agg" and ty[2] == box_variant(P, "JP2C")):
                bad = "writes another box header"
            elif len(c) > 3 and not (c[3][2][1][0] == "S" and c[3][2][1][2] == "ret" and c[3][2][1][3].endswith("opj_stream_tell")):
                bad = "does not return to the end"
        if bad is None and any(e[0] == "fail" for e in s.evlist()) and v != K(0):
            bad = "reports success although the header was not written"
        R.check(G, bad is None, "jp2c:%s" % bad, "opj_jp2_write_jp2c %s" % bad, "write_jp2c (%s)" % ",".join(names))


def tile_parts(R, P):
    """SOT opens and SOD closes a part; each lands where the last one ended; Psot is the length of the part"""
    G = "tile parts"
    u32, u8p = P.tybyname["u32"], None
    for name in ("write_first_tile_part", "write_all_tile_parts"):
        f = P.find(J + name)
        A = Api(P, lambda p: p.startswith(("j2k::", "jp2::", "tcd::", "stream::", "pi::", "t2::", "malloc::")), havoc=False, max_states=400)
        I = A.interp()
        I.sign_inv = True
        kern.minmax(I)
        oc = I.on_call
        args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        anames = f.argnames()
        arg = {v: args[i - 1] for i, v in anames.items()}
        data, out, avail = arg["p_data"], arg["p_data_written"], arg["total_data_size"]
        st = State(I.cx)
        gw = I.newobj(st, u32, ("ghost", "written"), K(0))
        gs = I.newobj(st, u32, ("ghost", "start"), K(0))
        gp = I.newobj(st, u32, ("ghost", "phase"), K(0))
        bads = []

        def at(st, p, n):
            """p is data + n"""
            p = strip_casts(p)
            if p[0] == "ptr" and len(p[2]) == 1 and p[2][0][0] == "i" and strip_casts(p[1]) == data:
                d = sub(p[2][0][1], n)
                d = I.resolve(st, d)
                return d == K(0) or st.entails(d) and st.entails(scale(d, -1))
            return p == data and (n == K(0) or st.entails(n) and st.entails(scale(n, -1)))

        def report(st, bad, fn):
            if not I.record and st.feasible():
                bads.append((bad, fn))

        def on_call(I, st, path, key, a, rt, t, fn, bb):
            nm = (path or "").split("::")[-1]
            if nm in ("opj_j2k_write_sot", "opj_j2k_write_sod", "opj_j2k_write_poc_in_memory") or nm == "opj_write_bytes" or nm == "opj_j2k_update_tlm":
                w, ph = rdp(I, st, gw), rdp(I, st, gp)
                cf = P.bypath[path][0]
                an = {v: a[i - 1] for i, v in cf.argnames().items()}
                if nm == "opj_write_bytes":
                    p, v, n = a[0], a[1], a[2]
                    b = None
                    if n != K(4) or not at(st, p, add(rdp(I, st, gs), K(6))):
                        b = "writes a length elsewhere than at Psot"
                    elif ph != K(3):
                        b = "writes Psot before the part is complete"
                    elif unwrap(I.resolve(st, v)) != unwrap(I.resolve(st, sub(w, rdp(I, st, gs)))):
                        b = "writes another Psot than the bytes of the part"
                    report(st, b, name)
                    tlm = fieldval(I, P, st, args[0], ("m_specific_param", "m_encoder", "m_TLM"))
                    res = []
                    for k, z in ((K(4), False), (K(0), True)):
                        s2 = st.copy()
                        s2.assume(mk_cmp("eq", tlm, K(0)), z)
                        if s2.dead or not s2.feasible():
                            continue
                        wrp(I, s2, gp, k)
                        res.append((s2, ("agg", "tuple", 0, ())))
                    return res
                if nm == "opj_j2k_update_tlm":
                    b = None
                    if ph != K(4):
                        b = "records a part for TLM before it is complete"
                    elif unwrap(I.resolve(st, a[1])) != unwrap(I.resolve(st, sub(w, rdp(I, st, gs)))):
                        b = "records another length for TLM than that of the part"
                    report(st, b, name)
                    wrp(I, st, gp, K(0))
                    return [(st, ("agg", "tuple", 0, ()))]
                dst = an.get("p_data")
                room = an.get("total_data_size")
                pw = an.get("p_data_written")
                b = None
                if not at(st, dst, w):
                    b = "writes %s elsewhere than after what came before" % nm
                elif room is not None and I.resolve(st, sub(avail, w)) != I.resolve(st, room) and not eq(st, I.resolve(st, room), sub(avail, w)):
                    b = "gives %s another room than what is left" % nm
                elif nm.endswith("sot") and ph not in (K(0), K(4)):
                    b = "starts a part before the last one is complete"
                elif not nm.endswith("sot") and ph != K(1):
                    b = "writes %s outside a part" % nm
                elif nm.endswith("sot") and ph == K(4):
                    b = "starts a part before the last one is recorded for TLM"
                report(st, b, name)
                good = st.copy()
                n = I.fresh(good, u32, "n", fn.key, bb)
                good.add_cons(sub(sub(avail, w), n))
                wrp(I, good, pw, n)
                if nm.endswith("sot"):
                    wrp(I, good, gs, w)
                    wrp(I, good, gp, K(1))
                elif nm.endswith("sod"):
                    wrp(I, good, gp, K(3))
                wrp(I, good, gw, add(w, n))
                good.ev("part", nm)
                if "poc" in nm:
                    return [(good, I.fresh(good, rt, "poc", fn.key, bb) if rt is not None and P.irange(rt) else ("agg", "tuple", 0, ()))]
                bad = st.copy()
                bad.ev("failed", nm)
                return [(good, K(1)), (bad, K(0))]
            return oc(I, st, path, key, a, rt, t, fn, bb)
        I.on_call = on_call
        for s, v in I.exec_fn(f, args, st):
            if s.dead or not s.feasible():
                continue
            failed = any(e[0] == "failed" for e in s.evlist())
            b = None
            ph = rdp(I, s, gp)
            if v == K(0) and not failed:
                b = "fails although nothing failed"
            elif v != K(0) and failed:
                b = "succeeds although a part failed"
            elif v == K(1):
                w = rdp(I, s, gw)
                o = rdp(I, s, out)
                if not eq(s, I.resolve(s, o), I.resolve(s, w)):
                    b = "does not report the bytes it wrote"
                elif ph != K(0):
                    b = "ends inside a part"
            elif v != K(0):
                b = "leaves its answer open"
            bads.append((b, name))
        for b, n in bads:
            R.check(G, b is None, "%s:%s" % (n, b), "opj_j2k_%s %s" % (n, b), n)


def tile_out(R, P):
    """the parts of a tile one after the other, and exactly those bytes to the stream"""
    G = "tile output"
    u32 = P.tybyname["u32"]
    f = P.find(J + "post_write_tile")
    A = Api(P, lambda p: p.startswith(("j2k::", "jp2::", "tcd::", "stream::", "pi::", "t2::", "malloc::")), havoc=False, max_states=200)
    I = A.interp()
    kern.minmax(I)
    oc = I.on_call
    args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
    st0 = State(I.cx)
    data = fieldval(I, P, st0, args[0], ("m_specific_param", "m_encoder", "m_encoded_tile_data"))
    size = fieldval(I, P, st0, args[0], ("m_specific_param", "m_encoder", "m_encoded_tile_size"))
    tile = fieldval(I, P, st0, args[0], ("m_current_tile_number",))

    def on_call(I, st, path, key, a, rt, t, fn, bb):
        nm = (path or "").split("::")[-1]
        if nm in ("opj_j2k_write_first_tile_part", "opj_j2k_write_all_tile_parts"):
            an = {v: a[i - 1] for i, v in P.bypath[path][0].argnames().items()}
            good, bad = st.copy(), st.copy()
            n = I.fresh(good, u32, "n", fn.key, bb)
            good.add_cons(sub(an["total_data_size"], n))
            wrp(I, good, an["p_data_written"], n)
            for s, ok in ((good, True), (bad, False)):
                s.ev("part", nm, an["p_data"], an["total_data_size"], n, ok)
            return [(good, K(1)), (bad, K(0))]
        if nm == "opj_stream_write_data":
            n = I.fresh(st, rt, "sent", fn.key, bb)
            st.ev("sent", a[1], a[2], n)
            return [(st, n)]
        return oc(I, st, path, key, a, rt, t, fn, bb)
    I.on_call = on_call
    seen = set()
    for s, v in I.exec_fn(f, args, st0):
        if s.dead or not s.feasible():
            continue
        off, n, b, failed = K(0), 0, None, False
        sent = None
        for e in s.evlist():
            if e[0] not in ("part", "sent"):
                continue
            if failed or sent:
                b = b or "goes on after a failure"
            p = strip_casts(e[2] if e[0] == "part" else e[1])
            d = K(0) if p == strip_casts(data) else p[2][0][1] if p[0] == "ptr" and strip_casts(p[1]) == strip_casts(data) and len(p[2]) == 1 and p[2][0][0] == "i" else None
            if e[0] == "part":
                want = ("opj_j2k_write_first_tile_part", "opj_j2k_write_all_tile_parts")
                if n > 1 or e[1] != want[n]:
                    b = b or "writes %s as part %d" % (e[1], n)
                elif d is None or not eq(s, d, off):
                    b = b or "writes %s elsewhere than after what came before" % e[1]
                elif not eq(s, I.resolve(s, e[3]), sub(size, off)):
                    b = b or "gives %s another room than what is left" % e[1]
                off, n, failed = add(off, e[4]), n + 1, not e[5]
            else:
                sent = e
                if n != 2 or d is None or d != K(0) or not eq(s, I.resolve(s, e[2]), off):
                    b = b or "hands other bytes to the stream than those written"
        whole = sent is not None and s.decide(mk_cmp("eq", sent[3], sent[2]))
        now = fieldval(I, P, s, args[0], ("m_current_tile_number",))
        if b is None and v == K(0) and not failed and whole is not False:
            b = "fails although nothing failed"
        elif b is None and v == K(1) and (failed or sent is None or whole is not True):
            b = "succeeds although a step failed"
        elif b is None and v not in (K(0), K(1)):
            b = "leaves its answer open"
        elif b is None and v == K(1) and unwrap(sub(now, tile)) != K(1) and unwrap(now) != add(tile, K(1)):
            b = "does not go on to the next tile"
        R.check(G, b is None, "post_write_tile:%s" % b, "opj_j2k_post_write_tile %s" % b, "path")


def eq(st, a, b):
    return a == b or unwrap(a) == unwrap(b) or st.entails(sub(a, b)) and st.entails(sub(b, a))


def run(R):
    sys.setrecursionlimit(20000)
    P = Prog("openjp2", "release")
    codestream(R, P)
    files(R, P)
    executor(R, P)
    boxes(R, P)
    codestream_box(R, P)
    tile_parts(R, P)
    tile_out(R, P)
    R.floor("codestream start", 20)
    R.floor("codestream end", 6)
    R.floor("file start", 8)
    R.floor("file end", 3)
    R.floor("list executor", 8)
    R.floor("header box", 12)
    R.floor("codestream box", 6)
    R.floor("tile parts", 20)
    R.floor("tile output", 4)
