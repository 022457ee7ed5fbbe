"""C22: entropy coding tables."""
import hashlib, json, math, os
from mir import Prog, Missing, callee, calls
from absint import *
import tables as T

LEVEL = "other"
TECHNIQUE = "constant-table analysis: compiler-evaluated tables compared with recomputed ISO 15444-1/-15 definitions; abstract interpretation of the context initialisation"
NOTE = ("Every entry of every table is compared. The probability states, contexts, sign contexts, distortion tables, MEL exponents and u-prefix codes are recomputed "
        "from the standard's definitions; the two high-throughput VLC tables are compared with a frozen copy and checked to be complete prefix codes.")
EXPLANATION = ("The constant tables are read as the compiler evaluated them and compared entry by entry with tables computed here from the standard's definitions "
               "(T.800 Tables C.2, D.1-D.7; T.814 MEL exponents and Table 3). The VLC tables are checked to be complete prefix codes with consistent fields "
               "and to equal a frozen copy. The functions that reset the contexts, set a context, and follow the state table's transitions are interpreted "
               "abstractly, and every call site that resets the contexts must leave exactly the standard's initial states.")
ASSUMPTIONS = ["the frozen copy of the two VLC tables (data/vlc.json) is T.814's; it cannot be recomputed from a definition"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def flat(c):
    if isinstance(c, dict):
        if "arr" in c:
            return [flat(x) for x in c["arr"]]
        if "f" in c:
            return [flat(x) for x in c["f"]]
        if "v" in c:
            return c["v"]
        if "fl" in c:
            return float(c["fl"])
        if "ref" in c:
            return flat(c["ref"])
    return c


def table(P, name):
    for k, c in P.consts.items():
        if k == name or k.endswith("::" + name):
            return flat(c["c"])
    for s in (P.statics.values() if isinstance(P.statics, dict) else P.statics):
        if s["name"] == name or s["name"].endswith("::" + name):
            return flat(s["c"])
    raise Missing("table " + name)


def cmp(R, group, name, have, want):
    if not isinstance(have, list) or len(have) != len(want):
        R.fail(group, "%s:size" % name, "%s has %s entries, the standard's has %d" % (name, len(have) if isinstance(have, list) else "?", len(want)))
        return
    for i, (h, w) in enumerate(zip(have, want)):
        if isinstance(w, (list, tuple)):
            cmp(R, group, "%s[%d]" % (name, i), h, list(w)) if isinstance(h, list) else R.check(group, False, "%s[%d]" % (name, i), "%s[%d] is not a row" % (name, i))
        else:
            R.check(group, h == w, "%s[%d]" % (name, i), "%s[%d] is %s; the standard's value is %s" % (name, i, h, w), "%s[%d]=%s" % (name, i, w))


def run(R):
    P = Prog("openjp2", "release")
    cmp(R, "probability states", "mqc_states", table(P, "mqc_states"), T.mq_states())
    cmp(R, "zero coding", "lut_ctxno_zc", table(P, "lut_ctxno_zc"), T.zc())
    cmp(R, "sign coding", "lut_ctxno_sc", table(P, "lut_ctxno_sc"), T.sc()[0])
    cmp(R, "sign prediction", "lut_spb", table(P, "lut_spb"), T.sc()[1])
    for n, w in T.nmsedec().items():
        cmp(R, "distortion", n, table(P, n), w)
    cmp(R, "MEL exponents", "mel_exp", table(P, "mel_exp"), T.MEL_E)
    for f in ("decode_init_uvlc", "decode_noninit_uvlc"):
        cmp(R, "u prefix codes", f + "::dec", table(P, f + "::dec"), T.uvlc_dec())
    fz = json.load(open(os.path.join(HERE, "data", "vlc.json")))
    for n in ("vlc_tbl0", "vlc_tbl1"):
        t = table(P, n)
        cmp(R, "VLC tables", n, t, fz[n])
        for k, msg in T.vlc_errors(n, t):
            R.fail("VLC tables", k, msg)
        R.ok("VLC tables", n + " is a complete prefix code in each of its 8 contexts")
    for n, w in T.CTXNO.items():
        c = [v for k, v in P.consts.items() if k.endswith("::" + n)]
        if not c:
            raise Missing("constant " + n)
        R.check("context numbers", flat(c[0]["c"]) == w, n, "%s is %s, must be %d" % (n, flat(c[0]["c"]), w), n)
    contexts(R, P)
    R.floor("probability states", 94 * 4)
    R.floor("zero coding", 2048)
    R.floor("VLC tables", 2048)
    R.floor("context reset", 4)


def ctx_map(v):
    """the ctxs array after the call: {index: (state index expr)}, default"""
    m = {}
    for i, x in v[3]:
        m[i] = x
    return m, v[2]


def state_idx(P, x, states):
    """index into the probability table a context points to, or None"""
    if x[0] == "ptr" and x[1][0] == "cref" and len(x[2]) == 2 and x[2][0] == ("i", K(0)) and x[2][1][0] == "i":
        c = x[1][1]
    elif x[0] == "ptr" and x[1][0] == "cref" and len(x[2]) == 1 and x[2][0][0] == "i":
        c = x[1][1]
    else:
        return None
    return x[2][-1][1] if is_states(P, c, states) else None


def is_states(P, c, states):
    if c[0] == "carr":
        return flat(P.consts[c[1]]["c"]) == states
    if c[0] == "arr" and c[2][0] == "consts" and not c[3]:
        r = [[y[1] for y in x[3]] for x in c[2][1] if x[0] == "agg"]
        return r == states
    return False


def contexts(R, P):
    states = [list(x) for x in T.mq_states()]
    adt = P.adts.get("mqc::opj_mqc")
    if adt is None:
        raise Missing("mqc::opj_mqc")
    fi = {f["n"]: i for i, f in enumerate(adt["v"][0]["f"])}
    ci = fi["ctxs"]
    tid = P.tybyname["mqc::opj_mqc"]

    def start(I):
        st = State(I.cx)
        p = I.newobj(st, tid, "mqc", I.sym(tid, "mqc0"))
        return st, p

    def ctxs(I, s, p):
        v = I.rd(s, p[1], I0)
        return I.field(s, v, ci, "ctxs")

    # setstate: ctxs[ctxno] = &states[2*prob + msb]
    f = P.find("mqc::opj_mqc_setstate")
    I = Interp(P, unroll=40)
    st, p = start(I)
    a = [p] + [I.sym(f.locals[i], "arg", i) for i in range(2, f.argc + 1)]
    for s, r in I.exec_fn(f, a, st):
        v = ctxs(I, s, p)
        good = v[0] == "arr" and len(v[3]) == 1 and v[3][0][0] == a[1]
        ix = state_idx(P, v[3][0][1], states) if good else None
        good = good and ix is not None
        if good:
            # the index is msb + 2*prob in the word's arithmetic
            for msb, prob in ((0, 0), (1, 0), (0, 46), (1, 46), (0, 3), (0, 4), (1, 45)):
                val = subst_eval(ix, {a[2]: msb, a[3]: prob})
                good = good and val == msb + 2 * prob
        R.check("context set", good, "setstate", "opj_mqc_setstate does not point context ctxno at state 2*prob+msb: %s" % repr(v)[-300:], "opj_mqc_setstate")
    # following the table
    for nm, col in (("set_curctx_nlps", 3), ("set_curctx_nmps", 2)):
        f = P.find("mqc::opj_mqc::" + nm)
        I = Interp(P)
        st, p = start(I)
        for s, r in I.exec_fn(f, [p], st):
            v = ctxs(I, s, p)
            cur = I.field(s, I.rd(s, p[1], I0), fi["curctx"], "curctx")
            good = v[0] == "arr" and len(v[3]) == 1 and v[3][0][0] == cur
            ix = state_idx(P, v[3][0][1], states) if good else None
            fld = P.adts["mqc::opj_mqc_state"]["v"][0]["f"][col]["n"]
            good = good and ix is not None and ix[0] == "S" and ix[2] == "fld" and ix[4] == fld
            R.check("context set", good, nm, "%s does not follow the table's %s column of the current context: %s" % (nm, fld, repr(ix)[:200]), nm)
    # every reset leaves exactly the initial states
    want = {T.CTXNO["T1_CTXNO_UNI"]: 2 * 46, T.CTXNO["T1_CTXNO_AGG"]: 2 * 3, T.CTXNO["T1_CTXNO_ZC"]: 2 * 4}
    n = 0
    for f in P.local_fns():
        for bb, t in calls(f):
            if callee(t) == "mqc::opj_mqc_resetstates":
                n += 1
                site = "%s#%d" % (f.path, sum(1 for b2, t2 in calls(f) if b2 < bb and callee(t2) == "mqc::opj_mqc_resetstates"))
                bad = after_reset(P, f, bb, t, want, states, tid, ci)
                R.check("context reset", bad is None, site, "after the contexts are reset in %s: %s" % (f.path, bad), site)
    R.analysed["call sites of opj_mqc_resetstates"] = n
    # resetstates itself
    f = P.find("mqc::opj_mqc_resetstates")
    I = Interp(P, unroll=40)
    st, p = start(I)
    for s, r in I.exec_fn(f, [p], st):
        v = ctxs(I, s, p)
        m, d = ctx_map(v) if v[0] == "arr" else ({}, None)
        allz = v[0] == "arr" and ((d[0] == "rep" and state_idx(P, d[1], states) == K(0)) or
                                  all(K(i) in m and state_idx(P, m[K(i)], states) == K(0) for i in range(19)))
        R.check("context reset", allz, "resetstates", "opj_mqc_resetstates does not put all 19 contexts into state 0", "opj_mqc_resetstates")


def subst_eval(e, env):
    if e in env:
        return env[e]
    if is_k(e):
        return e[1]
    if e[0] == "lin":
        return e[1] + sum(c * subst_eval(a, env) for a, c in e[2])
    if e[0] == "wrap":
        lo, hi = e[1]
        return (subst_eval(e[2], env) - lo) % (hi - lo + 1) + lo
    if e[0] == "mul":
        r = 1
        for a in e[1]:
            r *= subst_eval(a, env)
        return r
    if e[0] == "shl":
        return subst_eval(e[1], env) << subst_eval(e[2], env)
    raise Missing("arithmetic of %s" % repr(e)[:80])


def after_reset(P, f, bb, t, want, states, tid, ci):
    """walk on from the reset: setstate calls (constants) until anything else touches the coder"""
    got = {}
    seen = set()
    b = t["t"]
    while b is not None and b not in seen:
        seen.add(b)
        blk = f.blocks[b]
        for s in blk["s"]:
            pass
        tm = blk["t"]
        if tm["k"] == "goto":
            b = tm["t"]
            continue
        if tm["k"] == "drop":
            b = tm["t"]
            continue
        if tm["k"] == "call":
            c = callee(tm)
            if c == "mqc::opj_mqc_setstate":
                vals = []
                for a in tm["a"][1:]:
                    vals.append(const_of(P, f, b, a))
                if None in vals:
                    return "a context is set from a value that is not constant"
                got[vals[0]] = vals[1] + 2 * vals[2]
                b = tm["t"]
                continue
        break
    if got != want:
        return "contexts %s are set to states %s; the standard's initial states are %s" % (sorted(got), got, want)
    return None


def const_of(P, f, b, a):
    if a[0] == "k":
        c = a[1].get("c")
        if c is None and a[1].get("cn"):
            c = P.consts[a[1]["name"]]["c"]
        return flat(c)
    if a[0] in ("c", "m") and len(a[1]) == 1:
        l = a[1][0]
        w = [s for blk in f.blocks for s in blk["s"] if s[0] == "=" and s[1] == [l]]
        if len(w) == 1 and w[0][2][0] == "use":
            return const_of(P, f, b, w[0][2][1])
    return None
