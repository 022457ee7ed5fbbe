"""C12: codec operations reach the right engine."""
from apimodel import *

LEVEL = "other"
TECHNIQUE = "abstract interpretation (MIR) of every public codec operation over the four codec kinds: engine calls and argument provenance per path compared with the operation's meaning"
NOTE = ("Every path of the 20 public operations is followed through the dispatch for each direction and container; engine operations are recorded with the origin of every argument. "
        "What the engines themselves do is outside this property.")
EXPLANATION = ("Each exported operation is interpreted abstractly with non-null symbolic arguments for encoder/decoder and raw codestream/JP2. The engine functions reached, "
               "their order, and where each of their arguments comes from must be those of the operation of the same name; the wrong direction must reach none, write nothing and return failure.")
ASSUMPTIONS = ["engine operations are identified by their function names in j2k.rs and jp2.rs"]

DEC, ENC, BOTH = 1, 0, None
J = "j2k::opj_j2k_"
G = {"jp2::opj_jp2_read_header", "jp2::opj_jp2_apply_color_postprocessing", "jp2::opj_jp2_setup_encoder", "jp2::opj_jp2_start_compress", "jp2::opj_jp2_exec"}
EXEC = ("jp2::opj_jp2_exec", ["J", "L", 2, "M"])
# op: (direction, codec argument, result kind, steps for a raw codestream, steps for JP2 or None = the same, guard)
OPS = {
    "opj_setup_decoder": (DEC, 1, "void", [(J + "setup_decoder", ["E", 2])], None, None),
    "opj_decoder_set_strict_mode": (DEC, 1, "void", [(J + "decoder_set_strict_mode", ["E", 2])], None, None),
    "opj_read_header": (DEC, 2, "ok", [(J + "read_header", [1, "E", 3, "M"])], [("jp2::opj_jp2_read_header", [1, "J", 3, "M"])], None),
    "opj_set_decoded_components": (DEC, 1, "ok", [(J + "set_decoded_components", ["E", ("slice", 3, 2), "M"])], None, "no color transform asked"),
    "opj_decode": (DEC, 1, "ok", [(J + "decode", ["E", 2, 3, "M"])],
                   [(J + "decode", ["E", 2, 3, "M"]), ("jp2::opj_jp2_apply_color_postprocessing", ["J", 3, "M"])], None),
    "opj_set_decode_area": (DEC, 1, "ok", [(J + "set_decode_area", ["E", 2, 3, 4, 5, 6, "M"])], None, None),
    "opj_read_tile_header": (DEC, 1, "ok", [(J + "read_tile_header", ["E", 2, "L", "M"])], None, None),
    "opj_decode_tile_data": (DEC, 1, "ok", [(J + "decode_tile", ["E", 2, ("opt", 3, 4), 5, "M"])], None, None),
    "opj_get_decoded_tile": (DEC, 1, "ok", [(J + "get_tile", ["E", 2, 3, "M", 4])],
                             [(J + "get_tile", ["E", 2, 3, "M", 4]), ("jp2::opj_jp2_apply_color_postprocessing", ["J", 3, "M"])], None),
    "opj_set_decoded_resolution_factor": (DEC, 1, "ok", [(J + "set_decoded_resolution_factor", ["E", 2, "M"])], None, None),
    "opj_end_decompress": (DEC, 1, "ok", [(J + "end_decompress", ["E", 2, "M"])], [EXEC, (J + "end_decompress", ["E", 2, "M"])], None),
    "opj_setup_encoder": (ENC, 1, "ok", [(J + "setup_encoder", ["E", 2, 3, "M"])], [("jp2::opj_jp2_setup_encoder", ["J", 2, 3, "M"])], None),
    "opj_encoder_set_extra_options": (ENC, 1, "ok", [(J + "encoder_set_extra_options", ["E", "any", "M"])], None, "options given and readable"),
    "opj_start_compress": (ENC, 1, "ok", [(J + "start_compress", ["E", 3, 2, "M"])], [("jp2::opj_jp2_start_compress", ["J", 3, 2, "M"])], None),
    "opj_encode": (ENC, 1, "ok", [(J + "encode", ["E", 2, "M"])], None, None),
    "opj_end_compress": (ENC, 1, "ok", [(J + "end_compress", ["E", 2, "M"])], [(J + "end_compress", ["E", 2, "M"]), EXEC], None),
    "opj_write_tile": (ENC, 1, "ok", [(J + "write_tile", ["E", 2, ("slice", 3, 4), 5, "M"])], None, None),
    "opj_codec_set_threads": (BOTH, 1, "ok", [(J + "set_threads", ["E", 2])], None, "thread count not negative"),
    "opj_dump_codec": (BOTH, 1, "unit", [("j2k::j2k_dump", ["E", 2, 3])], None, None),
    "opj_get_cstr_info": (BOTH, 1, "ok", [("j2k::j2k_get_cstr_info", ["E"])], None, None),
    "opj_get_cstr_index": (BOTH, 1, "ok", [("j2k::j2k_get_cstr_index", ["E"])], None, None),
}
INNER = {"opj_jp2_read_header": (2, J + "read_header", [1, ("j2k", 2), 3, 4]),
         "opj_jp2_start_compress": (1, J + "start_compress", [("j2k", 1), 2, 3, 4]),
         "opj_jp2_setup_encoder": (1, J + "setup_encoder", [("j2k", 1), 2, 3, 4])}
OUT = {3: "index", 4: "data_size", 5: "x0", 6: "y0", 7: "x1", 8: "y1", 9: "nb_comps", 10: "go_on"}
DIR = {0: "Encoder", 1: "Decoder"}
CON = {0: "J2K", 1: "JP2"}


def stop(p):
    return bool(re.match(r"^j2k::(opj_j2k_|j2k_)", p)) or p in G


def codec_path(n, kind):
    d, c = kind
    return {"M": (("m_event_mgr",),), "E": ("m_codec", ("as", d), "0", ("as", c), "0") + (("j2k",) if c else ()), "J": ("m_codec", ("as", d), "0", ("as", c), "0")}


def names(path):
    return tuple(p[2] if p[0] == "f" else p for p in path)


def scal(v):
    """the symbol a scalar argument is, conversions between integer types removed"""
    while v[0] == "wrap":
        v = v[2]
    return v


def arg_is(v, want, sym, ci, kind, s=None):
    """does the argument value v match its specification"""
    if want == "any":
        return True
    r, path = root(v)
    path = names(path)
    if want == "L":
        return r[0] in ("L", "obj", "cref")
    if want in ("E", "J", "M"):
        if r != sym[ci]:
            return False
        if want == "M":
            return path == ("m_event_mgr",)
        return path == codec_path(ci, kind)[want]
    if isinstance(want, tuple) and want[0] == "j2k":
        return r == sym[want[1]] and path == ("j2k",)
    if isinstance(want, tuple) and want[0] == "slice":
        m = meta(v)
        if m is not None and scal(m) == K(0) and s is not None and s.decide(mk_cmp("eq", sym[want[2]], K(0))) is True:
            return True
        return r == sym[want[1]] and path == () and m is not None and scal(m) == sym[want[2]]
    if isinstance(want, tuple) and want[0] == "opt":
        if v[0] != "agg" or not v[1].endswith("Option"):
            return False
        return v[2] == 0 or arg_is(v[3][0], ("slice",) + want[1:], sym, ci, kind, s)
    return scal(r) == sym[want] and path == ()


def meta(v):
    while v[0] == "cast":
        v = v[3]
    return v[3] if v[0] == "ptr" else None


def kind_of(s, codec):
    """(direction, container) the path assumes of the codec, None where it does not ask"""
    d = c = None
    for k, v in s.var.items():
        if not isinstance(v, int):
            continue
        t = k
        trail = []
        while t[0] == "S" and len(t) > 3 and t[2] in ("fld", "vf"):
            trail.append(t[4] if t[2] == "fld" else ("as", t[4]))
            t = t[3]
        if t[0] == "S" and len(t) > 3 and t[2] == "mem" and strip_casts(t[3]) == codec:
            if trail == ["m_codec"]:
                d = v
            elif len(trail) == 2 and trail[1] == "m_codec" and trail[0] == ("as", d):
                c = v
            elif len(trail) == 2 and trail[1] == "m_codec":
                c = v
    return d, c


def written(s, syms):
    """argument objects written on this path, apart from the event manager"""
    out = []
    for k in s.mem:
        if k[0] == "objs" and s.mem[k] is not None:
            r = strip_casts(k[1])
            if r in syms and any((k[1], i) in s.mem for i in s.mem[k][1]):
                out.append(r)
    return out


def isfail(r, rt_kind):
    return r is None or r == K(0) or r == NULL or (r[0] == "agg" and r[1] == "tuple" and not r[3])


def run(R):
    P = Prog("openjp2", "release")
    for op, spec in OPS.items():
        operation(R, P, op, spec)
    for fn, spec in INNER.items():
        inner(R, P, fn, spec)
    creation(R, P)
    R.floor("wrong direction", 17 * 2 - 2)
    R.floor("dispatch", 2 * 17 + 4 * 4)
    R.floor("outputs", 8)
    R.floor("creation", 4)
    R.analysed["operations"] = len(OPS)


def outcome(P, op, ci, kind):
    f = P.find("openjpeg::" + op)
    A = Api(P, stop)
    I = A.interp()
    I.merge = False
    box_models(I)
    st = State(I.cx)
    args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
    for a in args:
        if P.kind(a[1]) == "ptr":
            if op == "opj_decode_tile_data" and a[3] == 3 or op == "opj_encoder_set_extra_options" and a[3] == 2:
                continue
            st.assume(("isnull", a), False)
    outs = I.exec_fn(f, args, st)
    R = []
    for s, r in outs:
        d, c = kind_of(s, args[ci - 1])
        if d is not None and d != kind[0] or c is not None and c != kind[1]:
            continue
        R.append((s, r, [e for e in s.evlist() if e[0] == "call"]))
    return I, f, args, R


def operation(R, P, op, spec):
    direction, ci, rk, sj, sp, guard = spec
    for kind in ((0, 0), (0, 1), (1, 0), (1, 1)):
        what = "%s on a %s %s" % (op, CON[kind[1]], DIR[kind[0]].lower())
        I, f, args, outs = outcome(P, op, ci, kind)
        sym = {i + 1: a for i, a in enumerate(args)}
        if not outs:
            R.fail("dispatch", what, "%s has no path" % what)
            continue
        if direction is not None and kind[0] != direction:
            for s, r, ev in outs:
                w = [x for x in written(s, args)]
                bad = "performs %s" % ev[0][1] if ev else "writes to one of its arguments" if w else "does not return failure" if not isfail(r, None) else None
                R.check("wrong direction", bad is None, what, "%s %s" % (what, bad), what)
            continue
        steps = sj if kind[1] == 0 or sp is None else sp
        done = False
        for s, r, ev in outs:
            bad = follow(s, r, ev, steps, sym, ci, kind, rk)
            if not ev:
                if guard and guarded(op, s, sym, r):
                    R.ok("dispatch", "%s: refused unless %s" % (what, guard))
                    continue
                bad = "performs no engine operation"
            else:
                done = done or len(ev) == len(steps)
            R.check("dispatch", bad is None, what, "%s: %s" % (what, bad), what)
            if op == "opj_read_tile_header" and ev and r == K(1):
                outputs(R, I, s, sym, what)
        R.check("dispatch", done, what + ":done", "%s: no path completes the operation" % what)


def guarded(op, s, sym, r):
    """a path without engine operation that the operation's documented guard explains"""
    if not isfail(r, None):
        return False
    if op == "opj_set_decoded_components":
        return s.decide(mk_cmp("eq", sym[4], K(0))) is False
    if op == "opj_codec_set_threads":
        return s.decide(mk_cmp("lt", sym[2], K(0))) is True
    if op == "opj_encoder_set_extra_options":
        # an option that is not readable text: some list was given
        return s.decide(("isnull", sym[2])) is False
    return False


def follow(s, r, ev, steps, sym, ci, kind, rk):
    n = 0
    for e in ev:
        if n >= len(steps):
            return "performs %s after the operation is complete" % e[1]
        path, wants = steps[n]
        if e[1] != path:
            return "performs %s where %s is due" % (e[1], path)
        if len(e[2]) != len(wants):
            return "%s is given %d arguments" % (path, len(e[2]))
        for i, (v, w) in enumerate(zip(e[2], wants)):
            if not arg_is(v, w, sym, ci, kind, s):
                return "argument %d of %s is not %s" % (i + 1, path, describe(w))
        n += 1
    if n < len(steps):
        # a failed step ends the sequence
        res = results(s, ev)
        if not isfail(r, None):
            return "reports success although %s was not performed" % steps[n][0]
        if not any(x is False for x in res):
            return "stops after %s without a failure" % (ev[-1][1] if ev else "nothing")
        return None
    if rk == "void" and r != K(1):
        return "does not report success"
    if rk == "ok":
        rr = scal(r)
        ok = rr == K(1) or (rr[0] == "S" and rr[2] == "ret" and rr[3] == steps[-1][0]) or mentions(rr, steps[-1][0])
        if rr == K(0):
            ok = any(x is False for x in results(s, ev))
        if rr == K(1) and steps[-1][0] not in ():
            ok = all(x is not False for x in results(s, ev)) and results(s, ev)[-1] is True
        if not ok:
            return "does not return the result of %s" % steps[-1][0]
    return None


def mentions(e, path):
    return contains(e, lambda x: isinstance(x, tuple) and len(x) > 3 and x[0] == "S" and x[2] == "ret" and x[3] == path)


def results(s, ev):
    """per performed step: known nonzero / known zero / unknown"""
    out = []
    for e in ev:
        v = None
        for c, val in s.facts.items():
            x, neg = c, val
            while x[0] == "not":
                x, neg = x[1], not neg
            if x[0] == "cmp" and x[1] == "eq" and K(0) in (x[2], x[3]):
                y = x[2] if x[3] == K(0) else x[3]
                if y[0] == "S" and len(y) > 3 and y[2] == "ret" and y[3] == e[1]:
                    v = not neg
            elif x[0] == "S" and len(x) > 3 and x[2] == "ret" and x[3] == e[1]:
                v = neg
        out.append(v)
    return out


def describe(w):
    if w == "E":
        return "the codec's codestream engine"
    if w == "J":
        return "the codec's JP2 engine"
    if w == "M":
        return "the codec's event manager"
    if w == "L":
        return "an object of its own"
    if isinstance(w, tuple):
        return "the bytes of arguments %s" % (w[1:],)
    return "argument %s of the operation" % w


def outputs(R, I, s, sym, what):
    """after a successful tile header read each requested output holds its own field"""
    for i, fld in OUT.items():
        a = sym[i]
        null = s.decide(("isnull", a))
        ent = None
        for k in s.mem:
            if k[0] == a and k != ("objs", a):
                ent = s.mem[k][1]
        if ent is None:
            ent = next((s.mem[(b, K(0))][1] for (t, b) in [k for k in s.mem if k[0] == "objs"] if strip_casts(b) == a and (b, K(0)) in s.mem), None)
        name = "%s: output %d" % (what, i)
        if null is True:
            R.check("outputs", ent is None, name, "%s is written through a null pointer" % name, name)
            continue
        flds = set()

        def walk(x):
            if isinstance(x, tuple):
                if len(x) > 4 and x[0] == "S" and x[2] == "fld":
                    flds.add(x[4])
                for y in x:
                    walk(y)
        walk(ent if ent is not None else ())
        other = [f for f in flds if f in OUT.values() and f != fld]
        if null is False:
            none = fld == "data_size" and ent == K(0) and any(v == 0 and contains(k, lambda x: isinstance(x, tuple) and len(x) > 4 and x[2] == "fld" and x[4] == fld) for k, v in s.var.items())
            R.check("outputs", none or fld in flds and not other, name, "%s is set from %s, must be the tile's %s" % (name, sorted(flds) or "nothing", fld), name)
        else:
            R.check("outputs", not other, name, "%s is set from %s, must be the tile's %s" % (name, sorted(flds), fld), name)


def inner(R, P, fn, spec):
    ci, engine, wants = spec
    f = P.find("jp2::" + fn)
    A = Api(P, lambda p: bool(re.match(r"^j2k::(opj_j2k_|j2k_)", p)) or p == "jp2::opj_jp2_exec")
    I = A.interp()
    I.max_states = 400
    box_models(I)
    st = State(I.cx)
    args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
    sym = {i + 1: a for i, a in enumerate(args)}
    outs = I.exec_fn(f, args, st)
    n = 0
    for s, r in outs:
        ev = [e for e in s.evlist() if e[0] == "call" and e[1].startswith("j2k::")]
        if r == K(0):
            continue
        main = [e for e in ev if e[1] == engine]
        others = [e[1] for e in ev if e[1] != engine]
        bad = None
        if len(main) != 1:
            bad = "reports success having performed %s %d times" % (engine, len(main))
        elif others:
            bad = "also performs %s" % others[0]
        else:
            for i, (v, w) in enumerate(zip(main[0][2], wants)):
                if not arg_is(v, w, sym, ci, (0, 0)):
                    bad = "argument %d of %s is not %s" % (i + 1, engine, describe(w) if not isinstance(w, tuple) else "the JP2 engine's codestream engine")
        if bad is None and not (mentions(r, engine) or results(s, main) == [True]):
            bad = "reports success although %s may have failed" % engine
        R.check("JP2 operations", bad is None, fn, "%s %s" % (fn, bad), fn)
        n += 1
    R.check("JP2 operations", n > 0, fn + ":paths", "%s has no successful path" % fn)


def creation(R, P):
    fmts = {v["n"]: i for i, v in enumerate(P.adts["c_api_types::CODEC_FORMAT"]["v"])}
    for op, d in (("opj_create_compress", 0), ("opj_create_decompress", 1)):
        f = P.find("openjpeg::" + op)
        for name, vi in fmts.items():
            A = Api(P, stop)
            I = A.interp()
            box_models(I)
            st = State(I.cx)
            args = [("agg", "c_api_types::CODEC_FORMAT", vi, ())]
            good = False
            for s, r in I.exec_fn(f, args, st):
                what = "%s(%s)" % (op, name)
                want = {"OPJ_CODEC_J2K": 0, "OPJ_CODEC_JP2": 1}.get(name)
                null = r == NULL or s.decide(I.ptr_null(s, r)) is True
                if want is None:
                    R.check("creation", null, what, "%s gives a codec although that format is not supported" % what, what)
                    continue
                if null:
                    ok = any(v == 0 for k, v in s.var.items() if len(k) > 3 and k[2] == "ret")
                    R.check("creation", ok, what + ":null", "%s gives no codec although the engine was created" % what, what)
                    continue
                rt, _ = root(r)
                v = I.rd(s, rt, I0) if rt[0] == "obj" else None
                mc = I.field(s, v, 0, "m_codec") if v is not None and P.tn(rt[1]) == "codec::Codec" else None
                ok = mc is not None and mc[0] == "agg" and mc[2] == d and mc[3][0][0] == "agg" and mc[3][0][2] == want
                eng = J + ("create_compress" if d == 0 else "create_decompress")
                inner = mc[3][0][3][0] if ok else None
                if ok and want == 1:
                    inner = I.field(s, inner, *[(i, f2["n"]) for i, f2 in enumerate(next(a for n, a in P.adts.items() if n.endswith("::opj_jp2"))["v"][0]["f"]) if f2["n"] == "j2k"][0])
                ok = ok and inner is not None and contains(inner, lambda x: isinstance(x, tuple) and len(x) > 3 and x[0] == "S" and x[2] == "ret" and x[3] == eng)
                good = good or ok
                R.check("creation", ok, what, "%s does not give a %s %s codec" % (what, name[10:], DIR[d].lower()), what)
            if name in ("OPJ_CODEC_J2K", "OPJ_CODEC_JP2"):
                R.check("creation", good, "%s(%s):some" % (op, name), "%s(%s) never gives a codec" % (op, name))
