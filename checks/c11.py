"""C11: an opaque handle always refers to the object type it was created with."""
from apimodel import *

LEVEL = "other"
TECHNIQUE = "abstract interpretation (MIR) of handle constructors plus a flow-insensitive provenance analysis of every pointer cast and box reconstruction of a handle"
NOTE = "All exported functions with codec or stream handles are covered; which parameters are handles of which kind is a fixed table, since both handle types are void pointers."
EXPLANATION = ("Constructors are interpreted abstractly: the returned handle must be null or address a heap object of the handle's one object type, and null on every path whose creation step failed. "
               "In every function taking a handle, each cast of the handle, each reborrow and each box rebuilt from it must be at that same type. Destructors release at that type exactly once.")
ASSUMPTIONS = ["the two object types are codec::Codec and types::Stream"]

CODEC, STREAM = "codec::Codec", "types::Stream"
# function: {parameter: kind}; parameter 0 = the returned handle
HANDLES = {}
for op in "opj_set_info_handler opj_set_warning_handler opj_set_error_handler opj_codec_set_threads opj_setup_decoder opj_decoder_set_strict_mode opj_set_decoded_components opj_set_decode_area " \
          "opj_set_decoded_resolution_factor opj_setup_encoder opj_encoder_set_extra_options opj_destroy_codec opj_dump_codec opj_get_cstr_info opj_get_cstr_index".split():
    HANDLES[op] = {1: CODEC}
for op, c, s in (("opj_read_header", 2, 1), ("opj_decode", 1, 2), ("opj_read_tile_header", 1, 2), ("opj_decode_tile_data", 1, 5), ("opj_get_decoded_tile", 1, 2),
                 ("opj_start_compress", 1, 3), ("opj_encode", 1, 2), ("opj_end_compress", 1, 2), ("opj_end_decompress", 1, 2), ("opj_write_tile", 1, 5)):
    HANDLES[op] = {c: CODEC, s: STREAM}
for op in "opj_stream_destroy opj_stream_set_read_function opj_stream_set_seek_function opj_stream_set_write_function opj_stream_set_skip_function opj_stream_set_user_data opj_stream_set_user_data_length".split():
    HANDLES[op] = {1: STREAM}
for op in "opj_create_decompress opj_create_compress".split():
    HANDLES[op] = {0: CODEC}
for op in "opj_stream_create opj_stream_default_create opj_stream_create_default_file_stream opj_stream_create_file_stream".split():
    HANDLES[op] = {0: STREAM}
CREATE = {CODEC: ("codec::Codec::new_decoder", "codec::Codec::new_encoder"), STREAM: ("stream::<impl types::Stream>::new_file", "stream::<impl types::Stream>::new_custom")}
DESTROY = {"opj_destroy_codec", "opj_stream_destroy"}


def run(R):
    P = Prog("openjp2", "release")
    fs = {f.path.split("::")[-1]: f for f in P.local_fns() if f.d.get("nomangle") and f.path.startswith("openjpeg::")}
    voidpp = {f.locals[k] for op, hs in HANDLES.items() if op in fs for k, f in ((k, fs[op]) for k in hs)}
    for op, hs in HANDLES.items():
        if op not in fs:
            R.fail("functions", op, "exported function %s is missing" % op)
            continue
        for k, kind in hs.items():
            if k == 0:
                produce(R, P, fs[op], op, kind)
            else:
                consume(R, P, fs[op], op, k, kind)
    # no handle parameter outside the table
    for op, f in fs.items():
        for k in range(0, f.argc + 1):
            if f.locals[k] in voidpp and op not in ("opj_set_info_handler",):
                R.check("functions", k in HANDLES.get(op, {}), "%s:%d" % (op, k), "%s has a handle at position %d the analysis does not know" % (op, k), op)
    R.floor("handle use", 42)
    R.floor("handle creation", 6)
    R.analysed["functions"] = len(HANDLES)


def consume(R, P, f, op, k, kind):
    """flow-insensitive: every local the handle reaches by copies and casts; each typed view must be `kind`"""
    seen = {}
    work = [(f, k)]
    views = 0
    bad = []
    boxes = 0
    while work:
        g, l = work.pop()
        if (g.key, l) in seen:
            continue
        seen[(g.key, l)] = 1
        for b in g.blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                dst, rv = s[1], s[2]
                src = None
                if rv[0] in ("use", "cast"):
                    opd = rv[1] if rv[0] == "use" else rv[2]
                    if opd[0] in ("c", "m") and opd[1] == [l]:
                        src = opd
                        if rv[0] == "cast":
                            tt = P.types[rv[3]]
                            if tt["k"] == "ptr" or tt["k"] == "ref":
                                pt = P.tn(P.pointee(rv[3]))
                                if pt == kind:
                                    views += 1
                                elif pt not in HTYPES(P, f, k):
                                    bad.append("views it as %s" % pt)
                elif rv[0] == "ref" and len(rv[2]) > 1 and rv[2][0] == l and rv[2][1] == "*":
                    pt = P.tn(P.pointee(g.locals[l]))
                    if pt != kind:
                        bad.append("reads it as %s" % pt)
                    continue
                if src is not None:
                    if len(dst) == 1:
                        work.append((g, dst[0]))
                    else:
                        bad.append("stores it")
            t = b["t"]
            if t and t["k"] == "call":
                for j, a in enumerate(t["a"]):
                    if a[0] in ("c", "m") and a[1] == [l]:
                        path, h = None, None
                        c = callee(t)
                        m = P.fns.get(t.get("rs")) if isinstance(t.get("rs"), str) else None
                        nm = c if isinstance(c, str) else (t.get("fn") or "")
                        if nm.endswith(("::is_null", "::eq", "::ne", "::addr")):
                            continue
                        if nm.endswith(("::cast", "::cast_mut", "::cast_const", "::as_ref", "::as_mut")) and len(t["d"]) == 1:
                            dt = P.pointee(g.locals[t["d"][0]])
                            pt = P.tn(dt) if dt is not None else kind if kind in P.tn(g.locals[t["d"][0]]) else "?"
                            if pt == kind:
                                views += 1
                            elif pt not in HTYPES(P, f, k):
                                bad.append("views it as %s" % pt)
                            work.append((g, t["d"][0]))
                            continue
                        if "from_raw" in nm:
                            boxes += 1
                            pt = P.tn(P.pointee(g.locals[l]))
                            if pt != kind:
                                bad.append("rebuilds a box of %s from it" % pt)
                            continue
                        hit = None
                        for h in P.bypath.get(nm, []):
                            hit = h
                        if hit is not None and hit.argc == len(t["a"]) and hit.local:
                            work.append((hit, j + 1))
                        elif is_log(nm):
                            pass
                        else:
                            bad.append("passes it to %s" % nm)
    what = "%s parameter %d" % (op, k)
    R.check("handle use", not bad, what, "%s: %s" % (what, sorted(set(bad))[:1] and sorted(set(bad))[0]), what)
    if op in DESTROY:
        R.check("handle use", boxes == 1, what + ":release", "%s does not release a %s" % (op, kind), what)
    else:
        R.check("handle use", views > 0 or bool(bad), what + ":typed", "%s never uses it as %s" % (what, kind), what)


_h = {}


def HTYPES(P, f, k):
    """the names under which an untyped handle may still appear"""
    return {P.tn(P.pointee(f.locals[k])), "c_void", "core::ffi::c_void", "std::ffi::c_void", "libc::c_void"}


def produce(R, P, f, op, kind):
    made = CREATE[kind]
    A = Api(P, lambda p: p in made)
    I = A.interp()
    I.merge = False
    box_models(I)
    st = State(I.cx)
    args = [I.sym(f.locals[k], "arg", k) for k in range(1, f.argc + 1)]
    good = False
    outs = I.exec_fn(f, args, st)
    for s, r in outs:
        ev = [e for e in s.evlist() if e[0] == "call" and e[1] in made]
        null = r == NULL or s.decide(I.ptr_null(s, r)) is True
        if null:
            R.ok("handle creation", "%s: null result" % op)
            continue
        o, path = root(r)
        t = P.tn(o[1]) if o[0] == "obj" else None
        if t != kind or path:
            R.fail("handle creation", op, "%s hands out a %s, not a %s" % (op, t or "pointer of unknown origin", kind))
            continue
        v = I.rd(s, o, I0)
        ok = len(ev) == 1 and contains(v, lambda x: isinstance(x, tuple) and len(x) > 3 and x[0] == "S" and x[2] == "ret" and x[3] == ev[0][1])
        failed = any(val not in (None,) and created_failed(P, k, val, ev) for k, val in s.var.items())
        R.check("handle creation", ok and not failed, op, "%s hands out an object although its creation %s" % (op, "failed" if failed else "was not performed"), op)
        good = good or ok and not failed
    R.check("handle creation", good, op + ":some", "%s never hands out a handle" % op, op)


def created_failed(P, k, val, ev):
    if not ev or len(k) < 4 or k[0] != "S" or k[2] != "ret" or k[3] != ev[0][1]:
        return False
    tn = P.tn(k[1])
    return val == (0 if "Option" in tn else 1)
