"""C10: public codec functions tolerate null handles and pointers."""
import re
from apimodel import *

LEVEL = "other"
TECHNIQUE = "abstract interpretation (MIR) of every exported function once per pointer parameter with that parameter null: no dereference, no panic, failure result, no effect"
NOTE = ("Every pointer parameter of every exported function of openjpeg.rs and image.rs is made null in turn while all other values stay unknown. "
        "Functions of the engine are reached only with non-null objects and are not entered.")
EXPLANATION = ("Each exported function is interpreted abstractly once per pointer parameter, that parameter being null and everything else arbitrary. "
               "No path may dereference it, build a slice, string or box from it, hand it to the engine, panic, or write through another argument; every path must return the failure value "
               "(0, null, nothing). Parameters that are documented as optional only must not be dereferenced.")
ASSUMPTIONS = ["optional parameters are those in the table OPTIONAL of checks/c10.py", "system free accepts null"]

# parameters for which null is a meaningful value
OPTIONAL = {
    "opj_set_info_handler": {3}, "opj_set_warning_handler": {3}, "opj_set_error_handler": {3},
    "opj_encoder_set_extra_options": {2},
    "opj_set_decoded_components": {3},
    "opj_read_tile_header": {3, 4, 5, 6, 7, 8, 9, 10},
    "opj_decode_tile_data": {3},
    "opj_write_tile": set(),
    "opj_stream_set_user_data": {2},
    "opj_set_decode_area": set(),
}
FREE_OK = re.compile(r"^(malloc::opj_(aligned_)?(free|realloc)|malloc::opj_aligned_32_realloc|libc::.*::free|.*::free)$")
NEUTRAL = re.compile(r"(::is_null|::cast|::cast_mut|::cast_const|::cast::<.*>|::eq|::ne|::guaranteed_eq|::const_eval_select|::addr|^std::intrinsics|^core::intrinsics)")


def stop(p):
    return bool(re.match(r"^j2k::(opj_j2k_|j2k_)|^jp2::opj_jp2_", p)) and p not in ("j2k::j2k_destroy_cstr_index",)


def uses(v, a):
    """is the pointer value v built on the argument a"""
    r, _ = root(v)
    return r == a


def run(R):
    P = Prog("openjp2", "release")
    fs = sorted([f for f in P.local_fns() if f.d.get("nomangle") and f.path.split("::")[0] in ("openjpeg", "image")], key=lambda f: f.path)
    n = 0
    for f in fs:
        op = f.path.split("::")[-1]
        for i in range(1, f.argc + 1):
            if P.kind(f.locals[i]) != "ptr":
                continue
            n += 1
            one(R, P, f, op, i)
    for op in OPTIONAL:
        R.check("functions", any(f.path.endswith("::" + op) for f in fs), op, "exported function %s is missing" % op, op)
    R.floor("null parameter", 60)
    R.analysed["exported functions"] = len(fs)
    R.analysed["pointer parameters"] = n


def one(R, P, f, op, i):
    what = "%s parameter %d" % (op, i)
    optional = i in OPTIONAL.get(op, ())
    A = Api(P, stop)
    I = A.interp()
    I.merge = False
    box_models(I)
    st = State(I.cx)
    args = [I.sym(f.locals[k], "arg", k) for k in range(1, f.argc + 1)]
    a = args[i - 1]
    st.assume(("isnull", a), True)
    bad = {}

    def deref(I, st, v):
        if uses(v, a):
            bad.setdefault("dereferences it", st)

    def panic(I, st, *r):
        bad.setdefault("panics", st)
    inner = I.on_call

    def on_call(I, st, path, key, xs, rt, t, fn, bb):
        if path is not None and any(uses(x, a) for x in xs) and not NEUTRAL.search(path) and not is_log(path):
            m = P.fns.get(key)
            if stop(path):
                if not optional:
                    bad.setdefault("hands it to %s" % path, st)
            elif FREE_OK.search(path):
                pass
            elif re.search(r"from_raw|from_ptr|::read|::write|::copy|deref|::as_ref|::offset_from", path):
                if not re.search(r"::as_ref$|::as_mut$", path):
                    bad.setdefault("uses it in %s" % path, st)
            elif m is None:
                bad.setdefault("hands it to %s" % path, st)
        return inner(I, st, path, key, xs, rt, t, fn, bb)
    I.on_deref, I.on_panic, I.on_call = deref, panic, on_call
    outs = I.exec_fn(f, args, st)
    for k in bad:
        R.fail("null parameter", "%s: %s" % (what, k), "%s given null for parameter %d %s" % (op, i, k))
    if not outs:
        R.check("null parameter", bool(bad), what + ": no result", "%s given null for parameter %d never returns" % (op, i), what)
        return
    if bad:
        return
    if optional:
        R.ok("null parameter", what + ": optional, not dereferenced")
        return
    for s, r in outs:
        ev = [e for e in s.evlist() if e[0] == "call"]
        w = [k for k in s.mem if k[0] == "objs" and strip_casts(k[1]) in args and any((k[1], j) in s.mem for j in s.mem[k][1])]
        isp = P.kind(f.locals[0]) == "ptr"
        fail = r == NULL or s.decide(I.ptr_null(s, r)) is True if isp else r in (K(0), FALSE)
        unit = P.kind(f.locals[0]) == "tuple"
        bads = "performs %s" % ev[0][1] if ev else "writes through another argument" if w else "does not return its failure value" if not (fail or unit) else None
        R.check("null parameter", bads is None, what, "%s given null for parameter %d %s" % (op, i, bads), what)
