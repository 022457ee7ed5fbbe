"""C15: header parsing stays inside its segment."""
from mir import Prog, Missing, callee, calls
from absint import *
from apimodel import *
from segread import *

LEVEL = "other"
TECHNIQUE = "abstract interpretation of every marker segment reader and JP2 box reader; each read and copied byte range is entailed to lie inside the segment"
NOTE = ("Every reader is interpreted over all inputs: symbolic contents, length and decoder state. Allocation of destination buffers and the body of compressed tile data "
        "are not part of it; memory read through image and tile records is C16's subject.")
EXPLANATION = ("The readers are those the marker and box dispatch functions call, plus the functions that merge stored packet headers. Each is interpreted abstractly over "
               "every segment pointer, length and content; each byte read, float read, block copy and direct access at base+o of k bytes must have o+k <= length entailed on every path. "
               "A path that returns success with fewer bytes than the segment's mandatory fields is a violation. Where the header procedures fetch a segment, the bytes handed to a "
               "reader must be those the last stream read delivered in full. The JP2 readers run in the debug build too, where an over-long subtraction would panic.")
ASSUMPTIONS = ["an encoder-side caller never gets a decoded image's component count above 16384: image component counts above that come only from images the caller made",
               "packet-part headers kept in a record carry their length in the same record (checked at every store of that length)"]

# marker -> bytes its mandatory fields take
MIN = {"siz": 36, "cod": 10, "coc": 7, "qcd": 1, "qcc": 2, "poc": 7, "tlm": 2, "plm": 1, "plt": 1, "ppm": 2, "ppt": 2, "sot": 8, "rgn": 3, "mct": 2, "mcc": 2, "mco": 1, "cbd": 2}
BOXMIN = {"jp": 4, "ftyp": 8, "ihdr": 14, "colr": 3, "pclr": 3, "cdef": 2}
FINV = {("types::opj_tcp", "numpocs"): (0, 31), ("image::opj_image", "numcomps"): (0, MAXC), ("types::opj_j2k_dec", "m_header_data_size"): (2, 2 ** 32 - 1)}
STOP = ("stream::", "malloc::", "image::", "tcd::", "j2k::J2KMarker")
FETCH = ("read_soc", "read_unk", "read_header_procedure", "need_nb_tile_parts_correction", "read_tile_header", "decode_tile")
BASE_REC = ("read_ppm", "read_ppt", "read_mct")


def stop(p):
    return p.startswith(STOP)


def short(f):
    return f.split("::")[-1]


def readers(P):
    """functions the marker dispatch calls with a segment"""
    out = set()
    for f in P.local_fns():
        if f.path == "j2k::J2KMarker::handler":
            for _, t in calls(f):
                c = callee(t)
                if c in P.bypath and P.bypath[c][0].local:
                    g = P.bypath[c][0]
                    if g.argc >= 3:
                        out.add(c)
    if len(out) < 15:
        raise Missing("the marker dispatch calls %d readers" % len(out))
    return out


def segment_args(P, f, args):
    """(data, size): the byte pointer and the u32 length that follows it"""
    for i in range(1, f.argc):
        a, b = f.locals[i], f.locals[i + 1]
        if P.types[a].get("k") == "ptr" and P.tn(P.pointee(a)) == "u8" and P.tn(b) == "u32":
            return args[i - 1], args[i], i
    return None, None, None


def job(x):
    mode, path, peel = x
    P = PR[mode]
    f = P.bypath[path][0]
    sg = Seg(P, f, None, None, stop, fork16=("read_mcc",), finv=FINV, **({"peel": peel} if peel else {}))
    I = sg.I
    st = State(I.cx)
    args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
    sg.data, sg.size, k = segment_args(P, f, args)
    bad = []
    sizes = []

    def on_store(I, st, base, pth, v):
        if I.record or not pth or pth[-1][0] != "f":
            return
        nm = pth[-1][2]
        if nm == "numpocs":
            if st.decide(mk_cmp("lt", K(31), v)) is not False:
                bad.append(("numpocs", "the number of progression order changes can be stored as more than 31"))
        elif nm == "numcomps" and short(path) == "opj_j2k_read_siz":
            sizes.append(v)
        elif nm == "m_data_size" and v != K(0):
            d = I.rd(st, base, pth[:-1] + (("f", None, "m_data"),)) if False else None
            rec = [e for e in st.evlist() if e[0] == "alloc" and st.decide(mk_cmp("eq", e[2], v)) is True]
            if not rec:
                bad.append(("m_data_size", "a kept segment's length is stored as a value no allocation was made with"))
    I.on_store = on_store
    oc = I.on_call

    def on_call(I, st, pth, key, a, rt, tt, ff, bb):
        r = oc(I, st, pth, key, a, rt, tt, ff, bb)
        if pth in ("malloc::opj_realloc", "malloc::opj_malloc", "malloc::opj_calloc"):
            for s, v in r:
                s.ev("alloc", v, a[-1])
        return r
    I.on_call = on_call
    try:
        sg.run(args, st)
    except Missing as e:
        return path, "missing", str(e), [], [], [], []
    obs = []
    for (fp, kind, line), l in sg.res.items():
        for r in l:
            if r[0] is None:
                if kind in ("copy",):
                    continue        # not from a segment
                obs.append((fp, kind, False, "does not read from the segment"))
            else:
                obs.append((fp, kind, r[0], ""))
    # least length at success
    m = None
    for s, v in sg.outs:
        if k is None:
            break
        if s.decide(mk_cmp("eq", v, K(0))) is True or v == K(0):
            continue
        s2 = s.copy()
        if v[0] != "k":
            s2.assume(mk_cmp("eq", v, K(0)), False)
            if s2.dead or not s2.feasible():
                continue
        lo = s2.rng(sg.size)[0]
        w = MIN.get(short(path).replace("opj_j2k_read_", ""))
        if w is not None and s2.decide(mk_cmp("lt", sg.size, K(w))) is not False:
            m = (w, lo)
    if short(path) == "opj_j2k_read_siz":
        for v in sizes:
            pass
        for s, v in sg.outs:
            if v == K(0):
                continue
            img = [x for x in sizes]
            if not img or any(s.decide(mk_cmp("lt", K(MAXC), x)) is not False for x in img[-1:]):
                bad.append(("numcomps", "an image size segment can be accepted with more than 16384 components"))
                break
    return path, "ok", m, obs, sorted(set(bad)), sorted(I.visited) if hasattr(I, "visited") else [], len(sg.outs)


def fetch_job(x):
    mode, n = x
    P = PR[mode]
    f = P.bypath["j2k::opj_j2k_" + n][0]

    def st_(p):
        return p.startswith(("stream::", "j2k::opj_j2k_", "j2k::J2KMarker::states", "j2k::J2KMarker::handler", "<j2k::J2KMarker as std::convert::From", "malloc::", "tcd::", "image::"))
    A = Api(P, st_, havoc=True, merge=True)
    I = A.interp()
    I.cx.finv = FINV
    oc = I.on_call
    obs = []

    def fills(st, b):
        for e in reversed(st.evlist()):
            if e[0] == "fill" and e[1] == b:
                return e
        return None

    def cap(st, b):
        if b[0] == "S" and b[2] == "ret" and b[3] in ("malloc::opj_realloc", "malloc::opj_malloc"):
            for e in reversed(st.evlist()):
                if e[0] == "alloc" and e[1] == b:
                    return e[2]
        if is_field(b, "m_header_data"):
            return ("S", P.tybyname["u32"], "fld", b[3], "m_header_data_size")
        return None

    def arrlen(st, b):
        """capacity of a local buffer, from its type"""
        if b[0] == "L" and b in st.mem:
            t = P.types[st.mem[b][0]]
            if t["k"] == "array":
                return K(t["len"])
        return None

    def on_call(I, st, path, key, args, rt, tt, ff, bb):
        r = oc(I, st, path, key, args, rt, tt, ff, bb)
        if path == "stream::opj_stream_read_data":
            b, o = off(args[1])
            c = cap(st, b)
            if c is None:
                c = arrlen(st, b)
            if not I.record:
                obs.append((ff.path, "room", None if c is None else st.decide(mk_cmp("lt", c, add(o, args[2]))) is False, str(b)[:100]))
            for s, v in r:
                s.ev("fill", b, o, args[2], v)
        elif path == "j2k::J2KMarker::handler":
            b, o = off(args[2])
            e = fills(st, b)
            ok = e is not None and e[2] == o and st.decide(mk_cmp("eq", e[4], e[3])) is True and st.decide(mk_cmp("lt", e[3], args[3])) is False
            if not I.record:
                obs.append((ff.path, "handler", ok, ""))
        elif path in ("malloc::opj_realloc", "malloc::opj_malloc"):
            for s, v in r:
                s.ev("alloc", v, args[-1])
        return r
    I.on_call = on_call

    def rb(I, st, a, rt, t, fn, bb, depth, fr):
        b, o = off(a[0])
        e = fills(st, b)
        ok = e is not None and st.decide(mk_cmp("eq", e[4], e[3])) is True and st.decide(mk_cmp("lt", add(e[2], e[3]), add(o, a[2]))) is False
        if not I.record:
            obs.append((fn.path, "read", ok, ""))
        v = I.fresh(st, P.tybyname["u32"], "rb", fn.key, bb)
        if a[2][0] == "k" and a[2][1] < 4:
            st.assume(mk_cmp("lt", v, K(256 ** a[2][1])), True)
        wrp(I, st, a[1], v)
        return [(st, ("agg", "tuple", 0, ()))]
    I.models["cio::opj_read_bytes"] = rb
    args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
    try:
        outs = I.exec_fn(f, args, State(I.cx))
    except Missing as e:
        return f.path, str(e), [], []
    return f.path, None, obs, sorted(I.visited)


PR = {}


def any_job(x):
    return job(x[1:]) if x[0] == "seg" else fetch_job(x[1:]) if x[0] == "fetch" else box_job(x[1:])


def box_job(x):
    mode, n = x
    P = PR[mode]
    f = P.bypath["jp2::opj_jp2_read_" + n][0]
    A = Api(P, lambda p: p.startswith(("jp2::opj_jp2_read_", "stream::")), merge=True)
    I = A.interp()
    seen, pan = [], []
    slice_reads(I, seen)
    I.on_panic = lambda I, st, what, fn, bb, t: pan.append((fn.path, str(what)))
    args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
    try:
        outs = I.exec_fn(f, args, State(I.cx))
    except Missing as e:
        return f.path, str(e), [], [], None, []
    least = None
    w = BOXMIN.get(n)
    if w:
        ln = None
        for s, v in outs:
            if v == K(0) or not any(e[0] == "take" for e in s.evlist()):
                continue
            for i in range(1, f.argc + 1):
                ty = P.types[f.locals[i]]
                if ty["k"] == "ref" and P.types[P.pointee(f.locals[i])]["k"] == "slice":
                    p = I.as_ptr(args[i - 1])
                    ln = p[3]
            if ln is None:
                least = (w, "no byte slice parameter")
            elif s.decide(mk_cmp("lt", ln, K(w))) is not False:
                least = (w, s.rng(ln)[0])
    return f.path, None, [(a, c) for a, b, c in seen], sorted(set(pan)), least, len(outs)


def run(R):
    PR["release"] = P = Prog("openjp2", "release")
    PR["debug"] = Prog("openjp2", "debug")
    rd = readers(P)
    extra = ["j2k::opj_j2k_merge_ppm", "j2k::opj_j2k_merge_ppt"]
    todo = [("seg", "release", p, 1 if short(p) == "opj_j2k_read_mcc" else 0) for p in sorted(rd, key=lambda p: 0 if "mcc" in p or "mco" in p else 1)]
    for p in extra:
        if p in P.bypath:
            todo.append(("seg", "release", p, 0))
    todo += [("fetch", "release", n) for n in FETCH]
    boxes = [n for n in ("jp", "ftyp", "jp2h", "ihdr", "colr", "bpcc", "pclr", "cdef", "cmap") for m in ("release", "debug")]
    todo += [("box", m, n) for n in ("jp", "ftyp", "jp2h", "ihdr", "colr", "bpcc", "pclr", "cdef", "cmap") for m in ("release", "debug")]
    res = fork_map(any_job, todo)
    visited = set()
    n = 0
    for x, r in zip(todo, res):
        if x[0] == "seg":
            path, status, m, obs, bad, vis, outs = r
            nm = short(path)
            if status != "ok":
                raise Missing("%s: %s" % (path, m))
            visited |= set(vis)
            n += 1
            for fp, kind, ok, why in obs:
                R.check("reads", ok, "%s:%s" % (short(fp), kind), "%s in %s: %s" % ({"read": "a byte read", "copy": "a block copied", "direct": "a byte accessed"}[kind], fp, why or "is not bounded by the segment's length on every path"), "%s: %s inside the segment" % (fp, kind))
            if m is None:
                R.ok("minimum", "%s refuses segments shorter than %s" % (nm, MIN.get(nm.replace("opj_j2k_read_", ""), "its reads need")))
            else:
                R.fail("minimum", "%s:short" % nm, "%s can accept a segment of %s bytes; its mandatory fields take %d" % (path, m[1], m[0]))
            for k, t in bad:
                R.fail("lengths kept", "%s:%s" % (nm, k), "%s: %s" % (path, t))
            R.ok("lengths kept", nm)
        elif x[0] == "fetch":
            path, err, obs, vis = r
            if err:
                raise Missing("%s: %s" % (path, err))
            visited |= set(vis)
            for fp, kind, ok, why in obs:
                if kind == "room" and ok is None and "L" in why[:6]:
                    continue
                R.check("fetch", ok, "%s:%s" % (short(fp), kind), "%s: %s" % (fp, {"room": "bytes are fetched into a buffer not known to have room for them " + why, "handler": "a segment is handed on with more bytes than the last fetch delivered",
                        "read": "a field is read from bytes the last fetch did not deliver"}[kind]), "%s: %s" % (fp, kind))
        else:
            path, err, seen, pan, least, outs = r
            if err:
                raise Missing("%s (%s): %s" % (path, x[1], err))
            for fp, never in seen:
                R.ok("boxes", "%s: read %s" % (fp, "always in bounds" if never else "in bounds or refused"))
            for fp, what in pan:
                R.fail("boxes", "%s:panic" % short(path), "%s (%s build) can stop the program on a short or malformed box, in %s: %s" % (path, x[1], fp, what[:120]))
            if least is not None:
                R.fail("boxes", "%s:short" % short(path), "%s can accept a box of %s bytes; its mandatory fields take %d" % (path, least[1], least[0]))
            R.ok("boxes", "%s in the %s build" % (path, x[1]))
    # completeness: whoever parses bytes was interpreted
    prim = ("cio::opj_read_bytes", "cio::opj_read_float", "cio::opj_read_double")
    for f in P.local_fns():
        cs = {callee(t) for _, t in calls(f)} & set(prim)
        if cs and not f.path.startswith("cio::") and f.path not in NOT_HEADER:
            R.check("completeness", f.path in visited or f.key in visited, "%s:unvisited" % short(f.path), "%s reads header fields but is not part of any interpreted reader" % f.path, f.path)
    R.analysed["segment readers"] = n
    R.floor("reads", 150)
    R.floor("boxes", 60)
    R.floor("fetch", 20)


NOT_HEADER = ()
