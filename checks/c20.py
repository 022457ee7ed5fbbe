"""C20: marker and box codes."""
from apimodel import *

LEVEL = "other"
TECHNIQUE = "abstract interpretation of the code tables and dispatchers over every code, compared with the standard's tables; guard analysis at the dispatch sites"
NOTE = "Decides the code tables, the dispatch and its guards and the marker each writer starts with; bit-stream markers (SOP, EPH) are not covered."
EXPLANATION = ("The conversion functions are interpreted with the code number unknown: each path's conditions must pin the number to exactly the code ISO 15444-1/-2/-9 gives "
               "the returned kind, every listed code must be reached, and the remaining path must exclude all of them. Back-conversion, allowed states, classification and "
               "parser dispatch are interpreted once per kind and compared with a table. In the header loops the parser may only be called where the conditions of the path "
               "imply that the marker's allowed states include the present state; box contents are only parsed for a file box, or for an image box after the JP2 header. "
               "Writers must begin their segment with their own marker.")
ASSUMPTIONS = ["the code tables in this check are those of ISO/IEC 15444-1 Table A.2 and Annex I, 15444-2 and 15444-9"]

MARK = {"SOC": 0xFF4F, "SOT": 0xFF90, "SOD": 0xFF93, "EOC": 0xFFD9, "CAP": 0xFF50, "SIZ": 0xFF51, "COD": 0xFF52, "COC": 0xFF53, "CPF": 0xFF59, "RGN": 0xFF5E,
        "QCD": 0xFF5C, "QCC": 0xFF5D, "POC": 0xFF5F, "TLM": 0xFF55, "PLM": 0xFF57, "PLT": 0xFF58, "PPM": 0xFF60, "PPT": 0xFF61, "SOP": 0xFF91, "EPH": 0xFF92,
        "CRG": 0xFF63, "COM": 0xFF64, "CBD": 0xFF78, "MCC": 0xFF75, "MCT": 0xFF74, "MCO": 0xFF77}


def cc(s):
    return int.from_bytes(s.encode(), "big")


BOX = {"JPIP": cc("jpip"), "JP": cc("jP  "), "FTYP": cc("ftyp"), "JP2H": cc("jp2h"), "IHDR": cc("ihdr"), "COLR": cc("colr"), "JP2C": cc("jp2c"), "URL": cc("url "),
       "PCLR": cc("pclr"), "CMAP": cc("cmap"), "CDEF": cc("cdef"), "DTBL": cc("dtbl"), "BPCC": cc("bpcc"), "JP2": cc("jp2 "), "RES": cc("res "), "JP2I": cc("jp2i"),
       "XML": cc("xml "), "UUID": cc("uuid"), "UINF": cc("uinf")}
JPIP = {"Cidx": cc("cidx"), "Cptr": cc("cptr"), "Manf": cc("manf"), "Faix": cc("faix"), "Mhix": cc("mhix"), "Tpix": cc("tpix"), "Thix": cc("thix"), "Ppix": cc("ppix"),
        "Phix": cc("phix"), "Fidx": cc("fidx"), "Fptr": cc("fptr"), "Prxy": cc("prxy"), "Iptr": cc("iptr"), "Phld": cc("phld")}

# parser and allowed places; M main header, T tile-part header, S right after SOC, P where a tile-part must start
PLACE = {"SOT": ("sot", "MP"), "SIZ": ("siz", "S"), "COD": ("cod", "MT"), "COC": ("coc", "MT"), "RGN": ("rgn", "MT"), "QCD": ("qcd", "MT"), "QCC": ("qcc", "MT"),
         "POC": ("poc", "MT"), "TLM": ("tlm", "M"), "PLM": ("plm", "M"), "PLT": ("plt", "T"), "PPM": ("ppm", "M"), "PPT": ("ppt", "T"), "CRG": ("crg", "M"),
         "COM": ("com", "MT"), "MCT": ("mct", "MT"), "CBD": ("cbd", "M"), "CAP": ("cap", "M"), "CPF": ("cpf", "M"), "MCC": ("mcc", "MT"), "MCO": ("mco", "MT")}
STATE = {"M": "MH", "T": "TPH", "S": "MHSIZ", "P": "TPHSOT"}
BOXREAD = {"JP": "jp", "FTYP": "ftyp", "JP2H": "jp2h", "IHDR": "ihdr", "COLR": "colr", "BPCC": "bpcc", "PCLR": "pclr", "CDEF": "cdef", "CMAP": "cmap"}
WRITER = {"soc": "SOC", "siz": "SIZ", "com": "COM", "cod": "COD", "coc_in_memory": "COC", "qcd": "QCD", "qcc_in_memory": "QCC", "poc_in_memory": "POC", "tlm": "TLM", "sot": "SOT",
          "plt_in_memory": "PLT", "sod": "SOD", "rgn": "RGN", "eoc": "EOC", "mct_record": "MCT", "mcc_record": "MCC", "mco": "MCO", "cbd": "CBD"}
BOXWRITE = {"opj_jp2_write_ihdr": "IHDR", "opj_jp2_write_bpcc": "BPCC", "opj_jp2_write_cdef": "CDEF", "opj_jp2_write_colr": "COLR", "opj_jp2_write_jp2h": "JP2H",
            "opj_jp2_write_ftyp": "FTYP", "opj_jp2_write_jp2c": "JP2C", "opj_jp2_write_jp": "JP"}


def fn(P, path):
    r = [g for g in P.local_fns() if g.path == path]
    if not r:
        raise Missing("function " + path)
    return r[0]


def deep(v, n):
    """the numbers inside nested one-field structures"""
    while v[0] == "agg" and len(v[3]) == 1:
        v = v[3][0]
    return v


class T:
    def __init__(self, P, R, adt, group):
        self.P, self.R, self.adt, self.group = P, R, adt, group
        a = P.adts.get(adt)
        if a is None:
            raise Missing(adt)
        self.names = [v["n"] for v in a["v"]]
        self.tid = P.tybyname[adt]

    def val(self, i, payload=()):
        return ("agg", self.adt, i, tuple(payload))

    def from_code(self, path, codes, unk):
        P, R = self.P, self.R
        f = fn(P, path)
        I, a, outs = Api(P, lambda p: False).run(f)
        R.analysed.setdefault("conversions", []).append(path)
        seen = {}
        for st, r in outs:
            if st.dead or not st.feasible():
                continue
            if r[0] != "agg" or r[1] != self.adt or not isinstance(r[2], int):
                R.fail(self.group, path + ":result", "%s returns something that is not a kind" % path)
                continue
            n = self.names[r[2]]
            for m, c in codes.items():
                if n != m and st.decide(mk_cmp("eq", a[0], K(c))) is not False:
                    R.fail(self.group, "%s:%s" % (path, m), "%s turns 0x%X, which is %s, into %s" % (path, c, m, n))
            if n == unk:
                seen[n] = True
                R.check(self.group, r[3] == (a[0],), path + ":unknown", "%s does not keep the unknown code" % path)
            else:
                w = codes.get(n)
                seen[n] = True
                R.check(self.group, w is not None and st.decide(mk_cmp("eq", a[0], K(w))) is True, "%s:%s only" % (path, n),
                        "%s gives %s to a code other than %s" % (path, n, "0x%X" % w if w else "none"), "%s <- only 0x%X" % (n, w or 0))
        for n in list(codes) + [unk]:
            R.check(self.group, n in seen, "%s:%s reached" % (path, n), "%s never returns %s" % (path, n), "%s reached" % n)

    def each(self, path, extra=lambda I: [], stop=lambda p: False):
        """[(variant name, args, [(state, result)])]"""
        f = fn(self.P, path)
        for i, n in enumerate(self.names):
            A = Api(self.P, stop)
            I = A.interp()
            st = State(I.cx)
            nf = len(self.P.adts[self.adt]["v"][i]["f"])
            pay = [("S", None, "payload", k) for k in range(nf)]
            p = I.newobj(st, self.tid, ("which", n), self.val(i, pay))
            byval = self.P.kind(f.locals[1]) == "adt"
            args = [self.val(i, pay) if byval else p] + [I.sym(f.locals[k], "arg", k) for k in range(2, f.argc + 1)]
            outs = [(s, r) for s, r in I.exec_fn(f, args, st) if not s.dead]
            yield n, pay, args, outs

    def to_code(self, path, codes, unk, option, none=()):
        for n, pay, args, outs in self.each(path):
            want = K(codes[n]) if n in codes else pay[0] if n == unk else None
            for s, r in outs:
                v = r
                if option:
                    v = r[3][0] if r[0] == "agg" and len(r[3]) == 1 else None
                if n in none:
                    continue
                self.R.check(self.group, v == want, "%s:%s" % (path, n), "%s gives %s for %s" % (path, hex(v[1]) if v and v[0] == "k" else v, n), "%s -> code" % n)

    def flag(self, path, yes):
        for n, pay, args, outs in self.each(path):
            for s, r in outs:
                self.R.check(self.group, r == K(1 if yes(n) else 0), "%s:%s" % (path, n), "%s answers %s for %s" % (path, r, n), "%s(%s)" % (path, n))


def fail_result(r):
    return r == K(0) or (r[0] == "agg" and r[1].endswith("Result") and r[2] == 1)


def state_consts(P):
    out = {}
    for k, c in P.consts.items():
        if "J2KState" in k or "InternalBitFlags" in k:
            n = k.rsplit("::", 1)[1]
            v = c["c"]
            while isinstance(v, dict) and "f" in v:
                v = v["f"][0]
            if isinstance(v, dict) and "v" in v:
                out[n] = v["v"]
    return out


def markers(R, P):
    g = "markers"
    t = T(P, R, "j2k::J2KMarker", g)
    t.from_code("<j2k::J2KMarker as std::convert::From<u32>>::from", MARK, "UNK")
    t.to_code("j2k::J2KMarker::as_u32", MARK, "UNK", False)
    t.flag("j2k::J2KMarker::is_unknown", lambda n: n == "UNK")
    # not a marker at all
    for n, pay, args, outs in t.each("j2k::J2KMarker::is_invalid"):
        for s, r in outs:
            c = pay[0] if n == "UNK" else K(MARK[n])
            w = mk_cmp("lt", c, K(0xFF00))
            ok = r == w or (r[0] == "k" and s.decide(w) is (r[1] != 0))
            R.check(g, ok, "is_invalid:%s" % n, "is_invalid does not compare %s with 0xFF00" % n, "is_invalid(%s)" % n)
    # a marker is the big-endian number of the first two bytes
    f = fn(P, "j2k::J2KMarker::from_buffer")
    A = Api(P, lambda p: p.startswith("<j2k::J2KMarker as std::convert::From"))
    I = A.interp()
    val = []

    def rd(I, st, a, rt, tt, ff, bb, depth, fr):
        v = ("S", P.tybyname.get("u32", 12), "bytes", a[0], a[2])
        val.append((a[0], a[2]))
        wrp(I, st, a[1], v)
        return [(st, ("agg", "tuple", 0, ()))]
    I.models["cio::opj_read_bytes"] = rd
    _, args, outs = A.run(f, I=I)
    for st, r in outs:
        ev = [e for e in st.evlist() if e[0] == "call" and "From" in e[1]]
        ok = len(ev) == 1 and ev[0][2][0][0] == "S" and ev[0][2][0][2:] == ("bytes", args[0], K(2))
        R.check(g, ok, "from_buffer", "from_buffer does not take the marker from the first two bytes", "from_buffer")
    # allowed states
    sc = state_consts(P)
    for need in STATE.values():
        if need not in sc:
            raise Missing("J2KState::" + need)
    vals = [v for v in sc.values() if v]
    R.check(g, all(v & (v - 1) == 0 for v in sc.values()) and len(set(vals)) == len(vals), "state bits", "the header states do not have distinct bits", "state bits distinct")
    g = "places"
    t.group = g
    dispatch = {}
    for n, pay, args, outs in t.each("j2k::J2KMarker::handler", stop=lambda p: p.startswith("j2k::opj_j2k_read_")):
        for s, r in outs:
            ev = [e for e in s.evlist() if e[0] == "call"]
            if n not in PLACE:
                R.check("dispatch", not ev and r == K(0), "handler:%s" % n, "a parser is called for %s, which has no segment" % n, "%s has no parser" % n)
                continue
            want = "j2k::opj_j2k_read_" + PLACE[n][0]
            R.check("dispatch", len(ev) == 1 and ev[0][1] == want and ev[0][2] == tuple(args[1:]), "handler:%s" % n,
                    "%s is given to %s" % (n, [e[1] for e in ev]), "%s -> %s" % (n, want))
            dispatch[n] = 1
            if ev:
                R.check("dispatch", r[0] == "S" and r[2] == "ret" and r[3] == ev[0][1], "handler result:%s" % n, "the parser's answer for %s is not the dispatcher's" % n)
    for n, pay, args, outs in t.each("j2k::J2KMarker::states"):
        if n not in PLACE:
            continue
        w = 0
        for x in PLACE[n][1]:
            w |= sc[STATE[x]]
        for s, r in outs:
            R.check(g, deep(r, 0) == K(w), "states:%s" % n, "%s is accepted in states %s; allowed are %s" % (n, deep(r, 0), w), "%s in %s" % (n, PLACE[n][1]))
    return t


def loops(R, P, t):
    """the parser is called only where the marker is allowed"""
    g = "dispatch sites"
    known = ("j2k::opj_j2k_read_header_procedure", "j2k::opj_j2k_read_tile_header", "j2k::opj_j2k_read_unk")
    callers = [f for f in P.local_fns() if any(callee(c) == "j2k::J2KMarker::handler" for _, c in calls(f))]
    R.check(g, len(callers) >= 2, "callers", "the marker dispatcher has fewer than two callers", "%d functions dispatch markers" % len(callers))
    callers = top_callers(P, callers)
    for f in callers + [fn(P, known[2])]:
        def stop(p):
            return p.startswith(("stream::", "j2k::opj_j2k_", "j2k::J2KMarker::", "<j2k::J2KMarker as std::convert::From", "cio::", "malloc::", "tcd::"))
        A = Api(P, stop, havoc=True, merge=True)
        I = A.interp()
        hits = []
        oc = I.on_call

        def bits(st, m):
            return ("S", P.tybyname.get("u32", 12), "allowed", m)

        def marker(I, st, p):
            return rdp(I, st, p) if p[0] != "agg" else p

        def on_call(I, st, path, key, args, rt, tt, ff, bb):
            if path == "j2k::J2KMarker::states":
                m = marker(I, st, args[0])
                b = bits(st, m)
                return [(st, ("agg", "j2k::J2KState", 0, (("agg", "j2k::_::InternalBitFlags", 0, (b,)),)))]
            if path == "j2k::J2KMarker::handler":
                m = marker(I, st, args[0])
                hits.append((st.copy(), m, args, tt))
            return oc(I, st, path, key, args, rt, tt, ff, bb)
        I.on_call = on_call
        _, args, outs = A.run(f, I=I)
        R.analysed.setdefault("dispatch sites", []).append("%s: %d paths" % (f.short, len(hits)))

        def guarded(st, m):
            for k, v in st.facts.items():
                if k[0] == "cmp" and k[1] == "eq" and v is False and k[3] == K(0) or k[0] == "cmp" and k[1] == "eq" and v is False and k[2] == K(0):
                    x = k[2] if k[3] == K(0) else k[3]
                    if x[0] == "and" and len(x) == 3:
                        for a, b in ((x[1], x[2]), (x[2], x[1])):
                            if a[0] == "S" and a[2] == "allowed" and same(a[3], m, st) and names(b, "m_state"):
                                return True
            return False
        if f.path == known[2]:
            n = 0
            for st, r in outs:
                if r == K(0) or st.dead:
                    continue
                n += 1
                m = rdp(I, st, args[2])
                R.check(g, guarded(st, m), "unknown:state", "after an unknown marker, a marker is accepted without comparing its allowed states with the present one", "resynchronisation state test")
            R.check(g, n > 0, "unknown:returns", "the resynchronisation never succeeds")
            continue
        R.check(g, bool(hits), f.short + ":reached", "%s never dispatches" % f.short)
        for st, m, a, tt in hits:
            R.check(g, guarded(st, m), "%s:state" % f.short, "%s hands a marker segment to its parser without having compared the marker's allowed states with the present one" % f.short,
                    "%s state test" % f.short)


AFTER = {"soc": ("MHSIZ",), "siz": ("MH",), "header_procedure": ("TPHSOT",), "sot": ("TPH",), "sod": ("TPHSOT", "NEOC")}


def progress(R, P):
    """the header state each successful step leaves behind"""
    g = "state progress"
    sc = state_consts(P)
    for n, want in AFTER.items():
        f = fn(P, "j2k::opj_j2k_read_" + n)
        A = Api(P, lambda p: p.startswith(("stream::", "j2k::opj_j2k_", "j2k::J2KMarker::", "<j2k::J2KMarker as std::convert::From", "cio::", "malloc::", "tcd::", "image::")), merge=True)
        I = A.interp()
        at = set()

        def on_store(I, st, base, path, v):
            if path and len(path[-1]) == 3 and path[-1][2] == "m_state":
                at.add((base, path))
        I.on_store = on_store
        _, args, outs = A.run(f, I=I)
        R.check(g, len(at) == 1, n + ":stores", "opj_j2k_read_%s does not set the header state" % n)
        for base, path in at:
            done = 0
            for st, r in outs:
                if st.dead or st.decide(mk_cmp("eq", r, K(0))) is True:
                    continue
                v = deep(I.rd(st, base, path), 0)
                done += 1
                R.check(g, v[0] == "k" and v[1] in [sc[w] for w in want], n + ":state", "opj_j2k_read_%s succeeds and leaves a header state other than %s: %s" % (n, "/".join(want), v), "%s -> %s" % (n, "/".join(want)))
            R.check(g, done > 0, n + ":succeeds", "opj_j2k_read_%s never succeeds" % n)


def top_callers(P, fs):
    """helpers added later are judged inside the functions that call them"""
    out = []
    todo = list(fs)
    while todo:
        f = todo.pop()
        if known(P, f.path):
            if f not in out:
                out.append(f)
        else:
            todo += [g for g in P.local_fns() if g is not f and any(callee(c) == f.path for _, c in calls(g))]
    return sorted(out, key=lambda f: f.path)


def names(e, n):
    if isinstance(e, tuple):
        return any(names(x, n) for x in e)
    return e == n


def same(a, b, st):
    return a == b


def boxes(R, P):
    g = "boxes"
    t = T(P, R, "consts::Jp2BoxType", g)
    t.from_code("<consts::Jp2BoxType as std::convert::From<u32>>::from", BOX, "Unknown")
    t.to_code("consts::Jp2BoxType::to_u32", BOX, "Unknown", True, ("None",))
    t.flag("consts::Jp2BoxType::is_file_header", lambda n: n in ("JP", "FTYP", "JP2H"))
    t.flag("consts::Jp2BoxType::is_image_header", lambda n: n in ("IHDR", "COLR", "BPCC", "PCLR", "CMAP", "CDEF"))
    j = T(P, R, "consts::JpipBoxType", "JPIP boxes")
    j.from_code("<consts::JpipBoxType as std::convert::From<u32>>::from", JPIP, "Unknown")
    j.to_code("consts::JpipBoxType::to_u32", JPIP, "Unknown", False, ("None",))
    # dispatch
    f = fn(P, "jp2::Jp2BoxHeader::read_content")
    ha = P.adts["jp2::Jp2BoxHeader"]["v"][0]["f"]
    hi = {x["n"]: i for i, x in enumerate(ha)}
    for i, n in enumerate(t.names):
        A = Api(P, lambda p: p.startswith("jp2::opj_jp2_read_"))
        I = A.interp()
        st = State(I.cx)
        h = ("agg", "jp2::Jp2BoxHeader", 0, tuple(t.val(i, [("S", None, "payload")] if n == "Unknown" else []) if x["n"] == "ty" else ("S", x["t"], "hdr", x["n"]) for x in ha))
        p = I.newobj(st, P.tybyname["jp2::Jp2BoxHeader"], ("hdr", n), h)
        args = [p] + [I.sym(f.locals[k], "arg", k) for k in range(2, f.argc + 1)]
        for s, r in I.exec_fn(f, args, st):
            if s.dead:
                continue
            ev = [e for e in s.evlist() if e[0] == "call"]
            if n not in BOXREAD:
                R.check("dispatch", not ev, "box:%s" % n, "a parser is called for box %s" % n, "box %s has no parser" % n)
                continue
            want = "jp2::opj_jp2_read_" + BOXREAD[n]
            R.check("dispatch", len(ev) == 1 and ev[0][1] == want and ev[0][2][:2] == tuple(args[1:3]), "box:%s" % n, "box %s is given to %s" % (n, [e[1] for e in ev]), "box %s -> %s" % (n, want))
            if ev:
                z = [k for k in s.facts if names(k, ev[0][1])]
                ok = [k for k in z if k[0] == "cmp" and k[1] == "eq" and K(0) in k[2:]]
                R.check("dispatch", bool(ok) and all(s.facts[k] == fail_result(r) for k in ok), "box result:%s" % n, "the answer of the parser of box %s is turned into its opposite" % n, "box %s answer" % n)
    # call sites
    g = "dispatch sites"
    jt = next(k for k in P.adts if k.endswith("::opj_jp2"))
    si = [x["n"] for x in P.adts[jt]["v"][0]["f"]].index("jp2_state")
    hbit = K(next(c["c"]["v"] for k, c in P.consts.items() if k.endswith("::JP2_STATE_HEADER")))
    for name, inside in (("jp2::opj_jp2_read_header_procedure", False), ("jp2::opj_jp2_read_jp2h", True)):
        f = fn(P, name)
        hits = []

        def stop(p):
            return p.startswith(("stream::", "jp2::Jp2BoxHeader::", "consts::Jp2BoxType::is_", "<stream::", "<types::", "std::io", "std::vec", "byteorder"))
        A = Api(P, stop, merge=True)
        I = A.interp()
        oc = I.on_call

        def on_call(I, st, path, key, args, rt, tt, ff, bb):
            if path and path.startswith("consts::Jp2BoxType::is_"):
                ty = rdp(I, st, args[0]) if args[0][0] != "agg" else args[0]
                return [(st, ("S", rt, path.rsplit("::", 1)[1], ty))]
            if path == "jp2::Jp2BoxHeader::read_content":
                h = rdp(I, st, args[0])
                hits.append((st.copy(), I.field(st, h, hi["ty"], "ty"), args))
            return oc(I, st, path, key, args, rt, tt, ff, bb)
        I.on_call = on_call
        A.run(f, I=I)
        R.analysed.setdefault("dispatch sites", []).append("%s: %d paths" % (name, len(hits)))
        R.check(g, bool(hits), name + ":reached", "%s never parses a box" % name)
        for st, ty, a in hits:
            image = any(k[0] == "S" and k[2] == "is_image_header" and k[3] == ty and v is True for k, v in st.facts.items())
            file_ = any(k[0] == "S" and k[2] == "is_file_header" and k[3] == ty and v is True for k, v in st.facts.items())
            cur = I.field(st, rdp(I, st, a[1]), si, "jp2_state")
            hd = st.decide(mk_cmp("eq", ("and", cur, hbit), K(0))) is False
            ok = image if inside else (file_ or image and hd)
            R.check(g, ok, name + ":kind", "%s parses a box of a kind that does not belong there" % name, "%s kind test" % name)


def writers(R, P, t):
    g = "writers"
    for w, m in WRITER.items():
        f = fn(P, "j2k::opj_j2k_write_" + w)
        first = {}

        def stop(p):
            return p.startswith(("stream::", "j2k::opj_j2k_", "cio::", "malloc::", "tcd::", "pi::", "image::", "j2k::J2KMarker::from_buffer"))
        A = Api(P, stop, merge=True)
        I = A.interp()
        oc = I.on_call

        def on_call(I, st, path, key, args, rt, tt, ff, bb):
            if path == "cio::opj_write_bytes" and "wrote" not in st.notes:
                st.notes["wrote"] = 1
                first.setdefault((args[1], args[2]), tt.get("l"))
            return oc(I, st, path, key, args, rt, tt, ff, bb)
        I.on_call = on_call
        A.run(f, I=I)
        R.check(g, bool(first) and all(k == (K(MARK[m]), K(2)) for k in first), w, "opj_j2k_write_%s begins its segment with %s, not with %s" % (w, [k for k in first][:1], m), "%s writes %s" % (w, m))
    for w, m in BOXWRITE.items():
        f = fn(P, "jp2::" + w)
        i = [x["n"] for x in P.adts["consts::Jp2BoxType"]["v"]].index(m)
        got = []

        def stop(p):
            return p.startswith(("stream::", "jp2::Jp2BoxHeader::", "jp2::opj_jp2_write", "jp2::HeaderWriter", "byteorder", "std::io", "std::vec", "<"))
        A = Api(P, stop, merge=True)
        I = A.interp()
        I.stopped = stop
        oc = I.on_call

        def on_call(I, st, path, key, args, rt, tt, ff, bb):
            if path == "jp2::Jp2BoxHeader::new":
                got.append(args[0])
            return oc(I, st, path, key, args, rt, tt, ff, bb)
        I.on_call = on_call
        A.run(f, I=I)
        R.check(g, got and all(x[0] == "agg" and x[2] == i for x in got), w, "%s writes a box of another kind than %s" % (w, m), "%s writes %s" % (w, m))


def run(R):
    P = Prog("openjp2", "release")
    t = markers(R, P)
    loops(R, P, t)
    progress(R, P)
    boxes(R, P)
    writers(R, P, t)
    R.floor("markers", 100)
    R.floor("boxes", 80)
    R.floor("dispatch", 60)
    R.floor("dispatch sites", 8)
    R.floor("writers", 24)
    R.floor("state progress", 10)
