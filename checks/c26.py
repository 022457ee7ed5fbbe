"""C26: encoding parameters reach the encoder field by field."""
from mir import Prog, Missing, callee, calls
from apimodel import *
from lay import Names
from segread import fork_map
import kern
from absint import Budget

LEVEL = "other"
TECHNIQUE = "abstract interpretation: every store into the coding parameters compared with the parameter it has to carry; must-assign and loop-coverage obligations at loop back edges"
NOTE = ("opj_j2k_setup_encoder is interpreted for every parameter block: symbolic parameters, any number of tiles, components, layers, resolutions and progression changes. "
        "What the rate-control algorithm later does with the rates, and the values the cinema/IMF profile functions force, are outside.")
EXPLANATION = ("The C-parameter conversions and default blocks are evaluated and compared name by name. opj_j2k_setup_encoder is interpreted abstractly with all loops summarised; "
               "each store into opj_cp, opj_tcp, opj_tccp, opj_poc is compared with the field of the caller's block of the same meaning (as the block stands after the documented "
               "normalisations), each store into the caller's block itself has to be one of the documented normalisations with its condition established, and at each loop back edge "
               "and at the successful return every field has to have been stored for this tile, layer, component, resolution.")
ASSUMPTIONS = ["the cinema and IMF profile functions leave between 1 and 33 resolutions",
               "the profile functions (cinema, IMF) may change any parameter; the values they force are not part of the property",
               "deprecated: cp_cinema, cp_rsiz are honoured only when rsiz is 0"]

PR = {}
J = "j2k::"
STOPS = {"opj_j2k_set_cinema_parameters", "opj_j2k_is_cinema_compliant", "opj_j2k_set_imf_parameters", "opj_j2k_is_imf_compliant", "opj_j2k_check_poc_val",
         "opj_matrix_inversion_f", "opj_calculate_norms", "opj_j2k_setup_mct_encoding", "opj_dwt_calc_explicit_stepsizes", "opj_malloc", "opj_calloc", "opj_free",
         "memcpy", "strlen", "strcpy", "opj_int_floorlog2", "opj_uint_ceildiv", "opj_uint_min", "floor"}
PURE = {"opj_int_floorlog2": "flog2", "opj_uint_ceildiv": "ceildiv", "opj_uint_min": "umin", "strlen": "strlen"}
PROFILE = {"opj_j2k_set_cinema_parameters", "opj_j2k_set_imf_parameters"}
PARAM = "opj_cparameters[]."

# defaults that are not zero
ENC_DEF = {"numresolution": 6, "cblockw_init": 64, "cblockh_init": 64, "roi_compno": -1, "subsampling_dx": 1, "subsampling_dy": 1, "decod_format": -1, "cod_format": -1}
DEC_DEF = {"decod_format": -1, "cod_format": -1}

RSIZ = {0: 0, 1: 1, 2: 2, 5: 0, 6: 0, 7: 0, 8: 8, 0xff: 0xff, 0x100: 0, 0x200: 0, 0x30b: 0, 0x30c: 0x30c, 0x3ff: 0x3ff, 0x99c: 0x99c, 0x7fff: 0x7fff, 0x8000: 0, 0x8001: 0, 0x8100: 0x8100, 0x8101: 0}


def leafzero(v):
    if v[0] in ("k",):
        return v[1] == 0
    if v[0] == "f":
        return float(v[1]) == 0.0
    if v == NULL:
        return True
    if v[0] == "agg":
        return all(leafzero(x) for x in v[3])
    if v[0] == "arr":
        d = v[2]
        ok = all(leafzero(x) for x in (d[1] if d[0] == "consts" else (d[1],)))
        return ok and all(leafzero(x) for _, x in v[3])
    if v[0] == "carr":
        return False
    return False


def conversions(R, P):
    f = P.find("types::EncoderParameters::from_c")
    I = Interp(P, inline_std=True)
    st = State(I.cx)
    a = I.sym(f.locals[1], "arg", 1)
    src = P.pointee(f.locals[1])
    names = [n for n, _ in P.fields(src, 0)]
    outs = [(s, r) for s, r in I.exec_fn(f, [a], st) if not s.dead]
    R.check("conversion", len(outs) > 0, "from_c:none", "EncoderParameters::from_c has no result", "from_c")
    for s, r in outs:
        block = I.rd(s, a, I0)
        for i, (n, t) in enumerate(P.fields(f.locals[0], 0)):
            want = I.field(s, block, names.index(n), n) if n in names else None
            have = I.field(s, r, i, n)
            R.check("conversion", want is not None and have == want, "from_c:" + n,
                    "EncoderParameters::from_c sets %s to something other than the caller's %s" % (n, n), "from_c: " + n)
    # defaults
    for path, want in (("<c_api_types::opj_cparameters as std::default::Default>::default", ENC_DEF), ("<types::EncoderParameters as std::default::Default>::default", ENC_DEF),
                       ("<c_api_types::opj_dparameters as std::default::Default>::default", DEC_DEF), ("<types::DecoderParameters as std::default::Default>::default", DEC_DEF)):
        if path not in P.bypath:
            raise Missing(path)
        g = P.bypath[path][0]
        block_is(R, P, g, path.split(" ")[0].split("::")[-1], want, None)
    for path, want in (("c_api_types::opj_cparameters::set_defaults", ENC_DEF), ("c_api_types::opj_dparameters::set_defaults", DEC_DEF),
                       ("openjpeg::opj_set_default_encoder_parameters", ENC_DEF), ("openjpeg::opj_set_default_decoder_parameters", DEC_DEF)):
        g = P.find(path)
        block_is(R, P, g, path.split("::", 1)[1], want, 1)


def block_is(R, P, g, name, want, through):
    I = Interp(P, inline_std=True)
    events_noop(I)
    st = State(I.cx)
    args = [I.sym(g.locals[i], "arg", i) for i in range(1, g.argc + 1)]
    n = 0
    for s, r in I.exec_fn(g, args, st):
        if s.dead or not s.feasible():
            continue
        if through:
            if s.decide(("isnull", args[0])) is True:
                continue
            t = P.pointee(g.locals[1])
            r = I.rd(s, args[0], I0)
        else:
            t = g.locals[0]
        n += 1
        fs = P.fields(t, 0)
        seen = set()
        for i, (nm, ft) in enumerate(fs):
            v = I.field(s, r, i, nm)
            w = want.get(nm, 0)
            seen.add(nm)
            good = v == K(w) if w else leafzero(v)
            R.check("defaults", good, "%s:%s" % (name, nm), "%s leaves %s at %s; the default is %s" % (name, nm, str(v)[:60], w), "%s: %s = %s" % (name, nm, w))
        for m in want:
            R.check("defaults", m in seen, "%s:%s" % (name, m), "%s has no %s" % (name, m), m)
    R.check("defaults", n > 0, "%s:none" % name, "%s never completes" % name, name)


def floorlog(R, P):
    """opj_int_floorlog2 on each interval [2^k, 2^(k+1)) ; opj_uint_min; opj_uint_ceildiv"""
    f = P.find("math::opj_int_floorlog2")
    for k in range(31):
        I = Interp(P, inline_std=True, unroll=40)
        st = State(I.cx)
        a = I.sym(f.locals[1], "arg", 1)
        st.add_cons(sub(a, K(1 << k)))
        st.add_cons(sub(K((1 << (k + 1)) - 1), a))
        outs = [(s, r) for s, r in I.exec_fn(f, [a], st) if not s.dead and s.feasible()]
        R.check("helpers", bool(outs) and all(r == K(k) for _, r in outs), "floorlog2", "opj_int_floorlog2 of a number in [2^%d, 2^%d) is not %d" % (k, k + 1, k), "floorlog2 on [2^%d,2^%d)" % (k, k + 1))
    f = P.find("math::opj_uint_min")
    I = Interp(P, inline_std=True)
    kern.minmax(I)
    st = State(I.cx)
    a = [I.sym(f.locals[i], "arg", i) for i in (1, 2)]
    for s, r in I.exec_fn(f, a, st):
        ok = r in a and all(s.decide(mk_cmp("lt", x, r)) is False for x in a)
        R.check("helpers", ok, "uint_min", "opj_uint_min is not the smaller of its arguments", "uint_min")
    f = P.find("math::opj_uint_ceildiv")
    I = Interp(P, inline_std=True)
    st = State(I.cx)
    a = [I.sym(f.locals[i], "arg", i) for i in (1, 2)]
    n = 0
    for s, r in I.exec_fn(f, a, st):
        if s.dead or not s.feasible():
            continue
        n += 1
        r = kern.unwrap(r)
        # (a + b - 1) / b
        ok = r[0] == "div" and r[2] == a[1] and r[1] == sub(add(a[0], a[1]), K(1))
        R.check("helpers", ok, "ceildiv", "opj_uint_ceildiv is not the quotient rounded up", "ceildiv")
    R.check("helpers", n > 0, "ceildiv", "opj_uint_ceildiv never completes", "ceildiv completes")


class Setup:
    """one interpretation of opj_j2k_setup_encoder"""

    def __init__(self, P, scen):
        self.P, self.scen = P, scen
        self.f = f = P.find(J + "opj_j2k_setup_encoder")
        self.fails, self.oks = {}, {}
        self.cond = {}
        self.A = Api(P, lambda p: p.split("::")[-1] in STOPS, max_states=1)
        I = self.I = self.A.interp()
        self.oc = I.on_call
        I.on_call = self.on_call
        I.on_store = self.on_store
        I.loop_events = True
        I.on_loop_back = self.on_back
        I.event_key = self.keys
        self.args = [I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        self.N = Names(P, self.args)
        self.PT = P.pointee(f.locals[2])
        self.pidx = {n: i for i, (n, t) in enumerate(P.fields(self.PT, 0))}
        self.IT = P.pointee(f.locals[3])
        self.iidx = {n: i for i, (n, t) in enumerate(P.fields(self.IT, 0))}
        self.JT = P.pointee(f.locals[1])
        self.backs = {}
        st = State(I.cx)
        self.kc = [mk_cmp("eq", self.p(st, n), K(0)) for n in ("tile_size_on", "tp_on")] + [("isnull", self.p(st, "cp_comment"))] if scen.get("cp") else []
        self.same_size = [mk_cmp("eq", self.comp(st, 0, d), self.comp(st, i, d)) for d in ("dx", "dy") for i in (1, 2)]
        self.restrict(st)
        self.early = "rsizconst" in scen
        if self.early:
            for n in ("cp_cinema", "cp_rsiz"):
                st.assume(mk_cmp("eq", self.p(st, n), K(0)), True)
            I.wr(st, self.args[1], I0 + (("f", self.pidx["rsiz"], "rsiz"),), K(scen["rsizconst"]))
        self.outs = [(s, r) for s, r in I.exec_fn(f, self.args, st) if not s.dead and s.feasible()]

    def keys(self, s):
        # disjunctions that joining paths would forget
        if not s.notes.get("differ") and any(s.facts.get(c) is False for c in self.same_size):
            s.notes["differ"] = True
        if not s.notes.get("timed") and self.timed(s):
            s.notes["timed"] = True
        n = s.notes
        return tuple(s.decide(c) for c in self.kc) + (n.get("pocval"), n.get("numpocs") is not None, n.get("pocsrc") is not None, ("set", "opj_tccp[].m_dc_level_shift") in n)

    def timed(self, st):
        r = self.p(st, "rsiz")
        cin = st.decide(mk_cmp("lt", r, K(3))) is False and st.decide(mk_cmp("lt", K(6), r)) is False
        imf = st.decide(mk_cmp("lt", r, K(0x400))) is False and st.decide(mk_cmp("lt", K(0x99b), r)) is False
        return cin or imf

    def restrict(self, st, after=False):
        sc = self.scen
        z = lambda n: mk_cmp("eq", self.p(st, n), K(0))
        if not after:
            if sc["profile"] in ("none",):
                for n in ("rsiz", "cp_cinema", "cp_rsiz"):
                    st.assume(z(n), True)
            elif sc["profile"] == "cinema":
                st.assume(mk_cmp("eq", self.p(st, "rsiz"), K(3)), True)
            elif sc["profile"] == "imf":
                st.assume(mk_cmp("eq", self.p(st, "rsiz"), K(0x400)), True)
        if "irr" in sc:
            st.assume(z("irreversible"), not sc["irr"])
        if "mct" in sc:
            st.assume(("isnull", self.p(st, "mct_data")), not sc["mct"])
        if "prec" in sc:
            st.assume(mk_cmp("eq", ("and", self.p(st, "csty"), K(1)), K(0)), not sc["prec"])
        if "alloc" in sc:
            st.assume(z("cp_fixed_alloc"), sc["alloc"] != "alloc")
            if sc["alloc"] != "alloc":
                st.assume(z("cp_fixed_quality"), sc["alloc"] != "quality")

    # values ------------------------------------------------------------
    def p(self, st, n):
        return self.I.field(st, self.I.rd(st, self.args[1], I0), self.pidx[n], n)

    def pel(self, st, n, i):
        return self.I.elem(st, self.p(st, n), i)

    def im(self, st, n):
        return self.I.field(st, self.I.rd(st, self.args[2], I0), self.iidx[n], n)

    def cp(self, st):
        return self.I.rd(st, self.args[0], I0 + (("f", [n for n, _ in self.P.fields(self.JT, 0)].index("m_cp"), "m_cp"),))

    def get(self, st, v, *path):
        """field of a structure value by names"""
        t = None
        for n in path:
            a = v
            fs = self.fields_of(v)
            i = [x for x, _ in fs].index(n)
            v = self.I.field(st, a, i, n)
        return v

    def fields_of(self, v):
        if v[0] == "agg":
            t = self.P.tybyname[v[1]]
        elif v[0] == "S":
            t = v[1]
        else:
            raise Missing("structure of " + str(v)[:80])
        return self.P.fields(t, 0)

    # ------------------------------------------------------------------
    def fail(self, k, t):
        self.fails.setdefault(k, t)

    def req(self, ok, k, t):
        if ok:
            self.oks[k] = self.oks.get(k, 0) + 1
        else:
            self.fail(k, t)

    def on_call(self, I, st, path, key, a, rt, t, fn, bb):
        nm = (path or "").split("::")[-1]
        if nm in PURE:
            v = ("S", rt, PURE[nm]) + tuple(a)
            if nm == "opj_int_floorlog2":
                st.add_cons(v)
                st.add_cons(sub(K(30), v))
            return [(st, v)]
        if nm in PROFILE:
            I._havoc_reach(st, a[0], ("call", path))
            self.restrict(st, True)
            st.add_cons(sub(self.p(st, "numresolution"), K(1)))
            st.add_cons(sub(K(33), self.p(st, "numresolution")))
            return [(st, ("agg", "tuple", 0, ()))]
        if self.early and nm in ("opj_malloc", "opj_calloc", "strlen"):
            return []
        if nm in ("memcpy", "strcpy"):
            if not I.record:
                self.copied(st, nm, a)
            return [(st, a[0])]
        if nm in ("opj_malloc", "opj_calloc"):
            v = I.fresh(st, rt, "ret", path, fn.key, bb)
            st.notes[("alloc", v)] = tuple(a)
            return [(st, v)]
        if nm in STOPS and not I.record:
            self.op(st, nm, a)
        if nm in STOPS and known(self.P, path):
            return [(st, I.fresh(st, rt, "ret", path, fn.key, bb))]
        return self.oc(I, st, path, key, a, rt, t, fn, bb)

    def op(self, st, nm, a):
        if nm == "opj_matrix_inversion_f":
            src, dst = strip_casts(base_of(a[0])), strip_casts(base_of(a[1]))
            self.req(st.notes.get(("copied", src)) == "mct_data", "mct:inverted", "the matrix inverted is not a copy of the caller's")
            self.req(kern.unwrap(a[2]) == self.im(st, "numcomps"), "mct:inverted", "the matrix is not inverted over the number of components")
            st.notes["inverse"] = dst
        elif nm == "opj_calculate_norms":
            self.req(strip_casts(a[2]) == st.notes.get("inverse"), "mct:norms", "the norms are not those of the inverted matrix")
            st.notes["norms"] = strip_casts(a[0])
        elif nm == "opj_j2k_setup_mct_encoding":
            st.notes["records"] = strip_casts(root(a[0])[0])
        elif nm == "opj_dwt_calc_explicit_stepsizes":
            r, pth = root(a[0])
            c = [p[1] for p in pth if p[0] == "i"]
            i = c[0] if c else K(0)
            prec = None
            im = self.I.as_ptr(self.im(st, "comps"))
            e = self.I.rd(st, im[1], im[2][:-1] + (("i", add(im[2][-1][1], kern.unwrap(i))),))
            self.req(kern.unwrap(a[1]) == self.get(st, e, "prec"), "stepsizes", "the step sizes of a component are not derived from its own precision")
            st.notes["steps"] = i

    def eqv(self, st, v, w):
        if v == w or kern.unwrap(v) == kern.unwrap(w):
            return True
        if is_k(w) and isnum(v):
            return st.decide(mk_cmp("eq", kern.unwrap(v), w)) is True
        return False

    def copied(self, st, nm, a):
        """a block or string copied: from the caller's block, whole"""
        src, dst = strip_casts(a[1]), strip_casts(a[0])
        size = kern.unwrap(st.notes.get(("alloc", dst), (None,))[-1] or K(-1))
        if nm == "strcpy":
            self.req(src == strip_casts(self.p(st, "cp_comment")), "comment:source", "the comment is copied from something other than the caller's comment")
            self.req(size == add(("S", size_tid(size), "strlen", a[1]) if False else strlen_of(size, a[1]), K(1)), "comment:room", "the copy of the comment is not given the comment's length and one byte")
            st.notes[("copied", dst)] = "cp_comment"
            return
        n = kern.unwrap(a[2])
        for f, want in (("cp_matrice", None), ("mct_data", None)):
            if src == strip_casts(self.p(st, f)):
                if f == "cp_matrice":
                    w = mul(mul(K(12), self.p(st, "tcp_numlayers")), self.p(st, "numresolution"))
                else:
                    w = mul(K(4), mul(self.im(st, "numcomps"), self.im(st, "numcomps")))
                self.req(n == kern.unwrap(w), f + ":size", "%s is copied with a size other than the block's" % f)
                self.req(n == size, f + ":room", "%s is copied into a block of another size" % f)
                st.notes[("copied", dst)] = f
                return
        self.fail("copy", "setup copies a block that is not part of the caller's parameters")

    # stores ------------------------------------------------------------
    def on_store(self, I, st, base, path, v):
        if base[0] == "L" or I.record or not st.feasible():
            return
        self.N.stored(v)
        n, ix = self.N.place(st, base, path)
        if n is None:
            self.fail("store:?", "setup stores into something that cannot be named")
            return
        ix = tuple(ix)
        if n.startswith("*"):
            return
        if n.startswith(PARAM):
            self.param_store(st, n[len(PARAM):], ix[1:], v)
            return
        h = "cp_" if n.startswith("opj_j2k[]") else ""
        m = getattr(self, "s_" + n.replace("[]", "").replace(".", "_"), None)
        if m is None:
            self.fail("store:" + n, "setup stores %s, which carries no parameter" % n)
            return
        ok, why = m(st, ix, v)
        self.req(ok, n, "%s: %s" % (n, why))
        st.notes[("set", n)] = ix
        b = strip_casts(base)
        if n.startswith("opj_tccp[]"):
            t = self.tccps(st)
            self.req(t is not None and b == t, "tccp:owner", "a component's parameters are stored through something other than its tile's component array")
        if n.startswith("opj_tcp[]"):
            t = strip_casts(self.get(st, self.cp(st), "tcps"))
            self.req(b == t, "tcp:owner", "a tile's parameters are stored outside the codec's tile array")
            st.notes["tile"] = ix[0]

    def tccps(self, st):
        t = strip_casts(self.get(st, self.cp(st), "tcps"))
        i = st.notes.get("tile")
        if i is None:
            return None
        v = self.I.rd(st, self.get(st, self.cp(st), "tcps"), (("i", i),))
        return strip_casts(self.get(st, v, "tccps"))

    def same(self, st, v, n):
        return self.eqv(st, v, self.p(st, n)), "is not the caller's %s" % n

    # the codec's own block
    def s_opj_j2k_m_specific_param_m_encoder_m_nb_comps(self, st, ix, v):
        return self.eqv(st, v, self.im(st, "numcomps")), "is not the image's number of components"

    def s_opj_j2k_m_specific_param_m_encoder_m_TLM(self, st, ix, v):
        return v == K(1) and (self.timed(st) or st.notes.get("timed") is True), "is requested outside the cinema and IMF profiles"

    def div(self, st, ix, v, one, o, d):
        if v == K(1) and self.tiled(st) is not True:
            return True, ""
        i, t0, td = self.im(st, one), self.p(st, o), self.p(st, d)
        x = kern.unwrap(v)
        ok = self.tiled(st) is True and x[0] == "S" and x[2] == "ceildiv" and kern.unwrap(x[3]) == sub(i, t0) and kern.unwrap(x[4]) == td
        return ok, "is not the number of tiles of the caller's grid"

    def tiled(self, st):
        d = st.decide(mk_cmp("eq", self.p(st, "tile_size_on"), K(0)))
        return None if d is None else not d

    def s_opj_j2k_m_cp_tw(self, st, ix, v):
        return self.div(st, ix, v, "x1", "cp_tx0", "cp_tdx")

    def s_opj_j2k_m_cp_th(self, st, ix, v):
        return self.div(st, ix, v, "y1", "cp_ty0", "cp_tdy")

    def size(self, st, v, d, one, o):
        if self.tiled(st) is False and kern.unwrap(v) == sub(self.im(st, one), self.p(st, o)):
            return True, ""
        return self.tiled(st) is not False and self.eqv(st, v, self.p(st, d)) or self.eqv(st, v, self.p(st, d)), "is neither the caller's tile size nor, without tiling, the image's extent"

    def s_opj_j2k_m_cp_tdx(self, st, ix, v):
        return self.size(st, v, "cp_tdx", "x1", "cp_tx0")

    def s_opj_j2k_m_cp_tdy(self, st, ix, v):
        return self.size(st, v, "cp_tdy", "y1", "cp_ty0")

    def s_opj_j2k_m_cp_tx0(self, st, ix, v):
        return self.same(st, v, "cp_tx0")

    def s_opj_j2k_m_cp_ty0(self, st, ix, v):
        return self.same(st, v, "cp_ty0")

    def s_opj_j2k_m_cp_rsiz(self, st, ix, v):
        st.notes["rsizv"] = v
        if self.early:
            w = RSIZ[self.scen["rsizconst"]]
            return self.eqv(st, v, K(w)), "is not %#x when the caller asks for %#x" % (w, self.scen["rsizconst"])
        return self.same(st, v, "rsiz")

    def s_opj_j2k_m_cp_m_specific_param_m_enc_m_max_comp_size(self, st, ix, v):
        return self.same(st, v, "max_comp_size")

    def s_opj_j2k_m_cp_m_specific_param_m_enc_m_quality_layer_alloc_strategy(self, st, ix, v):
        names = [x["n"] for x in self.P.adts[v[1]]["v"]] if v[0] == "agg" else []
        z = lambda n: st.decide(mk_cmp("eq", self.p(st, n), K(0)))
        a, q = z("cp_fixed_alloc"), z("cp_fixed_quality")
        w = "FIXED_LAYER" if a is False else "FIXED_DISTORTION_RATIO" if a is True and q is False else "RATE_DISTORTION_RATIO" if a is True and q is True else None
        return bool(names) and names[v[2]] == w, "is not %s" % w

    def s_opj_j2k_m_cp_m_specific_param_m_enc_m_matrice(self, st, ix, v):
        return st.decide(mk_cmp("eq", self.p(st, "cp_fixed_alloc"), K(0))) is False and ("alloc", strip_casts(v)) in st.notes, "is not a copy of the caller's matrix"

    def s_opj_j2k_m_cp_comment(self, st, ix, v):
        b = strip_casts(v)
        null = st.decide(("isnull", self.p(st, "cp_comment")))
        return ("alloc", b) in st.notes if null is False else null is True, "is not a copy of the caller's comment"

    def s_opj_j2k_m_cp_m_specific_param_m_enc_m_tp_flag(self, st, ix, v):
        ok, w = self.same(st, v, "tp_flag")
        return ok and st.decide(mk_cmp("eq", self.p(st, "tp_on"), K(0))) is False, w

    def s_opj_j2k_m_cp_m_specific_param_m_enc_m_tp_on(self, st, ix, v):
        return v == K(1) and st.decide(mk_cmp("eq", self.p(st, "tp_on"), K(0))) is False, "is set without the caller's tp_on"

    def s_opj_j2k_m_cp_tcps(self, st, ix, v):
        a = st.notes.get(("alloc", strip_casts(v)))
        cp = self.cp(st)
        w = mul(kern.unwrap(self.get(st, cp, "tw")), kern.unwrap(self.get(st, cp, "th")))
        return a is not None and kern.unwrap(a[0]) == w, "is not an array of one entry per tile"

    # per tile
    def s_opj_tcp_numlayers(self, st, ix, v):
        return self.same(st, v, "tcp_numlayers")

    def s_opj_tcp_csty(self, st, ix, v):
        return self.same(st, v, "csty")

    def s_opj_tcp_prg(self, st, ix, v):
        return self.same(st, v, "prog_order")

    def comp(self, st, i, n):
        c = self.I.as_ptr(self.im(st, "comps"))
        e = self.I.rd(st, c[1], c[2][:-1] + (("i", add(c[2][-1][1], K(i))),))
        return self.get(st, e, n)

    def s_opj_tcp_mct(self, st, ix, v):
        nodata = st.decide(("isnull", self.p(st, "mct_data")))
        if v == K(2):
            return nodata is False, "is set to the array transform without the caller's matrix"
        if v == K(0):
            differ = st.notes.get("differ") is True or any(st.facts.get(c) is False for c in self.same_size)
            one = decide(st, mk_cmp("eq", self.p(st, "tcp_mct"), K(1))) is True
            three = st.decide(mk_cmp("lt", self.im(st, "numcomps"), K(3))) is False
            return nodata is True and differ and one and three, "is switched off although the first three components have one size"
        return self.same(st, v, "tcp_mct")

    def s_opj_tcp_rates(self, st, ix, v):
        q = self.scen.get("alloc") == "quality"
        e = self.pel(st, "tcp_rates", ix[-1])
        if v[0] == "f":
            low = [c for c, d in st.facts.items() if d and c[0] == "fcmp" and uses(c, e) and fle1(c)]
            low += [c for c, d in st.facts.items() if not d and c[0] == "not" and c[1][0] == "fcmp" and uses(c[1], e) and fle1(c[1])]
            return float(v[1]) == 0.0 and not q and bool(low), "is forced to lossless although the layer's rate is above 1"
        return v == e, "is not the rate of the same layer"

    def s_opj_tcp_distoratio(self, st, ix, v):
        return v == self.pel(st, "tcp_distoratio", ix[-1]), "is not the quality of the same layer"

    def s_opj_tcp_POC(self, st, ix, v):
        st.notes["pocval"] = v
        return v in (K(0), K(1)), "is not a flag"

    def s_opj_tcp_numpocs(self, st, ix, v):
        if v == K(0) and st.decide(mk_cmp("eq", self.p(st, "numpocs"), K(0))) is True:
            return True, ""
        w = st.notes.get("poccell")
        st.notes["numpocs"] = v
        return True, ""

    def s_opj_tcp_tccps(self, st, ix, v):
        a = st.notes.get(("alloc", strip_casts(v)))
        return a is not None and kern.unwrap(a[0]) == self.im(st, "numcomps"), "is not an array of one entry per component"

    def matrix(self, st, v, n):
        a = st.notes.get(("alloc", strip_casts(v)))
        nc = self.im(st, "numcomps")
        return a is not None and kern.unwrap(a[0]) == kern.unwrap(mul(K(4), mul(nc, nc))), "is not a block the size of the caller's matrix"

    def s_opj_tcp_m_mct_coding_matrix(self, st, ix, v):
        return self.matrix(st, v, ix)

    def s_opj_tcp_m_mct_decoding_matrix(self, st, ix, v):
        return self.matrix(st, v, ix)

    def s_opj_tcp_mct_norms(self, st, ix, v):
        a = st.notes.get(("alloc", strip_casts(v)))
        return a is not None and kern.unwrap(a[0]) == kern.unwrap(mul(K(8), self.im(st, "numcomps"))), "is not one number per component"

    # progression order changes: entry `ix[1]` of the tile carries the caller's entry that names this tile
    def poc(self, st, ix, v, n, cap=None):
        f = v
        if cap:
            if not (v[0] == "S" and v[2] == "umin" and self.im(st, "numcomps") in v[3:]):
                return False, "is not limited to the number of components"
            f = v[3] if v[4] == self.im(st, "numcomps") else v[4]
        if not (f[0] == "S" and f[2] == "fld" and f[4] == n and f[3][0] == "S" and f[3][2] == "el"):
            return False, "is not the caller's %s" % n
        src = f[3][4]
        if f != self.I.field(st, self.pel(st, "POC", src), self.pocidx(n), n):
            return False, "is not the caller's %s" % n
        t = self.I.field(st, self.pel(st, "POC", src), self.pocidx("tile"), "tile")
        tile = st.decide(mk_cmp("eq", kern.unwrap(t), add(ix[0], K(1))))
        st.notes["pocsrc"] = src
        st.notes["pocdst"] = ix[1]
        return tile is True, "comes from an entry that is not known to be for this tile"

    def pocidx(self, n):
        return [x for x, _ in self.P.fields(self.P.tybyname["c_api_types::opj_poc"], 0)].index(n)

    def on_back(self, s, fn, h, lid):
        if fn is self.f or True:
            if s.feasible():
                self.backs.setdefault(lid, []).append(s)

    # per component
    def s_opj_tccp_csty(self, st, ix, v):
        return kern.unwrap(v) == ("and", self.p(st, "csty"), K(1)) or is_k(v) and st.decide(mk_cmp("eq", ("and", self.p(st, "csty"), K(1)), v)) is True, "is not the precinct bit of the caller's csty"

    def s_opj_tccp_numresolutions(self, st, ix, v):
        return self.same(st, v, "numresolution")

    def log2(self, st, v, x):
        v = kern.unwrap(v)
        return v[0] == "S" and v[2] == "flog2" and kern.unwrap(v[3]) == kern.unwrap(x)

    def s_opj_tccp_cblkw(self, st, ix, v):
        return self.log2(st, v, self.p(st, "cblockw_init")), "is not the exponent of the caller's code-block width"

    def s_opj_tccp_cblkh(self, st, ix, v):
        return self.log2(st, v, self.p(st, "cblockh_init")), "is not the exponent of the caller's code-block height"

    def s_opj_tccp_cblksty(self, st, ix, v):
        return self.same(st, v, "mode")

    def s_opj_tccp_qmfbid(self, st, ix, v):
        return self.eqv(st, v, K(0 if self.scen["irr"] else 1)), "is not the wavelet the caller asked for"

    def s_opj_tccp_qntsty(self, st, ix, v):
        return self.eqv(st, v, K(2 if self.scen["irr"] else 0)), "is not the quantisation of the caller's wavelet"

    def s_opj_tccp_numgbits(self, st, ix, v):
        return self.eqv(st, v, K(2)), "is not 2"

    def s_opj_tccp_roishift(self, st, ix, v):
        roi = decide(st, mk_cmp("eq", kern.unwrap(ix[-1]), self.p(st, "roi_compno")))
        if roi is True:
            return self.same(st, v, "roi_shift")
        return roi is False and v == K(0), "is not 0 outside the caller's region-of-interest component"

    def s_opj_tccp_m_dc_level_shift(self, st, ix, v):
        nodata = st.decide(("isnull", self.p(st, "mct_data")))
        i = ix[-1]
        if nodata is True:
            c = self.I.as_ptr(self.im(st, "comps"))
            e = self.I.rd(st, c[1], c[2][:-1] + (("i", add(c[2][-1][1], i)),))
            sg, pr = self.get(st, e, "sgnd"), self.get(st, e, "prec")
            w = kern.unwrap(v)
            ok = st.decide(mk_cmp("eq", sg, K(0))) is True and w[0] == "S" and w[2] == "pow2" and kern.unwrap(w[3]) == sub(pr, K(1))
            return ok, "is not half the range of an unsigned component"
        b, idx = kern.cell(v) or (None, None)
        if nodata is False and b is not None:
            off, b0 = idx, b
            nc = self.im(st, "numcomps")
            x = v[3]
            tot = K(0)
            o = scale(kern.unwrap(v[4]), 4)
            while x[0] in ("cast", "ptr"):
                if x[0] == "cast":
                    x = x[3]
                    continue
                if len(x[2]) != 1:
                    return False, "is not the caller's shift of the same component"
                sz = self.bytes_of(x[1])
                o = add(o, scale(kern.unwrap(x[2][0][1]), sz))
                x = x[1]
            ok = x == strip_casts(self.p(st, "mct_data")) and kern.unwrap(o) == kern.unwrap(add(mul(K(4), mul(nc, nc)), scale(kern.unwrap(i), 4)))
            return ok, "is not the caller's shift of the same component"
        return False, "is not the caller's shift of the same component"

    def bytes_of(self, b):
        t = b[2] if b[0] == "cast" else self.P.pointee(b[1])
        return 1 if self.P.tn(t).endswith("c_void") else self.P.types[t].get("sz", 1)

    def prc(self, st, ix, v, n):
        prec = self.scen.get("prec")
        if not prec:
            return self.eqv(st, v, K(15)), "is not 15 although the caller defines no precincts"
        res = kern.unwrap(ix[-1])
        p = sub(sub(self.p(st, "numresolution"), K(1)), res)       # the caller's list starts at the highest resolution
        rs = self.p(st, "res_spec")
        given = st.decide(mk_cmp("lt", p, rs))
        a = self.p(st, n)
        if given is True:
            x = self.I.elem(st, a, p)
        elif given is False:
            last = sub(rs, K(1))
            e = self.I.elem(st, a, last)
            x = ("shr", e, sub(p, last))
            alt = [c for c in subterms(v, st) if c[0] in ("shr", "div") or c[0] == "S" and len(c) > 2 and c[2] == "shr"]
            for c in alt:
                y = c[3:5] if c[0] == "S" else c[1:3]
                if kern.unwrap(y[0]) == e and kern.unwrap(y[1]) == kern.unwrap(sub(p, last)):
                    x = c
        else:
            return False, "is stored without knowing whether the caller gave this resolution's size"
        if v == K(1):
            return st.decide(mk_cmp("lt", x, K(1))) is True, "is 1 although the caller's size is larger"
        return self.log2(st, v, x), "is not the exponent of the caller's size for this resolution"

    def s_opj_tccp_prcw(self, st, ix, v):
        return self.prc(st, ix, v, "prcw_init")

    def s_opj_tccp_prch(self, st, ix, v):
        return self.prc(st, ix, v, "prch_init")

    # the caller's own block
    def param_store(self, st, n, ix, v):
        z = lambda m: st.decide(mk_cmp("eq", self.p(st, m), K(0)))
        ok = False
        why = "is changed before it is used"
        if n == "tcp_numlayers":
            ok = v == K(1) and z(n) is True
        elif n == "cp_disto_alloc":
            ok = v == K(1) and st.notes.get(("pset", "tcp_numlayers")) is not None
        elif n == "tcp_rates[]":
            if v[0] == "f" and float(v[1]) == 0.0:
                ok = ix == (K(0),) and st.notes.get(("pset", "tcp_numlayers")) is not None
            else:
                # capped by the size limit: only when the rate asks for more
                e = self.pel(st, "tcp_rates", ix[0])
                lim = st.decide(mk_cmp("lt", K(0), self.p(st, "max_cs_size"))) is True
                less = [c for c, d in st.facts.items() if d and c == ("fcmp", "lt", e, v)]
                imf = ix == (K(0),) and st.decide(mk_cmp("lt", self.p(st, "rsiz"), K(0x400))) is False
                ok = lim and (bool(less) or imf)
                why = "is changed although it does not exceed the caller's size limit"
        elif n == "max_cs_size":
            ok = st.decide(mk_cmp("lt", K(0), self.p(st, n))) is not True or self.scen["profile"] == "any"
        elif n in ("rsiz", "max_comp_size"):
            ok = self.scen["profile"] != "none" or self.early
        elif n == "mct_data":
            ok = v == NULL
        st.notes[("pset", n)] = ix
        self.req(ok, "caller:" + n, "the caller's %s %s" % (n, why))


for _n in ("resno0", "compno0", "layno1", "resno1", "prg1", "tile"):
    def _mk(n):
        return lambda self, st, ix, v: self.poc(st, ix, v, n)
    setattr(Setup, "s_opj_tcp_pocs_" + _n, _mk(_n))
setattr(Setup, "s_opj_tcp_pocs_compno1", lambda self, st, ix, v: self.poc(st, ix, v, "compno1", True))


def decide(st, c):
    """also through the machine conversions of the recorded conditions"""
    d = st.decide(c)
    if d is None:
        for f, v in st.facts.items():
            if f[0] == "cmp" and f[1] == c[1] and mk_cmp(f[1], kern.unwrap(f[2]), kern.unwrap(f[3])) == c:
                return v
    return d


def uses(c, e):
    return contains(c, lambda x: x == e)


def fle1(c):
    """a comparison with the constant 1"""
    return contains(c, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == "f" and float(x[1]) == 1.0)


def strlen_of(size, a):
    for x in [y for y, _ in size[2]] if size[0] == "lin" else [size]:
        if x[0] == "S" and len(x) > 3 and x[2] == "strlen" and strip_casts(x[3]) == strip_casts(a):
            return x
    return ("none",)


def subterms(v, st):
    out = []
    contains(v, lambda x: isinstance(x, tuple) and bool(x) and (out.append(x) or False))
    for c in list(st.facts) + list(st.cons):
        contains(c, lambda x: isinstance(x, tuple) and bool(x) and (out.append(x) or False))
    return out


PER_TILE = ("numlayers", "csty", "prg", "mct", "POC", "numpocs", "tccps")
PER_COMP = ("csty", "numresolutions", "cblkw", "cblkh", "cblksty", "qmfbid", "qntsty", "numgbits", "roishift")


def job(scen):
    try:
        S = Setup(PR["release"], scen)
    except (Missing, Budget) as e:
        return scen, "%s: %s" % (type(e).__name__, e), {}, {}, {}
    finish(S)
    return scen, None, S.fails, S.oks, None


def base_of(v):
    if v[0] == "agg":       # a slice built from parts
        v = v[3][0]
    return root(v)[0]


def at_tile(S, s, n):
    k = s.notes.get("tile")
    v = S.I.rd(s, S.get(s, S.cp(s), "tcps"), (("i", k),))
    return S.get(s, v, n)


def ksym(lid):
    return ("S", -1, "k", lid)


def finish(S):
    """what has to have been stored when a round or the function ends"""
    scen = S.scen
    if S.early:
        S.req(any(k.endswith("m_cp.rsiz") for k in list(S.oks) + list(S.fails)), "opj_j2k[].m_cp.rsiz", "opj_j2k[].m_cp.rsiz is not stored")
        return
    B = "opj_tcp[]."
    tiles = [l for l, ss in S.backs.items() if any(s.notes.get(("set", B + n)) == (ksym(l),) for s in ss for n in PER_TILE)]
    S.req(len(tiles) == 1, "tiles", "there is no single round over the tiles")
    for T in tiles:
        kt = ksym(T)
        inner = {l: ss for l, ss in S.backs.items() if l[3] and l[3][-1] == kt or l[3] and kt in l[3]}
        def rounds(name, depth=1):
            return [l for l, ss in inner.items() if len([x for x in l[3]]) == depth and any((s.notes.get(("set", name)) or (None,))[-1] is not None and contains(s.notes.get(("set", name)), lambda x: x == ksym(l)) for s in ss)]
        for s in S.backs[T]:
            for n in PER_TILE:
                if n == "numpocs":
                    continue
                S.req(s.notes.get(("set", B + n)) == (kt,), "set:tile:" + n, "a tile's %s can be left without the caller's value" % n)
            # progression changes of this tile
            if s.notes.get("pocval") == K(1):
                S.req(s.notes.get("numpocs") is not None, "poc:count", "a tile with progression changes can be left without their number")
            # layers
            lay = rounds(B + ("distoratio[]" if scen["alloc"] == "quality" else "rates[]"))
            S.req(any(s.entails(sub(ksym(l), at_tile(S, s, "numlayers"))) for l in lay), "rounds:layers", "not every layer gets the caller's rate or quality")
            # components
            comp = rounds("opj_tccp[].cblkw")
            S.req(any(s.entails(sub(ksym(l), S.im(s, "numcomps"))) for l in comp), "rounds:components", "not every component gets the caller's parameters")
            dc = rounds("opj_tccp[].m_dc_level_shift")
            S.req(any(s.entails(sub(ksym(l), S.im(s, "numcomps"))) for l in dc), "rounds:shift", "not every component gets its shift")
            if scen["mct"]:
                cod, dec, nor = (strip_casts(at_tile(S, s, n)) for n in ("m_mct_coding_matrix", "m_mct_decoding_matrix", "mct_norms"))
                S.req(s.notes.get(("copied", cod)) == "mct_data", "mct:coding", "the encoder's matrix is not the caller's")
                S.req(s.notes.get("inverse") == dec, "mct:decoding", "the decoder's matrix is not the inverse of the caller's")
                S.req(s.notes.get("norms") == nor, "mct:norms", "the norms are not computed for this tile")
                S.req(s.notes.get("records") is not None, "mct:records", "the matrix is not entered into the tile's records")
        lay = rounds(B + ("distoratio[]" if scen["alloc"] == "quality" else "rates[]"))
        for l in lay:
            for s in S.backs[l]:
                n = B + ("distoratio[]" if scen["alloc"] == "quality" else "rates[]")
                S.req(s.notes.get(("set", n)) == (kt, ksym(l)), "set:layer", "a layer can be left without the caller's %s" % ("quality" if scen["alloc"] == "quality" else "rate"))
        for l in rounds("opj_tccp[].m_dc_level_shift"):
            for s in S.backs[l]:
                if s.notes.get(("set", "opj_tccp[].m_dc_level_shift")) == (ksym(l),):
                    continue
                c = S.I.as_ptr(S.im(s, "comps"))
                e = S.I.rd(s, c[1], c[2][:-1] + (("i", add(c[2][-1][1], ksym(l))),))
                S.req(not scen["mct"] and s.decide(mk_cmp("eq", S.get(s, e, "sgnd"), K(0))) is False, "set:shift", "a component can be left without its shift")
        for l in rounds("opj_tccp[].cblkw"):
            for s in S.backs[l]:
                for n in PER_COMP:
                    S.req(s.notes.get(("set", "opj_tccp[]." + n)) == (ksym(l),), "set:component:" + n, "a component's %s can be left without the caller's value" % n)
                S.req(s.notes.get("steps") == ksym(l), "set:component:stepsizes", "a component can be left without step sizes")
                for n in ("prcw[]", "prch[]"):
                    res = [m for m, ss in S.backs.items() if m[3] == l[3] + (ksym(l),) and all(contains(x.notes.get(("set", "opj_tccp[]." + n)) or (), lambda y: y == ksym(m)) for x in ss)]
                    S.req(any(s.entails(sub(ksym(m), S.p(s, "numresolution"))) for m in res), "rounds:" + n, "not every resolution gets the caller's precinct size")
        # progression changes: copied in order, none lost
        names = [B + "pocs[]." + n for n in ("resno0", "compno0", "layno1", "resno1", "compno1", "prg1", "tile")]
        pl = [l for l in inner if l[3] == (kt,) and any(s.notes.get(("set", n)) for s in S.backs[l] for n in names)]
        S.req(len(pl) == 1, "poc:round", "there is no single round over the caller's progression changes")
        for l in pl:
            cell = None
            for s in S.backs[l]:
                d = s.notes.get("pocdst")
                if d is not None and d[0] == "S" and d[2] == "phi":
                    cell = d[4][0], d
            S.req(cell is not None, "poc:place", "the tile's progression changes are not numbered by a count of those found")
            if cell is None:
                continue
            for s in S.backs[l]:
                now = s.mem.get(cell[0], (0, None))[1]
                if s.notes.get("pocsrc") is not None:
                    S.req(kern.unwrap(s.notes["pocsrc"]) == ksym(l), "poc:source", "a progression change is not copied from the entry looked at")
                    for n in names:
                        S.req(s.notes.get(("set", n)) == (kt, cell[1]), "set:" + n, "a progression change can be left without %s" % n)
                    S.req(kern.unwrap(now) == add(cell[1], K(1)), "poc:step", "the count of progression changes does not follow those stored")
                else:
                    t = S.I.field(s, S.pel(s, "POC", ksym(l)), S.pocidx("tile"), "tile")
                    S.req(now == cell[1], "poc:step", "the count of progression changes grows without one being stored")
                    S.req(decide(s, mk_cmp("eq", kern.unwrap(t), add(kt, K(1)))) is False, "poc:lost", "a progression change for this tile can be skipped")
            for s in S.backs[T]:
                now = s.mem.get(cell[0], (0, None))[1]
                none = s.decide(mk_cmp("eq", S.p(s, "numpocs"), K(0))) is True
                if s.notes.get("pocval") == K(1):
                    S.req(s.notes.get("numpocs") is not None and kern.unwrap(s.notes["numpocs"]) == sub(now, K(1)), "poc:count", "the number of a tile's progression changes is not that of those stored")
                elif not none:
                    zero = now is not None and s.decide(mk_cmp("eq", now, K(0))) is True
                    S.req(zero or s.notes.get("numpocs") is not None, "poc:flag", "a tile's progression changes can be stored without being announced")
    done = [s for s, r in S.outs if r != K(0)]
    S.req(bool(done), "success", "the setup never succeeds")
    for s in done:
        cp = S.cp(s)
        for n in ("m_specific_param.m_encoder.m_nb_comps", "m_cp.tw", "m_cp.th", "m_cp.m_specific_param.m_enc.m_max_comp_size", "m_cp.rsiz", "m_cp.m_specific_param.m_enc.m_quality_layer_alloc_strategy",
                  "m_cp.tdx", "m_cp.tdy", "m_cp.tx0", "m_cp.ty0", "m_cp.comment", "m_cp.tcps"):
            S.req(("set", "opj_j2k[]." + n) in s.notes, "set:" + n, "%s can be left without the caller's value" % n)
        for T in tiles:
            S.req(s.entails(sub(ksym(T), wrapmul(S.get(s, cp, "tw"), S.get(s, cp, "th")))) or rounds_done(S, s, ksym(T), cp), "rounds:tiles", "not every tile gets the caller's parameters")
        p = lambda n: S.p(s, n)
        no = lambda n, v: s.decide(mk_cmp("lt", n, v)) is False
        if scen["profile"] == "none":
            S.req(no(p("numresolution"), K(1)) and no(K(33), p("numresolution")), "refuse:numresolution", "a number of resolutions outside 1..33 is accepted")
            for n in ("cblockw_init", "cblockh_init"):
                S.req(no(p(n), K(4)) and no(K(1024), p(n)), "refuse:" + n, "a code-block size outside 4..1024 is accepted")
                S.req(any(v and c[0] == "cmp" and c[1] == "eq" and p(n) in c[2:] and contains(c, lambda x: isinstance(x, tuple) and len(x) > 3 and x[0] == "S" and x[2] == "flog2" and kern.unwrap(x[3]) == p(n)) for c, v in s.facts.items()),
                      "refuse:" + n, "a code-block size that is no power of two is accepted")
            S.req(no(K(4096), mul(p("cblockw_init"), p("cblockh_init"))), "refuse:area", "code-blocks of more than 4096 samples are accepted")
        if scen["profile"] in ("cinema", "imf"):
            S.req(("set", "opj_j2k[].m_specific_param.m_encoder.m_TLM") in s.notes, "tlm", "the profile's tile-part lengths are not requested")
        if scen["alloc"] == "alloc":
            b = strip_casts(S.get(s, cp, "m_specific_param", "m_enc", "m_matrice"))
            S.req(s.notes.get(("copied", b)) == "cp_matrice", "matrice", "the encoder's layer matrix is not the caller's")
        if scen.get("cp"):
            tiled = S.tiled(s)
            tp = s.decide(mk_cmp("eq", p("tp_on"), K(0)))
            com = s.decide(("isnull", p("cp_comment")))
            S.req(None not in (tiled, tp, com), "paths", "a path does not look at the caller's tiling, tile parts or comment")
            for n, q, o, one in (("tdx", "cp_tdx", "cp_tx0", "x1"), ("tdy", "cp_tdy", "cp_ty0", "y1")):
                w = p(q) if tiled else sub(S.im(s, one), p(o))
                S.req(S.eqv(s, S.get(s, cp, n), w), "final:" + n, "the encoder's tile size is not the caller's")
            for n in ("tw", "th"):
                S.req((S.get(s, cp, n) == K(1)) == (tiled is False), "final:" + n, "the encoder's tile grid is not the caller's")
            if tp is False:
                enc = lambda n: S.get(s, cp, "m_specific_param", "m_enc", n)
                S.req(enc("m_tp_on") == K(1), "final:tp_on", "tile parts asked for are not switched on")
                S.req(S.eqv(s, enc("m_tp_flag"), p("tp_flag")), "final:tp_flag", "the tile-part division is not the caller's")
            if com is False:
                S.req(s.notes.get(("copied", strip_casts(S.get(s, cp, "comment")))) == "cp_comment", "final:comment", "the comment is not the caller's")


def wrapmul(a, b):
    return mul(a, b)


def rounds_done(S, s, k, cp):
    """k has reached the product, through the machine multiplication"""
    w = mul(S.get(s, cp, "tw"), S.get(s, cp, "th"))
    for c, v in s.facts.items():
        if c[0] == "cmp" and c[1] == "lt" and v is False and kern.unwrap(c[2]) == k and kern.unwrap(c[3]) == kern.unwrap(w):
            return True
    for c in s.cons:
        if kern.unwrap(c) == sub(k, kern.unwrap(w)):
            return True
    return False


def set_mct(R, P):
    """the convenience call that fills in the custom transform"""
    f = P.find("openjpeg::opj_set_MCT")
    A = Api(P, lambda p: p.split("::")[-1] in ("opj_malloc", "opj_calloc"))
    I = A.interp()

    def size(st, p):
        if p[0] == "cast":
            return P.types[p[2]].get("sz", 1) if not P.tn(p[2]).endswith("c_void") else 1
        if p[0] == "S":
            t = P.pointee(p[1])
            return 1 if P.tn(t).endswith("c_void") else P.types[t].get("sz", 1)
        return 1

    def place(st, p):
        off, n = K(0), None
        while True:
            if p[0] == "ptr" and len(p[2]) == 1 and p[2][0][0] == "i":
                if n is None and p[3] is not None:
                    n = mul(kern.unwrap(p[3]), K(size(st, p[1])))
                off = add(off, scale(kern.unwrap(p[2][0][1]), size(st, p[1])))
                p = p[1]
            elif p[0] == "cast":
                p = p[3]
            else:
                return p, off, n

    def copy(I, st, a, rt, t, fn, bb, depth, fr):
        d, do, dn = place(st, a[0])
        s, so, sn = place(st, a[1])
        st.ev("copy", d, do, dn, s, so, sn)
        return [(st, ("agg", "tuple", 0, ()))]

    def mcpy(I, st, a, rt, t, fn, bb, depth, fr):
        d, do, _ = place(st, a[0])
        s, so, _ = place(st, a[1])
        st.ev("copy", d, do, a[2], s, so, a[2])
        return [(st, a[0])]

    def sov(I, st, a, rt, t, fn, bb, depth, fr):
        _, _, n = place(st, a[0])
        return [(st, n if n is not None else I.fresh(st, rt, "size", fn.key, bb))]
    I.models["core::slice::<impl [T]>::copy_from_slice"] = copy
    I.models["std::mem::size_of_val"] = sov
    I.models["memcpy"] = I.models["libc::memcpy"] = mcpy
    I, args, outs = A.run(f, I=I)
    pt = P.pointee(f.locals[1])
    ix = {n: i for i, (n, _) in enumerate(P.fields(pt, 0))}
    nc = args[3]
    sq = mul(nc, nc)
    seen = 0
    for s, r in outs:
        if s.dead:
            continue
        null = [s.decide(("isnull", a)) for a in args[:3]]
        g = lambda n: I.rd(s, args[0], (("f", ix[n], n),))
        before = lambda n: ("S", P.fields(pt, 0)[ix[n]][1], "fld", ("S", pt, "mem", args[0], K(0)), n)
        calls_ = s.evlist()
        if True in null or None in null:
            R.check("set_MCT", r == K(0) and not calls_, "null", "opj_set_MCT works without parameters, matrix or shifts", "missing arguments refused")
            continue
        blk = g("mct_data")
        ok = s.decide(("isnull", blk))
        R.check("set_MCT", ok is not None, "memory", "opj_set_MCT does not look whether it got memory", "memory checked")
        if ok is not False:
            R.check("set_MCT", r == K(0), "memory", "opj_set_MCT succeeds without memory", "failure reported")
            continue
        seen += 1
        R.check("set_MCT", r == K(1), "result", "opj_set_MCT fails although everything is there", "success reported")
        mem = [e for e in calls_ if e[0] == "call" and e[1].endswith("alloc")]
        R.check("set_MCT", len(mem) == 1 and any(same_poly(P, mul_all(m[2]), add(scale(sq, 4), scale(nc, 4)), nc) for m in mem), "size", "the block for the matrix and the shifts has another size", "block size")
        cp = [e for e in calls_ if e[0] == "copy"]
        for src, off, size_, what in ((args[1], K(0), scale(sq, 4), "matrix"), (args[2], scale(sq, 4), scale(nc, 4), "shifts")):
            m = [e for e in cp if strip_casts(e[4]) == src]
            R.check("set_MCT", len(m) == 1 and strip_casts(m[0][1]) == strip_casts(blk) and same_poly(P, m[0][2], off, nc) and same_poly(P, m[0][3], size_, nc) and same_poly(P, m[0][5], K(0), nc),
                    what, "the caller's %s are not copied whole to their place" % what, what + " copied")
        R.check("set_MCT", len(cp) == 2, "copies", "something else is copied into the block", "two copies")
        R.check("set_MCT", g("tcp_mct") == K(2), "tcp_mct", "the custom transform is not switched on", "custom transform on")
        R.check("set_MCT", g("irreversible") == K(1), "irreversible", "the irreversible path is not chosen", "irreversible chosen")
        old = before("rsiz")
        part2 = s.decide(mk_cmp("eq", ("and", old, K(0x8000)), K(0)))
        v = kern.unwrap(g("rsiz"))
        R.check("set_MCT", v == K(0x8100) and part2 is True or part2 is False and v == ("or", old, K(0x100)), "rsiz", "the capabilities do not announce the custom transform", "capability announced")
        for n in ix:
            if n not in ("tcp_mct", "irreversible", "rsiz", "mct_data"):
                R.check("set_MCT", g(n) == before(n), "other:" + n, "opj_set_MCT changes %s" % n, "others untouched")
    R.floor("set_MCT", 40)
    R.check("set_MCT", seen >= 1, "success", "opj_set_MCT never succeeds", "success")


def mul_all(a):
    r = K(1)
    for x in a:
        r = mul(r, kern.unwrap(x))
    return r


def same_poly(P, e, want, n):
    """equal for sizes that fit (the machine's wrapping is outside)"""
    from checks.c27 import nev
    import numpy
    try:
        for v in (1, 2, 3, 7, 40):
            env = {n: numpy.array([v])}
            if int(numpy.ravel(nev(P, e, env))[0]) != int(numpy.ravel(nev(P, want, env))[0]):
                return False
    except Exception:
        return False
    return True


# what the operations that are not followed may change in memory that is not theirs
EFFECTS = {"j2k::opj_j2k_check_poc_val": set(),
           "dwt::opj_dwt_calc_explicit_stepsizes": {"opj_stepsize.expn", "opj_stepsize.mant"},
           "j2k::opj_j2k_setup_mct_encoding": {"opj_tcp.m_mct_records", "opj_tcp.m_nb_mct_records", "opj_tcp.m_nb_max_mct_records", "opj_tcp.m_mcc_records", "opj_tcp.m_nb_mcc_records",
                                               "opj_tcp.m_nb_max_mcc_records", "opj_mct_data.*", "opj_simple_mcc_decorrelation_data.*"}}
CARRIERS = {"opj_tcp", "opj_tccp", "opj_cp", "opj_poc", "opj_cparameters", "opj_j2k", "opj_encoding_param", "opj_j2k_enc", "opj_image", "opj_image_comp", "opj_stepsize"}


def effects(R, P):
    """every store, also through callees, into a structure that carries parameters"""
    for path, allow in EFFECTS.items():
        todo, done = [P.find(path)], set()
        while todo:
            f = todo.pop()
            if f.key in done:
                continue
            done.add(f.key)
            for b in f.blocks:
                for st in b["s"]:
                    if st[0] != "=" or not st[1][1:]:
                        continue
                    hit = carrier(P, f, st[1])
                    if hit:
                        n = "%s.%s" % hit
                        R.check("effects", n in allow or hit[0] + ".*" in allow, path.split("::")[-1] + ":" + n, "%s changes %s" % (f.short, n), "stores of unfollowed operations")
            for bb, t in calls(f):
                k = t.get("rs") and t.get("key")
                g = P.fns.get(t.get("key"))
                if g is not None and g.local and not is_log(g.path):
                    todo.append(g)
        R.ok("effects", "operations")
        R.analysed.setdefault("effects", []).append("%s: %d functions" % (path, len(done)))
    R.floor("effects", 3)


def carrier(P, f, pl):
    """(structure, field) a store goes to, None when the place lies in none of the structures"""
    t = f.locals[pl[0]]
    var = 0
    last = None
    deref = False
    for p in pl[1:]:
        if p == "*":
            t = P.pointee(t)
            deref = True
        elif p[0] == ".":
            n = P.tn(t).split("::")[-1].split("<")[0]
            last = (n, p[2]) if n in CARRIERS or n.startswith("opj_") else last
            try:
                t = P.fields(t, var)[p[1]][1]
            except Exception:
                return last
            var = 0
        elif p[0] == "as":
            var = p[1]
        else:
            t = P.types[t].get("t", t)
    if deref and last is None:
        n = P.tn(t).split("::")[-1]
        if n in CARRIERS or n.startswith("opj_"):
            last = (n, "*")
    return last if deref else None


def run(R):
    PR["release"] = P = Prog("openjp2", "release")
    conversions(R, P)
    floorlog(R, P)
    set_mct(R, P)
    effects(R, P)
    todo = [dict(profile="none", irr=i, mct=m, prec=p, alloc=a) for i in (0, 1) for m in (0, 1) for p in (0, 1) for a in ("alloc", "quality", "rate")]
    todo += [dict(profile=pr, irr=1, mct=0, prec=1, alloc="rate") for pr in ("cinema", "imf")]
    todo.insert(0, dict(profile="none", irr=0, mct=0, prec=0, alloc="rate", cp=1))
    todo += [dict(profile="any", rsizconst=k) for k in RSIZ]
    for scen, err, fails, oks, cov in fork_map(job, todo):
        if err:
            raise Missing("%s in %s" % (err, sorted(scen.items())))
        for k, n in oks.items():
            R.ok("parameters", k)
        for k, t in fails.items():
            R.fail("parameters", k, t)
    R.floor("defaults", 200)
