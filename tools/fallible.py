"""Failing steps: what a function does with the results of the steps it runs."""
import re
from apimodel import *

MODS = ("j2k::", "jp2::", "t2::", "tcd::", "t1::", "dwt::", "ht_dec::", "mct::", "codec::", "stream::", "c_api::", "sparse_array::", "bio::", "pi::", "image::", "tgt::", "function_list::", "<")
STEP = re.compile(r"(read|write|decode|encode|setup|init|exec|alloc|build|validation|create|update|apply|merge|add_|start_|end_|skip|seek|flush|set_|copy_default|handler|get_sot_values|get_tile|get_decoded_tile|rateallocate|run|content|check_color|copy_icc|copy_tile_data|move_data_from|are_all_used|need_nb|from_stream|check_poc|matrix_inversion|lupDecompose|inalign|calculate_tp|get_end_header|end_encoding|destroy_header|compliance)")
NOT = re.compile(r"(^is_|^has_|_is_|_has_|compare|mqc|tgt_decode|uvlc|makelayer|pi_next|mel_|^msg_|enc_is_term|opj_pi_update|bio_read|bio_write|raw_decode|data_mut|is_enabled|bits|next_level|_handler$|read_le|^as_|numbytes|get_.*size|header_sizes|number_byte|get_num_tp|^from_|stepsize|packet_count|getnorm|4K_poc|opj_tgt_)")
# jobs that report through a flag their argument points to: path -> True when the argument is the flag itself
OUT = {"t1::opj_t1_decode_cblks": 1, "t1::opj_t1_clbl_decode_processor": "job", "t1::opj_t1_cblk_encode_processor": "job"}
# transfers of the standard library and the byte order library
EXT = re.compile(r"(byteorder::(Read|Write)BytesExt::|std::io::(Read|Write|Seek)::(read|write|seek|flush)|<std::io::Buf.* as std::io::|std::io::BufReader::<R>::seek_relative)")
COUNTED = {"stream::opj_stream_read_data": 2, "stream::opj_stream_write_data": 2, "stream::opj_stream_skip": 1}


def result_kind(P, tid):
    t = P.types[tid]
    n = P.tn(tid)
    if n in ("i32", "bool"):
        return "flag"
    if t["k"] == "ptr":
        return "ptr"
    if n.startswith("std::result::Result<"):
        return "result"
    if n.startswith("std::option::Option<"):
        return "option"
    return None


def steps(P):
    """path -> kind of result, for every local function that does something that can fail"""
    out = {}
    for f in P.local_fns():
        if not f.path.startswith(MODS) or "{closure" in f.path:
            continue
        nm = f.path.split("::")[-1]
        if f.path in COUNTED:
            out[f.path] = "count"
            continue
        k = result_kind(P, f.locals[0])
        if k and STEP.search(nm) and not NOT.search(nm):
            out[f.path] = k
    for f in P.local_fns():
        if not f.path.startswith(MODS):
            continue
        for bb, t in calls(f):
            c = callee(t)
            if c and EXT.match(c) and t.get("d") and len(t["d"]) == 1 and P.tn(f.locals[t["d"][0]]).startswith("std::result::Result<"):
                out[c] = "result"
    return out


def succeeded(st, kind, v, args=(), at=None, I=None):
    """True: v says success; False: failure; None: either"""
    if kind == "flag":
        if v[0] in ("cmp", "not", "band", "pred", "isnull", "fcmp"):
            return st.decide(v)
        d = st.decide(mk_cmp("eq", v, K(0)))
        if d is None and v[0] == "S":
            return st.decide(v)
        return None if d is None else not d
    if kind == "count":
        return st.decide(mk_cmp("eq", v, args[at]))
    if kind == "ptr":
        d = st.decide(I.ptr_null(st, v) if I is not None else ("isnull", v))
        return None if d is None else not d
    if kind in ("result", "option"):
        want = 0 if kind == "result" else 1
        if v[0] == "agg":
            return v[2] == want
        k = st.var.get(v) if hasattr(st, "var") else None
        if k is not None:
            return k == want
        d = st.decide(mk_cmp("eq", ("disc", v, v[1] if v[0] == "S" else None), K(want)))
        return d
    return None


class Walk:
    def __init__(self, P, f, st_map, merge=True, light=False, enter=(), **opt):
        self.P, self.f = P, f
        self.map = st_map
        self.bad = {}
        self.seen = {}
        A = Api(P, lambda p: p in st_map or p in OUT or p.startswith(MODS[:-1] + ("malloc::", "cio::", "mqc::", "event::", "invert::")), havoc=False, merge=merge, **opt)
        self.I = I = A.interp()
        I.loop_events = True
        I.cx.finv = {("types::opj_tccp", "numresolutions"): (1, 33)}
        if light:
            I.cx.light = True
            I.untracked = lambda b: b[0] != "L"
        oc = I.on_call

        def on_call(I, st, path, key, args, rt, tt, ff, bb):
            r = oc(I, st, path, key, args, rt, tt, ff, bb)
            if r is not None and path in OUT and known(P, path):
                return self.out(path, r, args, key, tt)
            if r is not None and path in st_map:
                for s, v in r:
                    s.ev("step", path, v, tuple(args), tt.get("l"))
            return r
        def on_call2(I, st, path, key, args, rt, tt, ff, bb):
            if path in enter and path not in st_map:
                return I.exec_fn(P.fns[key], list(args), st, (("enter", ff.key, bb),), 1)
            if path in enter:
                out = I.exec_fn(P.fns[key], list(args), st, (("enter", ff.key, bb),), 1)
                for s, v in out:
                    s.ev("step", path, v, tuple(args), tt.get("l"))
                return out
            return on_call(I, st, path, key, args, rt, tt, ff, bb)
        I.on_call = on_call2 if enter else on_call
        I.on_loop_back = self.back
        I.event_key = lambda s: tuple((e[1], e[2], succeeded(s, st_map.get(e[1], "flag"), e[2], e[3], COUNTED.get(e[1]), I)) for e in s.evlist() if e[0] == "step")
        self.kind = result_kind(P, f.locals[0])
        self.prets = {}
        for n, a in P.adts.items():
            if n.startswith("t1::"):
                for v in a["v"]:
                    for i, x in enumerate(v["f"]):
                        if x["n"] == "pret":
                            self.prets[n] = i

    def out(self, path, r, args, key, tt):
        """a job that clears its failure flag or leaves it alone"""
        I, res = self.I, []
        for s, v in r:
            p = args[OUT[path]] if OUT[path] != "job" else None
            if p is None:
                while args[0][0] == "cast":
                    args = [args[0][3]]
                j = root(args[0])[0]
                hit = [(nm, i) for nm, i in self.prets.items()]
                p = None
                for adt, i in hit:
                    b = args[0]
                    p = rdp(I, s, ("ptr", b, (("f", i, "pret"),), None) if b[0] != "ptr" else ("ptr", b[1], b[2] + (("f", i, "pret"),), b[3]))
                    if p[0] == "ptr":
                        break
            ok = s.copy()
            ok.ev("step", path, K(1), tuple(args), tt.get("l"))
            res.append((ok, v))
            wrp(I, s, p, K(0))
            s.ev("step", path, K(0), tuple(args), tt.get("l"))
            res.append((s, v))
        return res

    def check(self, st, evs, where):
        for e in evs:
            if e[0] != "step":
                continue
            k = self.map.get(e[1], "flag")
            ok = succeeded(st, k, e[2], e[3], COUNTED.get(e[1]), self.I)
            self.seen[(e[1], e[4])] = self.seen.get((e[1], e[4]), 0) + 1
            if ok is not True:
                self.bad.setdefault((e[1], e[4]), where)

    def back(self, s, fn, h, lid):
        if self.I.record:
            return
        ev = s.evlist()
        i = max((i for i, e in enumerate(ev) if e[0] == "loop" and e[1] == lid), default=0)
        self.check(s, ev[i:], "loop")

    def run(self):
        f = self.f
        outs = self.I.exec_fn(f, [self.I.sym(f.locals[i], "arg", i) for i in range(1, f.argc + 1)], State(self.I.cx))
        self.n = len(outs)
        for s, v in outs:
            if self.kind is not None:
                ok = succeeded(s, self.kind, v, I=self.I)
                if ok is False:
                    continue
                if ok is None:
                    s = s.copy()
                    if self.kind == "flag":
                        s.assume(mk_cmp("eq", v, K(0)), False)
                    elif self.kind == "ptr":
                        s.assume(self.I.ptr_null(s, v), False)
                    elif v[0] == "S":
                        s.var[v] = 0 if self.kind == "result" else 1
                    if s.dead or not s.feasible():
                        continue
            self.check(s, s.evlist(), "return")
        return self


def inline(P, f, enter, depth=4):
    """f with the bodies of the calls `enter` accepts spliced in"""
    for _ in range(depth):
        todo = [(bb, t) for bb, t in calls(f) if t.get("key") in P.fns and P.fns[t["key"]].local and not P.fns[t["key"]].coroutine and enter(callee(t)) and t["key"] != f.key]
        if not todo:
            return f
        d = dict(f.d)
        d["locals"] = list(f.locals)
        d["blocks"] = [{"s": list(b["s"]), "t": b["t"], "c": b.get("c")} for b in f.blocks]
        for bb, t in todo:
            g = P.fns[t["key"]]
            if len(t["a"]) != g.argc:
                continue
            lo, bo = len(d["locals"]), len(d["blocks"])
            d["locals"] += g.locals

            def place(p):
                return [p[0] + lo] + [["[]", e[1] + lo] if isinstance(e, list) and e[0] == "[]" else e for e in p[1:]]

            def op(o):
                return [o[0], place(o[1])] if o[0] in ("c", "m") else o

            def rv(r):
                k = r[0]
                if k == "use":
                    return ["use", op(r[1])]
                if k == "ref":
                    return ["ref", r[1], place(r[2])]
                if k == "cast":
                    return ["cast", r[1], op(r[2])] + r[3:]
                if k == "bin":
                    return ["bin", r[1], op(r[2]), op(r[3])] + r[4:]
                if k == "un":
                    return ["un", r[1], op(r[2])] + r[3:]
                if k in ("disc", "discr", "len"):
                    return [k, place(r[1])] + r[2:]
                if k == "agg":
                    return ["agg", r[1], [op(o) for o in r[2]]] + r[3:]
                if k == "rep":
                    return ["rep", op(r[1])] + r[2:]
                return r
            for b in g.blocks:
                ss = [["=", place(s[1]), rv(s[2])] + s[3:] if s[0] == "=" else s for s in b["s"]]
                u = dict(b["t"]) if b["t"] else b["t"]
                if u:
                    if u["k"] == "ret":
                        if t.get("d"):
                            ss.append(["=", t["d"], ["use", ["m", [lo]]], t.get("l")])
                        u = {"k": "goto", "t": t["t"]} if t.get("t") is not None else {"k": "unreach"}
                    else:
                        if u["k"] == "switch":
                            u["v"] = [[x, n + bo] for x, n in u["v"]]
                            u["o"] = u["o"] + bo if u["o"] is not None else None
                            u["d"] = op(u["d"])
                        elif u.get("t") is not None:
                            u["t"] = u["t"] + bo
                        if u.get("u") is not None:
                            u["u"] = u["u"] + bo
                        if u["k"] == "call":
                            u["a"] = [op(a) for a in u["a"]]
                            if u.get("d"):
                                u["d"] = place(u["d"])
                        if u["k"] == "drop" and u.get("p"):
                            u["p"] = place(u["p"])
                d["blocks"].append({"s": ss, "t": u, "c": b.get("c")})
            d["blocks"][bb]["s"] += [["=", [lo + 1 + i], ["use", a], t.get("l")] for i, a in enumerate(t["a"])]
            d["blocks"][bb]["t"] = {"k": "goto", "t": bo}
        f = type(f)(f.p, d)
    return f


# ---------------------------------------------------------------- typestate over the control-flow graph
CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}


class Flow:
    """every fallible call's result as a typestate: unknown until tested, then succeeded or failed"""

    def __init__(self, P, f, st_map, cap=4000):
        self.P, self.f, self.map, self.cap = P, f, st_map, cap
        self.bad = {}
        self.sites = {}
        self.kind = result_kind(P, f.locals[0])
        self.relevant()

    def reports(self, t):
        """a failure flag outside the function is cleared"""
        return (callee(t) or "").endswith("ptr::write_volatile") and len(t["a"]) == 2 and self.val({}, t["a"][1]) == ("k", 0)

    def relevant(self):
        f = self.f
        self.chan = {-1} if any(self.reports(t) for _, t in calls(f)) else set()
        rel = {0}
        for bb, t in calls(f):
            if callee(t) in self.map:
                self.sites[bb] = t
                if t.get("d") and len(t["d"]) == 1:
                    rel.add(t["d"][0])
        change = True
        while change:
            change = False
            for b in f.blocks:
                for s in b["s"]:
                    if s[0] != "=" or len(s[1]) != 1:
                        continue
                    d, rv = s[1][0], s[2]
                    src = [o[1][0] for o in self.ops(rv) if o[0] in ("c", "m") and len(o[1]) == 1]
                    if d in rel and rv[0] in ("use", "cast"):
                        for x in src:
                            if x not in rel:
                                rel.add(x)
                                change = True
                    if any(x in rel - {0} for x in src) and d not in rel:
                        rel.add(d)
                        change = True
                t = b["t"]
                if t["k"] == "call" and t.get("d") and len(t["d"]) == 1 and t["d"][0] not in rel and callee(t) not in self.map:
                    if any(a[0] in ("c", "m") and len(a[1]) == 1 and a[1][0] in rel - {0} for a in t["a"]):
                        rel.add(t["d"][0])
                        change = True
        self.rel = rel

    def origin(self, o, d=0):
        """where an operand's value comes from, casts removed"""
        if o[0] == "k":
            c = o[1].get("c")
            return ("k", c.get("v")) if isinstance(c, dict) and "v" in c else ("?", id(o))
        if len(o[1]) > 1:
            return ("place", repr(o[1]))
        if not hasattr(self, "defs"):
            self.defs = {}
            for b in self.f.blocks:
                for s in b["s"]:
                    if s[0] == "=" and len(s[1]) == 1:
                        self.defs.setdefault(s[1][0], []).append(s[2])
                t = b["t"]
                if t and t["k"] == "call" and t.get("d") and len(t["d"]) == 1:
                    self.defs.setdefault(t["d"][0], []).append(["call"])
        l = o[1][0]
        ds = self.defs.get(l, [])
        if d < 8 and len(ds) == 1 and ds[0][0] in ("use", "cast"):
            return self.origin(self.ops(ds[0])[0], d + 1)
        return ("local", l)

    def ops(self, rv):
        if rv[0] == "use":
            return [rv[1]]
        if rv[0] == "cast":
            return [rv[2]]
        if rv[0] == "un":
            return [rv[2]]
        if rv[0] == "bin":
            return [o for o in rv[2:] if isinstance(o, list) and o and o[0] in ("c", "m", "k")]
        if rv[0] in ("disc", "discr", "len"):
            return [["c", rv[1]]]
        if rv[0] == "ref":
            return [["c", [rv[2][0]]]]
        return []

    def val(self, vals, o):
        if o[0] == "k":
            c = o[1].get("c")
            if isinstance(c, dict) and "v" in c and isinstance(c["v"], (int, bool)):
                return ("k", int(c["v"]))
            return None
        if len(o[1]) == 1:
            return vals.get(o[1][0])
        return None

    def rvalue(self, vals, rv):
        if rv[0] in ("use", "cast"):
            return self.val(vals, self.ops(rv)[0])
        if rv[0] == "ref":
            return vals.get(rv[2][0]) if len(rv[2]) == 1 and rv[1] == "shr" else None
        if rv[0] == "un" and rv[1] == "Not":
            v = self.val(vals, rv[2])
            if v is None:
                return None
            if v[0] == "k":
                return ("k", 1 - v[1]) if v[1] in (0, 1) else None
            if v[0] == "test":
                return ("test", v[1], v[3], v[2])
            if v[0] == "res":
                return ("test", v[1], False, True)
            return None
        if rv[0] == "bin":
            o = self.ops(rv)
            if len(o) != 2:
                return None
            a, b = self.val(vals, o[0]), self.val(vals, o[1])
            op = rv[1]
            if a and a[0] == "res" or b and b[0] == "res":
                site = a[1] if a and a[0] == "res" else b[1]
                other = b if a and a[0] == "res" else a
                k = self.map[callee(self.sites[site])]
                if k == "count":
                    oo = o[1] if a and a[0] == "res" else o[0]
                    if op not in ("Eq", "Ne") or self.origin(oo) != self.origin(self.sites[site]["a"][COUNTED[callee(self.sites[site])]]):
                        return None         # not compared with the count asked for
                    return ("test", site, op == "Eq", op == "Ne")
                if k == "flag" and other and other[0] == "k" and op in CMP:
                    l = (lambda x: CMP[op](x, other[1])) if a and a[0] == "res" else (lambda x: CMP[op](other[1], x))
                    t, z = l(1), l(0)
                    return ("test", site, bool(t), bool(z)) if t != z else None
            if a and b and a[0] == "test" and b[0] == "k" and op in ("Eq", "Ne") and b[1] in (0, 1):
                same = (op == "Eq") == (b[1] == 1)
                return a if same else ("test", a[1], a[3], a[2])
            return None
        if rv[0] == "agg" and rv[1][0] == "adt":
            if rv[1][1].endswith("::Option"):
                return ("k", rv[1][2])
            if rv[1][1].endswith("::Result"):
                return ("k", 1 - rv[1][2])
            return None
        if rv[0] in ("disc", "discr"):
            p = rv[1]
            v = vals.get(p[0]) if len(p) == 1 else None
            return ("d", v[1]) if v and v[0] == "res" else v if v and v[0] == "br" else None
        return None

    def run(self):
        f = self.f
        start = (frozenset(), frozenset())
        seen = {0: {start}}
        work = [(0, start)]
        while work:
            bb, (vs, ss) = work.pop()
            for nb, st in self.block(bb, dict(vs), dict(ss)):
                st = (frozenset(st[0].items()), frozenset(st[1].items()))
                l = seen.setdefault(nb, set())
                if st in l:
                    continue
                l.add(st)
                if len(l) > self.cap:
                    raise Missing("too many result states in " + f.path)
                work.append((nb, st))
        self.states = sum(map(len, seen.values()))
        return self

    def flag(self, site, where):
        k = (callee(self.sites[site]), self.sites[site].get("l"))
        if where == "untested" or k not in self.bad:
            self.bad[k] = where

    def block(self, bb, vals, sts):
        f = self.f
        b = f.blocks[bb]
        for s in b["s"]:
            if s[0] == "=" and len(s[1]) == 1 and s[1][0] in self.rel:
                v = self.rvalue(vals, s[2])
                if v is None:
                    vals.pop(s[1][0], None)
                else:
                    vals[s[1][0]] = v
        t = b["t"]
        k = t["k"]
        if k == "ret":
            v = vals.get(0) if self.kind is not None else vals.get(-1)
            if v == ("k", 0):
                return []
            for site, r in sts.items():
                if r == "ok" or v == ("res", site):
                    continue
                if v and v[0] == "test" and v[1] == site and v[2]:
                    continue
                if self.kind is None and r == "bad" and -1 not in self.chan:
                    continue            # tested; the function has no way to report
                self.flag(site, "untested" if r == "?" else "tolerated")
            return []
        if k == "call":
            c = callee(t)
            if self.reports(t):
                vals[-1] = ("k", 0)
            d = t["d"][0] if t.get("d") and len(t["d"]) == 1 else None
            if bb in self.sites:
                if sts.get(bb, "ok") != "ok" and not (self.kind is None and sts[bb] == "bad"):
                    self.flag(bb, "untested" if sts[bb] == "?" else "tolerated")
                sts[bb] = "?"
                for l in [l for l, v in vals.items() if v[0] != "k" and v[1] == bb]:
                    del vals[l]
                if d is not None:
                    vals[d] = ("res", bb)
            elif d is not None and d in self.rel:
                nm = (c or "").split("::")[-1]
                a = self.val(vals, t["a"][0]) if t["a"] else None
                if a and a[0] == "res" and nm in ("unwrap", "expect"):
                    sts[a[1]] = "ok"        # or the function does not return
                    vals.pop(d, None)
                elif a and a[0] == "res" and nm in ("is_null", "is_none", "is_err"):
                    vals[d] = ("test", a[1], False, True)
                elif a and a[0] == "res" and nm in ("is_some", "is_ok"):
                    vals[d] = ("test", a[1], True, False)
                elif a and a[0] == "res" and nm == "branch":
                    vals[d] = ("br", a[1])
                elif a and a[0] == "res" and nm in ("ok", "from", "into", "map_err", "map", "as_ref", "ok_or", "ok_or_else"):
                    vals[d] = a
                elif nm in ("from_residual", "null_mut", "null"):
                    vals[d] = ("k", 0)
                else:
                    vals.pop(d, None)
            return [(t["t"], (vals, sts))] if t.get("t") is not None else []
        if k == "switch":
            v = self.val(vals, t["d"])
            out = []
            arms = list(t["v"]) + [(None, t["o"])]
            for val, nb in arms:
                if nb is None:
                    continue
                s2 = dict(sts)
                others = [x for x, _ in t["v"]]
                if v and v[0] == "k":
                    hit = v[1] == val if val is not None else v[1] not in others
                    if not hit:
                        continue
                elif v and v[0] in ("test", "res", "d", "br"):
                    r = self.status(v, val, others)
                    if r is not None:
                        if sts.get(v[1], "?") not in ("?", r):
                            continue
                        s2[v[1]] = r
                out.append((nb, (dict(vals), s2)))
            return out
        if k in ("goto", "drop", "assert"):
            nb = t.get("t")
            return [(nb, (vals, sts))] if nb is not None else []
        return []

    def status(self, v, val, others):
        """what taking the arm says about the call"""
        kind = self.map[callee(self.sites[v[1]])]
        if v[0] == "test":
            truth = bool(val) if val is not None else (0 in others)
            if val is None and 0 not in others:
                return None
            ok, bad = v[2] == truth, v[3] == truth
            return "ok" if ok and not bad else "bad" if bad and not ok else None
        if v[0] == "res" and kind == "flag":
            if val == 0:
                return "bad"
            return "ok" if val is not None or 0 in others else None
        if v[0] in ("d", "br"):
            good = 0 if v[0] == "br" or kind == "result" else 1
            if val is not None:
                return "ok" if val == good else "bad"
            return "bad" if good in others else "ok" if len(others) == 1 else None
        return None
