"""Requests, responses, paths and storage in the abstract domain (C03-C05, C08)."""
import posixpath, re
from absint import *
from strdom import *
import strdom
from checks import iiif_spec as S

SPEC = {"Region": S.region, "Size": S.size, "Rotation": S.rotation, "Quality": S.quality, "Format": S.format_}
PATHTY = re.compile(r"\b(Path|PathBuf|OsStr|OsString)\b")
COMPONENTS = ["Prefix", "RootDir", "CurDir", "ParentDir", "Normal"]


class HttpInterp(StrInterp):
    """parse_ops: the parsers of C01/C02 stay uninterpreted (their meaning is theirs to check)"""

    def __init__(self, prog, parse_ops=True, cut=True, display=False, **kw):
        super().__init__(prog, **kw)
        self.parse_ops = parse_ops
        self.cut = cut
        self.display = display
        self.externals = {}
        self.nq = 0

    def parse_app(self, st, rt, v):
        m = re.match(r"std::result::Result<iiif::(\w+), ", self.p.tn(rt) if rt is not None else "")
        if m and m.group(1) in SPEC and self.parse_ops:
            return [(st, app(rt, "parse:" + m.group(1), self.term(st, v)))]
        return None

    def m_parse(self, st, args, rt, t, fn, bb, fr, depth, key, path):
        r = self.parse_app(st, rt, args[0])
        if r is not None:
            return r
        return super().m_parse(st, args, rt, t, fn, bb, fr, depth, key, path)

    # --- vectors collected from a split: one state per length
    def collect_vec(self, st, it, rt):
        lst, i, nb = it[3]
        if not (is_k(i) and is_k(nb)):
            return None
        et = self.p.types[rt]["a"][0]
        slt = self.p.tybyname.get("[%s]" % self.p.tn(et))
        out, cur = [], [st]
        for n in range(self.UNROLL + 4):
            nxt = []
            for s in cur:
                for s2, yes in self.list_has(s, lst, K(i[1] + n), nb):
                    if yes:
                        nxt.append(s2)
                    else:
                        items = tuple(app(et, "item", lst, K(i[1] + j)) for j in range(n))
                        o = self.newobj(s2, et, ("vec", lst, i, nb, n), items[0] if items else UNDEF)
                        if slt is not None:
                            o = ("ptr", ("obj", slt, ("vec", lst, i, nb, n)), I0, None)
                        for j in range(n):
                            s2.mem[(o[1], K(j))] = (et, items[j])
                        out.append((s2, ("agg", "@vec", 0, (K(n), o, lst, i, nb))))
            cur = nxt
        for s in cur:
            if not self.deep(s):
                out.append((s, app(rt, "collect", lst, i, nb)))
        return out

    def vec_model(self, st, last, args, rt):
        v = args[0] if args else None
        byref = False
        if v is not None and v[0] == "ptr":
            if v[1][0] not in ("L", "obj", "S"):
                return None
            v = self.rd(st, v[1], v[2])
            byref = True
        if v is None or v[0] != "agg" or v[1] != "@vec":
            return None
        n, o, lst, i, nb = v[3]
        sl = ("ptr", o[1], I0, n)
        if last == "len":
            return [(st, n)]
        if last == "is_empty":
            return [(st, K(int(n == K(0))))]
        if last in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "borrow"):
            return [(st, sl)]
        if last == "into_iter" and not byref:
            return [(st, ("agg", "@iter", 0, (lst, i, nb)))]
        if last in ("index", "index_mut") and len(args) == 2 and is_k(args[1]) and args[1][1] < n[1]:
            return [(st, ("ptr", o[1], (("i", args[1]),), None))]
        return None

    def str_model(self, st, path, key, args, rt, t, fn, bb, fr, depth):
        np = ngen(path)
        r = self.vec_model(st, np.rsplit("::", 1)[-1], args, rt)
        if r is not None:
            return r
        last = np.rsplit("::", 1)[-1]
        one = lambda v: [(st, v)]
        rn = self.p.tn(rt) if rt is not None else ""
        if last in ("from_str", "parse", "try_from", "try_into") and len(args) == 1:
            r = self.parse_app(st, rt, args[0])
            if r is not None:
                return r
        tn0 = self.argtn(fn, t, 0) if t.get("a") is not None and len(t["a"]) == len(args) else ""
        b0 = re.sub(r"^(&(mut )?|std::pin::Pin<&(mut )?)+", "", tn0)
        # ---- request
        if b0.startswith("hyper::Request<") or b0.startswith("hyper::http::Request<"):
            if last == "method":
                return one(app(rt, "method"))
            if last == "uri":
                return one(app(rt, "uri"))
            if last in ("headers", "version", "extensions", "body"):
                return one(app(rt, "req_" + last))
        if b0 in ("hyper::Uri", "hyper::http::Uri"):
            if last == "path":
                return one(app(rt, "path"))
            if last == "query":
                return one(app(rt, "query"))
            if last in ("host", "scheme_str", "path_and_query", "authority", "scheme", "port"):
                return one(app(rt, "uri_" + last))
        if last in ("eq", "ne") and len(args) == 2 and b0 in ("hyper::Method", "hyper::StatusCode"):
            a, b = self.term(st, args[0]), self.term(st, args[1])
            c = papp("same", a, b)
            return one(c if last == "eq" else mk_not(c))
        if b0 == "hyper::Method" and last == "as_str":
            return one(app(rt, "method_str", self.term(st, args[0])))
        # ---- response
        if np in ("hyper::Response::builder", "hyper::http::response::Builder::new"):
            return one(("agg", "@builder", 0, (K(200),)))
        if args and args[0][0] == "agg" and args[0][1] == "@builder":
            if last == "status":
                return one(("agg", "@builder", 0, (self.status(st, args[1]),)))
            if last in ("header", "version", "extension"):
                return one(args[0])
            if last == "body":
                d = self.p.types[rt]["d"]
                return one(("agg", d, 0, (("agg", "@resp", 0, (args[0][3][0], self.term(st, args[1]))),)))
        if np == "hyper::Response::new":
            return one(("agg", "@resp", 0, (K(200), self.term(st, args[0]))))
        if last == "status_mut" and "Response" in np and args[0][0] == "ptr":
            return None
        if np.startswith("hyper::StatusCode::") and last == "from_u16":
            d = self.p.types[rt]["d"]
            if is_k(args[0]) and 100 <= args[0][1] <= 999:
                return one(("agg", d, 0, (args[0],)))
        if last in ("from", "into", "from_static", "copy_from_slice", "new") and rn.endswith("Bytes") and "Bytes" in rn:
            return one(app(rt, "bytes", *[self.term(st, a) for a in args]))
        # ---- paths
        r = self.path_model(st, np, last, args, rt, rn, t, fn, bb, fr, depth, tn0, b0)
        if r is not None:
            return r
        # ---- handles
        if last in ("deref", "as_ref", "borrow") and len(args) == 1 and (b0.startswith("std::sync::Arc<") or b0.startswith("std::rc::Rc<")):
            return one(app(rt, "deref", self.term(st, args[0])))
        if last == "clone" and len(args) == 1 and (b0.startswith("std::sync::Arc<") or b0.startswith("std::rc::Rc<")):
            return one(self.term(st, args[0]))
        if self.display and last == "to_string" and len(args) == 1:
            st = self.display_of(st, args[0], b0, fr, depth, fn, bb)
            return [(s, app(rt, "String", app(self.tstr, "display"))) for s in st]
        return super().str_model(st, path, key, args, rt, t, fn, bb, fr, depth)

    def status(self, st, v):
        v = self.term(st, v)
        while v[0] == "agg" and len(v[3]) == 1:
            v = v[3][0]
        return v

    def display_of(self, st, v, tn, fr, depth, fn, bb):
        """run the local Display implementation for its panics"""
        for f in self.p.local_fns():
            if f.path.endswith("::fmt") and (f.trait or "").endswith("Display") and f.selfty == tn:
                if f.key in self.no_inline:
                    return [st]
                fm = self.fresh(st, f.locals[2], "fmt", fn.key, bb)
                return [s for s, _ in self.enter(st, f, [v, fm], depth, (fn.key, bb), fr)]
        return [st]

    def path_model(self, st, np, last, args, rt, rn, t, fn, bb, fr, depth, tn0, b0):
        one = lambda v: [(st, v)]
        if not args:
            return None
        T = lambda i: self.term(st, args[i])
        inpath = "std::path::" in np or "Path" in tn0 or "std::ffi::" in np or "OsStr" in tn0
        if not inpath and not (last in ("from", "into") and PATHTY.search(rn)):
            return None
        if self.is_it(st, args[0]):
            return None
        if last in ("new", "from", "into", "as_ref", "to_path_buf", "to_owned", "into_boxed_path", "as_path", "deref", "clone", "borrow", "as_os_str",
                    "into_path_buf", "as_os_string", "into_os_string") and len(args) == 1 and PATHTY.search(rn):
            x = T(0)
            return one(app(rt, "pathof", x) if not (is_app(x) and x[3] in ("pathof", "join") and x[1] == rt) else x)
        if last == "new" and not args:
            return one(app(rt, "pathof", ("str", "")))
        if last == "join":
            return one(app(rt, "join", T(0), T(1)))
        if last == "push" and args[0][0] == "ptr":
            cur = self.rd(st, args[0][1], args[0][2])
            self.wr(st, args[0][1], args[0][2], app(None, "join", self.term(st, cur), T(1)))
            return one(("agg", "tuple", 0, ()))
        if last in ("components", "iter"):
            return one(("agg", "@iter", 0, (app(None, "components", T(0)), K(0), K(0))))
        if last in ("is_absolute", "has_root", "is_relative"):
            return one(papp("path_" + last, T(0)))
        if last in ("starts_with", "ends_with") and rn == "bool":
            return one(papp("path_" + last, T(0), T(1)))
        if last in ("to_str", "file_name", "parent", "extension", "file_stem"):
            return one(app(rt, "path_" + last, T(0)))
        if last in ("eq", "ne") and rn == "bool":
            c = papp("path_eq", T(0), T(1))
            return one(c if last == "eq" else mk_not(c))
        if last == "as_os_str" or last == "display" or last == "to_string_lossy":
            return one(app(rt, "pathof", T(0)))
        return None

    def is_it(self, st, v):
        if v[0] == "ptr" and v[1][0] in ("L", "obj", "S"):
            v = self.rd(st, v[1], v[2])
        return v is not None and v[0] == "agg" and v[1] == "@iter"

    # --- quantifiers over lists
    def iter_model(self, st, np, last, args, rt, t, fn, bb, fr, depth, key, tn0):
        if last == "collect" and self.cut and args and args[0][0] == "agg" and args[0][1] == "@iter" and self.p.tn(rt).startswith("std::vec::Vec<"):
            r = self.collect_vec(st, args[0], rt)
            if r is not None:
                return r
        r = super().iter_model(st, np, last, args, rt, t, fn, bb, fr, depth, key, tn0)
        if r is not None or not args:
            return r
        it, ptr = args[0], None
        if it[0] == "ptr":
            ptr = it
            it = self.rd(st, it[1], it[2]) if it[1][0] in ("L", "obj", "S") else None
        if it is None or it[0] != "agg" or it[1] != "@iter":
            return None
        lst, i, nb = it[3]
        if last in ("all", "any", "find", "position", "filter", "map") and len(args) == 2:
            clo = args[1]
            q = self.closure_parts(st, clo, lst, i, depth, fn, bb, fr, t, byref=last in ("find", "filter"))
            if q is None:
                return None
            elem, parts = q
            if last in ("all", "any"):
                return [(st, papp(last, lst, i, nb, elem, parts))]
            if last == "filter":
                return [(st, ("agg", "@iter", 0, (app(None, "list_filter", lst, i, nb, elem, parts), K(0), K(0))))]
            if last == "map":
                return [(st, ("agg", "@iter", 0, (app(None, "list_map", lst, i, nb, elem, parts), K(0), K(0))))]
            return [(st, app(rt, "list_" + last, lst, i, nb, elem, parts))]
        return None

    def closure_parts(self, st, clo, lst, i, depth, fn, bb, fr, t, byref=False):
        c = self.term(st, clo)
        if c[0] == "agg" and c[1].startswith("closure:"):
            k = c[1].split(":", 1)[1]
            body = self.p.fns.get(k) or (self.p.bypath.get(k) or [None])[0]
            if body is None:
                return None
            et = body.locals[2]
            self.nq += 1
            elem = app(et, "elem", lst, K(self.nq))
            # by-value closures take self as pointer or value
            a0 = clo
            if self.p.types[body.locals[1]]["k"] in ("ref", "ptr") and clo[0] != "ptr":
                a0 = self.box(st, clo, fn, bb)
            outs = self.enter(st.copy(), body, [a0, elem], depth, (fn.key, bb), fr)
        else:
            return None
        parts = []
        for s, r in outs:
            if s.dead:
                continue
            if s.evlist() != st.evlist():
                return None
            f = tuple((k, v) for k, v in s.facts.items() if k not in st.facts)
            va = tuple((k, v) for k, v in s.var.items() if st.var.get(k) != v)
            nv = tuple((k[1], tuple(v)) for k, v in s.notes.items() if isinstance(k, tuple) and k[0] == "notvar" and st.notes.get(k) != v)
            parts.append((f, va, nv, self.term(s, r)))
        return elem, tuple(parts)

    def box(self, st, v, fn, bb):
        self.nq += 1
        return self.newobj(st, None, ("closure", self.nq), v)

    # --- awaiting, storage, everything else
    def future_model(self, st, np, last, args, rt, t, fn, bb, fr, depth, key, tn0):
        return super().future_model(st, np, last, args, rt, t, fn, bb, fr, depth, key, tn0)

    def opaque(self, st, path, key, args, rt, t, fn, bb):
        np = ngen(path)
        self.externals.setdefault(np, set()).add(fn.path)
        if re.match(r"^<?(glommio::io|std::fs|tokio::fs|async_fs|glommio::sys)", np) and args:
            for i, a in enumerate(args):
                tn = self.argtn(fn, t, i) if i < len(t.get("a", ())) else ""
                x = self.term(st, a)
                if PATHTY.search(tn) or self.is_pathterm(x):
                    st.ev("open", x)
                    return [(st, app(rt, "file_op", ("str", np), x))]
            return [(st, app(rt, "ext", ("str", np), *[self.term(st, a) for a in args]))]
        return super().opaque(st, path, key, args, rt, t, fn, bb)

    def is_pathterm(self, x):
        return is_app(x) and x[3] in ("pathof", "join")

    def loop(self, fn, fr, depth, h, st, rets):
        if not self.cut:
            return super().loop(fn, fr, depth, h, st, rets)
        cfg = fn.cfg()
        body = cfg.loops[h]
        st0 = st.copy()
        cur = [st.copy()]
        outs, lrets = [], []
        pan0 = len(self.panics)
        for n in range(self.UNROLL + 1):
            backs, exits = self.region(fn, fr, depth, body, h, cur, h, lrets)
            for tgt, ss in exits.items():
                outs.extend((tgt, s) for s in ss)
            cur = [b for b in backs if not b.dead]
            if not cur or len(cur) > 400:
                break
        if cur and not all(self.deep(s) for s in cur):
            del self.panics[pan0:]
            return Interp.loop(self, fn, fr, depth, h, st0, rets)
        rets.extend(lrets)
        return outs

    def deep(self, s):
        """a state only lists longer than every representative can reach"""
        for c, v in s.facts.items():
            if v and c[0] == "pred" and c[1] == "app" and c[2] == "has" and is_k(c[4]) and is_k(c[5]) \
                    and c[4][1] + c[5][1] >= self.UNROLL - 1:
                return True
        return False


class Parsed(tuple):
    pass


class HttpEval(Eval):
    """env: method (variant index of http's Inner), path, base, storage (bool)"""

    def __init__(self, I, env, method=None, path=None, base="/srv/images", storage=True):
        super().__init__(I, env)
        self.method, self.path, self.base, self.storage = method, path, base, storage

    def ev1(self, e):
        if e in self.env:
            return self.env[e]
        if e[0] == "agg" and e[1] == "@resp":
            return ("enum", "@resp", 0, (self.ev(e[3][0]),))
        if e[0] == "S" and len(e) > 2 and e[2] == "fld" and e[1] is not None and PATHTY.search(self.p.tn(e[1])):
            return ("path", self.base)
        if e[0] == "S" and e[1] is not None and e[1] >= 0 and PATHTY.search(self.p.tn(e[1])) and not is_app(e):
            return ("path", self.base)
        return super().ev1(e)

    def pth(self, e):
        v = self.ev(e)
        if isinstance(v, str):
            return v
        if isinstance(v, tuple) and v and v[0] == "path":
            return v[1]
        if isinstance(v, tuple) and v and v[0] == "enum" and v[1].endswith("Component"):
            return comp_str(v)
        raise Unknown(("path value", e))

    def app(self, n, a, tid):
        if n == "method":
            ad = [k for k in self.p.adts if k.endswith("http::method::Inner") or k.endswith("method::Inner")]
            return ("enum", "hyper::Method", 0, (("enum", ad[0] if ad else "Inner", self.method, ()),))
        if n == "method_str":
            return ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "EXT"][self.method]
        if n == "path":
            return self.path
        if n == "query":
            return self.some(None)
        if n == "uri":
            return ("opaque", "uri")
        if n.startswith("parse:"):
            s = self.ev(a[0])
            r = SPEC[n[6:]](s)
            return self.result(("parsed", n[6:], s) if r[0] == "Ok" else None)
        if n == "await":
            return self.result(("opaque", "file")) if self.storage else self.result(None)
        if n == "pathof":
            v = self.ev(a[0])
            return v if isinstance(v, tuple) and v[0] == "path" else ("path", self.pth(a[0]))
        if n == "join":
            return ("path", posixpath.join(self.pth(a[0]), self.pth(a[1])))
        if n == "components":
            return components(self.pth(a[0]))
        if n == "deref":
            return self.ev(a[0])
        if n in ("path_to_str",):
            return self.some(self.pth(a[0]))
        if n == "path_file_name":
            c = components(self.pth(a[0]))
            return self.some(("path", c[-1][3][0]) if c and c[-1][2] == 4 else None)
        if n == "path_parent":
            c = components(self.pth(a[0]))
            if not c or c[-1][2] in (0, 1):
                return self.some(None)
            return self.some(("path", posixpath.join("", *[comp_str(x) for x in c[:-1]]) if c[:-1] else ""))
        if n in ("list_filter", "list_map", "list_find", "list_position"):
            xs = self.ev(a[0])
            xs = xs[self.ev(a[1]):len(xs) - self.ev(a[2])]
            rs = [self.quant(a[3], a[4], x) for x in xs]
            if n == "list_filter":
                return [x for x, r in zip(xs, rs) if r]
            if n == "list_map":
                return rs
            for i, (x, r) in enumerate(zip(xs, rs)):
                if r:
                    return self.some(x if n == "list_find" else i)
            return self.some(None)
        if n in ("bytes", "fmt", "display", "String") and n != "String":
            return ("opaque", n)
        return super().app(n, a, tid)

    def papp(self, n, a):
        if n == "same":
            return self.ev(a[0]) == self.ev(a[1])
        if n in ("all", "any"):
            xs = self.ev(a[0])
            xs = xs[self.ev(a[1]):len(xs) - self.ev(a[2])]
            rs = [bool(self.quant(a[3], a[4], x)) for x in xs]
            return all(rs) if n == "all" else any(rs)
        if n in ("path_is_absolute", "path_has_root"):
            return self.pth(a[0]).startswith("/")
        if n == "path_is_relative":
            return not self.pth(a[0]).startswith("/")
        if n in ("path_starts_with", "path_ends_with"):
            x = [comp_str(c) for c in components(self.pth(a[0]))]
            y = [comp_str(c) for c in components(self.pth(a[1]))]
            return x[:len(y)] == y if n == "path_starts_with" else (len(x) >= len(y) and x[len(x) - len(y):] == y)
        if n == "path_eq":
            return components(self.pth(a[0])) == components(self.pth(a[1]))
        if n == "eq":
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, tuple) and x and x[0] == "path":
                return x[1] == (y[1] if isinstance(y, tuple) else y)
        return super().papp(n, a)

    def quant(self, elem, parts, x):
        E = HttpEval(self.I, {**self.env, elem: x}, self.method, self.path, self.base, self.storage)
        E.st = self.st
        for f, va, nv, r in parts:
            try:
                if any(E.variant(e) != vi for e, vi in va if isinstance(vi, int)):
                    continue
                if any(E.variant(e) in ns for e, ns in nv if e not in dict(va)):
                    continue
                if any(bool(E.ev(c)) != v for c, v in f):
                    continue
            except Mismatch:
                continue
            return E.ev(r)
        raise Unknown(("quantifier", x))

    def ev(self, e):
        return super().ev(e)


def components(p):
    """std::path::Path::components on Unix"""
    C = lambda i, *f: ("enum", "std::path::Component", i, f)
    out = []
    if p.startswith("/"):
        out.append(C(1))
    parts = [x for x in p.split("/") if x != ""]
    for k, x in enumerate(parts):
        if x == ".":
            if k == 0 and not p.startswith("/"):
                out.append(C(2))
            continue
        out.append(C(3) if x == ".." else C(4, x))
    return out


def comp_str(c):
    return {1: "/", 2: ".", 3: ".."}.get(c[2]) or c[3][0]


def below(base, path):
    """is path lexically strictly below base (no parent step anywhere)?"""
    b, c = components(base), components(path)
    return len(c) > len(b) and c[:len(b)] == b and all(x[2] == 4 for x in c[len(b):])


def run_handler(P, cls=None, no_inline=(), **kw):
    """all partitions of one request: calling handle_request and awaiting it"""
    from semtab import Part
    from mir import Missing
    I = (cls or HttpInterp)(P, **kw)
    I.no_inline = set(I.no_inline) | set(no_inline)
    fs = [f for f in P.local_fns() if f.path.endswith("handle_request") and f.inst is None]
    if len(fs) != 1:
        raise Missing("http::handle_request: %d matches" % len(fs))
    fn = fs[0]
    st = State(I.cx)
    args = [I.sym(t, "arg", i) for i, t in enumerate(fn.locals[1:fn.argc + 1])]
    outs = []
    for s, c in I.exec_fn(fn, args, st):
        if s.dead:
            continue
        if c[0] == "agg" and c[1].startswith("coroutine:"):
            k = c[1].split(":", 1)[1]
            body = P.fns.get(k) or (P.bypath.get(k) or [None])[0]
            if body is None:
                raise Missing("coroutine body %s" % k)
            outs.extend((x, r) for x, r in I.enter(s, body, [c, ("S", body.locals[2], "resume")], 0, (fn.key, -1), ()) if not x.dead)
        else:
            raise Missing("handle_request does not return an async block")
    parts = [Part(s, r) for s, r in outs]
    for s, what, f, b, t in I.panics:
        if not s.dead:
            parts.append(Part(s, None, what, f.key))
    return I, parts
