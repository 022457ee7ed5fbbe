"""Strings, iterators over strings and futures in the abstract domain.

Library operations on strings become uninterpreted terms ("app", name, args).
A partition's condition is a conjunction of atoms over such terms; `Eval`
gives each atom its library meaning on one representative of an input class,
which is how a partition is matched with the specification table.
"""
import math, re, struct
from absint import *
import absint

APPSTR = "app"


def app(tid, name, *args):
    return ("S", tid, "app", name) + args


def is_app(v, name=None):
    return isinstance(v, tuple) and len(v) > 3 and v[0] == "S" and v[2] == "app" and (name is None or v[3] == name)


def papp(name, *args):
    return ("pred", "app", name) + args


def ngen(path):
    """path without generic argument lists"""
    out, d, i = [], 0, 0
    while i < len(path):
        c = path[i]
        if c == "<" and i >= 2 and path[i - 2:i] == "::" and path[i + 1:i + 6] != "impl ":
            # turbofish
            d0 = 1
            j = i + 1
            while j < len(path) and d0:
                if path[j] == "<":
                    d0 += 1
                elif path[j] == ">" and path[j - 1] != "-":
                    d0 -= 1
                j += 1
            del out[-2:]
            i = j
            continue
        out.append(c)
        i += 1
    return "".join(out)


STR_METHODS = {
    "strip_prefix", "strip_suffix", "find", "rfind", "split_once", "rsplit_once",
    "len", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches",
    "trim_end_matches", "as_bytes", "split_at_checked", "get", "to_lowercase", "to_uppercase",
    "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "as_str",
    "trim_ascii", "matches_count",
}
STR_PREDS = {"starts_with", "ends_with", "contains", "is_empty", "eq_ignore_ascii_case", "is_char_boundary", "is_ascii"}
STR_ITERS = {"split", "rsplit", "splitn", "rsplitn", "split_terminator", "split_inclusive", "chars", "bytes", "lines",
             "char_indices", "split_whitespace", "matches", "rmatches", "match_indices"}
FLOAT_PREDS = {"is_nan", "is_finite", "is_infinite", "is_sign_negative", "is_sign_positive", "is_normal"}

STRTYPES = ("&str", "&mut str", "&std::string::String", "std::string::String", "str", "&&str",
            "std::borrow::Cow<'_, str>", "&std::borrow::Cow<'_, str>", "&&&str", "&std::boxed::Box<str>", "std::boxed::Box<str>")


class StrInterp(Interp):
    UNROLL = 8

    def __init__(self, prog, **kw):
        kw.setdefault("max_states", 4000)
        super().__init__(prog, **kw)
        self.tstr = prog.tybyname.get("&str")
        self.panics = []
        self.on_panic = self._panic
        self.unknown = set()
        self.futures = kw.get("futures", True)

    def _panic(self, I, st, what, fn, bb, t):
        self.panics.append((st, what, fn, bb, t))

    # --- terms
    def term(self, st, v, depth=0):
        """data behind a value: strings as terms, references followed"""
        if depth > 12 or v is None:
            return v
        if v[0] == "ptr":
            b = v[1]
            if b[0] == "cstr":
                raw = b[1].encode()
                off = v[2][0][1] if v[2] and v[2][0][0] == "i" else K(0)
                n = v[3]
                if is_k(off) and (n is None or is_k(n)):
                    e = len(raw) if n is None else off[1] + n[1]
                    return ("str", raw[off[1]:e].decode("utf8", "replace"))
                return ("S", self.tstr, "cstrpart", b, off, n)
            if b[0] == "cbytes":
                return ("lst", tuple(K(x) for x in b[1]))
            if b[0] == "cslice":
                return ("lst", tuple(self.term(st, x, depth + 1) for x in b[1]))
            if b[0] == "cref":
                return self.term(st, b[1], depth + 1)
            if b[0] == "S" and v[2] in ((), I0):
                # pointer to an unknown object: its content if tracked
                pt = self.ptee(b[1]) if b[1] is not None and b[1] >= 0 else None
                if pt is not None and self.p.types[pt]["k"] not in ("str", "slice"):
                    inner = self.rd(st, b, I0)
                    if inner is not None and not (inner[0] == "S" and inner[2] == "mem"):
                        return self.term(st, inner, depth + 1)
                return b
            if b[0] in ("L",) or b[0] == "obj":
                inner = self.rd(st, b, v[2])
                if inner is None or inner[0] == "undef":
                    return v
                return self.term(st, inner, depth + 1)
            return v
        if v[0] == "obj":
            inner = self.rd(st, v, I0)
            return v if inner is None else self.term(st, inner, depth + 1)
        if v[0] == "S":
            if is_app(v, "String"):
                return v[4]
            return v
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple(self.term(st, x, depth + 1) for x in v[3]))
        if v[0] == "arr" and v[2][0] == "consts" and not v[3]:
            return ("lst", tuple(self.term(st, x, depth + 1) for x in v[2][1]))
        if v[0] == "arr" and v[2][0] == "rep":
            n = self.p.types[v[1]].get("len") if v[1] is not None else None
            if n is not None and n <= 64:
                return ("lst", tuple(self.term(st, self.elem(st, v, K(i)), depth + 1) for i in range(n)))
        if v[0] == "arr":
            n = self.p.types[v[1]].get("len") if v[1] is not None else None
            if n is not None and n <= 64:
                return ("lst", tuple(self.term(st, self.elem(st, v, K(i)), depth + 1) for i in range(n)))
        return v

    def pat(self, st, v, t):
        if v[0] == "k":
            return ("chr", v[1])
        x = self.term(st, v)
        if x[0] == "agg" and x[1].startswith("closure:"):
            return ("pat?", x)
        return x

    def opttid(self, rt):
        return rt

    # --- dispatch
    def dispatch(self, st, path, key, args, rt, t, fn, bb, fr, depth, fpv=None, fnitem=None):
        r = self.str_model(st, path, key, args, rt, t, fn, bb, fr, depth)
        if r is not None:
            return r
        return super().dispatch(st, path, key, args, rt, t, fn, bb, fr, depth, fpv, fnitem)

    def argtn(self, fn, t, i):
        o = t["a"][i] if i < len(t["a"]) else None
        if o is None:
            return ""
        if o[0] in ("c", "m"):
            tid = self.place_tid(fn, o[1])
        elif o[0] == "k":
            tid = o[1]["t"]
        else:
            return ""
        return self.p.tn(tid) if tid is not None else ""

    def str_model(self, st, path, key, args, rt, t, fn, bb, fr, depth):
        np = ngen(path)
        last = np.rsplit("::", 1)[-1]
        one = lambda v: [(st, v)]
        tn0 = self.argtn(fn, t, 0) if t.get("a") is not None and len(t["a"]) == len(args) else ""
        if np in ("std::pin::Pin::new_unchecked", "std::pin::Pin::new") and len(args) == 1:
            return one(args[0])
        # ---------------- str
        if np.startswith("core::str::<impl str>::") or np.startswith("alloc::str::<impl str>::") \
                or np.startswith("std::str::<impl str>::"):
            if last == "parse":
                return self.m_parse(st, args, rt, t, fn, bb, fr, depth, key, path)
            if last in STR_METHODS:
                s = self.term(st, args[0])
                xs = [self.pat(st, a, t) for a in args[1:]]
                if last == "len" and s[0] == "str":
                    return one(K(len(s[1].encode())))
                if last in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen"):
                    return one(app(rt, "String", app(self.tstr, last, s, *xs)))
                return one(app(rt, last, s, *xs))
            if last in STR_PREDS:
                s = self.term(st, args[0])
                xs = [self.pat(st, a, t) for a in args[1:]]
                if s[0] == "str" and last == "is_empty":
                    return one(K(int(s[1] == "")))
                return one(papp(last, s, *xs))
            if last in STR_ITERS:
                s = self.term(st, args[0])
                xs = [self.pat(st, a, t) for a in args[1:]]
                return one(("agg", "@iter", 0, (app(None, last, s, *xs), K(0), K(0))))
            if last in ("to_owned", "into_string", "to_string"):
                return one(app(rt, "String", self.term(st, args[0])))
            if last == "split_at":
                s = self.term(st, args[0])
                return self.guarded(st, papp("slice_ok", s, args[1], K(-1)), app(rt, "split_at", s, args[1]), "str split_at", fn, bb, t)
            if last in ("as_ptr", "as_bytes_mut", "get_unchecked"):
                return None
        if last in ("eq", "ne") and len(args) == 2 and tn0.replace("'_ ", "") in STRTYPES and \
                ("str" in np or "String" in np or "Cow" in np):
            a, b = self.term(st, args[0]), self.term(st, args[1])
            if a[0] == "str" and b[0] == "str":
                c = K(int(a[1] == b[1]))
            elif a == b:
                c = TRUE
            else:
                if b[0] != "str" and rank(a) > rank(b) or a[0] == "str":
                    a, b = b, a
                c = papp("eq", a, b)
            return one(c if last == "eq" else mk_not(c))
        # slices of strings
        if last in ("index", "index_mut") and ("for str" in np or "String" in np):
            s = self.term(st, args[0])
            lo, hi = self.range_of(st, args[1])
            if lo is None:
                return None
            if lo == K(0) and hi == K(-1):
                return one(app(rt, "slice", s, lo, hi))
            return self.guarded(st, papp("slice_ok", s, lo, hi), app(rt, "slice", s, lo, hi), "str slice", fn, bb, t)
        # ---------------- String
        if rt is not None and self.p.tn(rt) == "std::string::String":
            if last in ("from", "into", "to_string", "to_owned", "clone", "into_owned", "into_string") and args:
                x = self.term(st, args[0])
                if self.is_strlike(x, tn0):
                    return one(app(rt, "String", x))
        if last in ("deref", "as_str", "as_ref", "borrow", "deref_mut", "as_mut_str") and args and rt is not None \
                and self.p.tn(rt) in ("&str", "&mut str") and ("String" in np or "Cow" in np or "str" in np or "AsRef" in np or "Deref" in np or "Borrow" in np):
            if args[0][0] == "ptr" or args[0][0] == "S":
                x = self.term(st, args[0])
                if self.is_strlike(x, tn0):
                    if x[0] == "str":
                        return one(("ptr", ("cstr", x[1]), I0, K(len(x[1].encode()))))
                    if x[0] == "S" and x[1] == self.tstr:
                        return one(x)
                    return one(app(rt, "strof", x))
        # ---------------- urlencoding
        if np == "urlencoding::decode":
            return one(app(rt, "urldecode", self.term(st, args[0])))
        # ---------------- floats
        if "<impl f32>::" in np or "<impl f64>::" in np:
            if last in FLOAT_PREDS:
                return one(papp("f_" + last, args[0]))
            if last in ("abs", "max", "min", "clamp", "floor", "ceil", "round", "trunc", "rem_euclid"):
                return one(app(rt, "f_" + last, *args))
        # ---------------- iterators
        r = self.iter_model(st, np, last, args, rt, t, fn, bb, fr, depth, key, tn0)
        if r is not None:
            return r
        # ---------------- misc
        if last == "new" and np.startswith("std::num::NonZero") or np.endswith("NonZero::new"):
            x = args[0]
            out = []
            for val in (True, False):
                s = st.copy()
                c = mk_cmp("eq", x, K(0))
                if not self.assume(s, c, val):
                    continue
                a = self.p.types[rt]["d"]
                out.append((s, ("agg", a, 0, ()) if val else ("agg", a, 1, (x,))))
            return out
        if np.endswith("fmt::Arguments::new") or "fmt::rt::Argument" in np or np.endswith("::format"):
            x = tuple(self.term(st, a) for a in args)
            return one(app(rt, "fmt", *x))
        if last == "to_string" and len(args) == 1:
            return one(app(rt, "String", app(self.tstr, "display", self.term(st, args[0]))))
        if np in ("std::mem::drop", "core::mem::drop") or last == "cold_path":
            return one(("agg", "tuple", 0, ()))
        return self.future_model(st, np, last, args, rt, t, fn, bb, fr, depth, key, tn0)

    def is_strlike(self, x, tn):
        if x[0] == "str":
            return True
        return "str" in tn or "String" in tn

    def range_of(self, st, v):
        x = v
        if x[0] == "ptr":
            x = self.term(st, x)
        if x[0] == "agg":
            n = x[1].split("::")[-1]
            if n == "RangeFrom":
                return x[3][0], K(-1)
            if n == "RangeTo":
                return K(0), x[3][0]
            if n == "Range":
                return x[3][0], x[3][1]
            if n == "RangeFull":
                return K(0), K(-1)
            if n == "RangeInclusive":
                return x[3][0], add(x[3][1], K(1))
            if n == "RangeToInclusive":
                return K(0), add(x[3][0], K(1))
        if x[0] == "S" and x[1] is not None and x[1] >= 0 and "RangeFull" in self.p.tn(x[1]):
            return K(0), K(-1)
        return None, None

    # --- panicking operations
    def guarded(self, st, ok, val, what, fn, bb, t):
        if self.prove(st, ok):
            return [(st, val)]
        out = []
        b = st.copy()
        if self.assume(b, ok, False) and self.on_panic and not self.record:
            self.on_panic(self, b, what, fn, bb, t)
        if self.assume(st, ok, True):
            out.append((st, val))
        return out

    def prove(self, st, ok):
        """is the string slice known to be in range and on a boundary?"""
        if st.decide(ok) is True:
            return True
        _, _, name, s, lo, hi = ok
        if not is_k(lo):
            lo_ok = self._boundary(st, s, lo)
        else:
            lo_ok = lo[1] == 0 or self._prefix_len(st, s, lo[1])
        if not lo_ok:
            return False
        if hi == K(-1):
            return True
        if lo == K(0) and self._boundary(st, s, hi):
            return True
        return False

    def _boundary(self, st, s, off):
        # find()/rfind() results, and such a result plus the pattern's length
        c, m = lin_of(off)
        if len(m) != 1:
            return False
        (a, k), = m.items()
        if k != 1:
            return False
        if len(a) > 5 and a[0] == "S" and a[2] == "vf":
            src = a[3]
            if is_app(src) and src[3] in ("find", "rfind") and src[4] == s:
                if c == 0:
                    return True
                return patlen(src[5]) == c
        return False

    def _prefix_len(self, st, s, n):
        for c, v in st.facts.items():
            if v and c[0] == "pred" and c[1] == "app" and c[2] == "starts_with" and c[3] == s and patlen(c[4]) == n:
                return True
            if v and c[0] == "pred" and c[1] == "app" and c[2] == "eq" and c[3] == s and c[4][0] == "str":
                return n <= len(c[4][1].encode()) and _isb(c[4][1], n)
        return False

    def m_parse(self, st, args, rt, t, fn, bb, fr, depth, key, path):
        """s.parse::<F>()"""
        rn = self.p.tn(rt)
        s = self.term(st, args[0])
        m = re.match(r"std::result::Result<([a-z0-9]+), std::num::Parse(Int|Float)Error>", rn)
        if m:
            return [(st, app(rt, "parse_" + m.group(1), s))]
        m = re.match(r"std::result::Result<(bool|char), ", rn)
        if m:
            return [(st, app(rt, "parse_" + m.group(1), s))]
        # local FromStr: inline through parse
        return None

    # --- iterators
    def iter_model(self, st, np, last, args, rt, t, fn, bb, fr, depth, key, tn0):
        if not args:
            return None
        if "from_str" == last and ("core::num" in np) and rt is not None:
            return self.m_parse(st, args, rt, t, fn, bb, fr, depth, key, np)
        it = args[0]
        ptr = None
        if it[0] == "ptr":
            ptr = it
            it = self.rd(st, it[1], it[2]) if it[1][0] == "L" or it[1][0] == "obj" or it[1][0] == "S" else None
        if it is None or it[0] != "agg" or it[1] != "@iter":
            return None
        lst, i, nb = it[3]
        one = lambda v: [(st, v)]
        if last in ("into_iter", "by_ref", "iter"):
            return one(args[0])
        if last == "next" and ptr is not None:
            return self.iter_next(st, ptr, it, rt, last)
        if last == "next_back" and ptr is not None:
            return self.iter_next(st, ptr, it, rt, last)
        if last == "nth" and ptr is not None and is_k(args[1]):
            outs = [(st, None)]
            for _ in range(args[1][1] + 1):
                nxt = []
                for s, v in outs:
                    if v is not None and v[0] == "agg" and v[2] == 0:
                        nxt.append((s, v))
                        continue
                    cur = self.rd(s, ptr[1], ptr[2])
                    nxt.extend(self.iter_next(s, ptr, cur, rt, "next"))
                outs = nxt
            return outs
        if last == "count":
            return one(app(rt, "list_len", lst, i, nb))
        if last == "last":
            return one(app(rt, "list_last", lst, i, nb))
        if last == "collect":
            return one(app(rt, "collect", lst, i, nb))
        if last in ("skip",) and is_k(args[1]) and is_k(i):
            return one(("agg", "@iter", 0, (lst, add(i, args[1]), nb)))
        if last == "rev":
            return one(("agg", "@iter", 0, (app(None, "list_rev", lst, i, nb), K(0), K(0))))
        if last in ("peekable", "fuse"):
            return one(it)
        if last == "peek" and ptr is not None:
            s = st.copy()
            return None
        return None

    def list_has(self, st, lst, i, nb):
        """states in which the list has / has not an element i (with nb taken from its end)"""
        has = papp("has", lst, i, nb)
        out = []
        dec = st.decide(has)
        if dec is None and is_k(i) and is_k(nb):
            if lst[3] in ("split", "rsplit", "splitn", "rsplitn") and i[1] + nb[1] == 0 and not (len(lst) > 5 and lst[3].endswith("n") and lst[5] in (("chr", 0), K(0))):
                dec = True
            else:
                for (c, v) in st.facts.items():
                    if c[0] == "pred" and c[1] == "app" and c[2] == "has" and c[3] == lst and is_k(c[4]) and is_k(c[5]):
                        n = c[4][1] + c[5][1]
                        if v and n >= i[1] + nb[1]:
                            dec = True
                        if not v and n <= i[1] + nb[1]:
                            dec = False
        if dec is not False:
            s = st.copy() if dec is None else st
            if dec is True or self.assume(s, has, True):
                out.append((s, True))
        if dec is not True:
            s = st.copy() if dec is None else st
            if dec is False or self.assume(s, has, False):
                out.append((s, False))
        return out

    def iter_next(self, st, ptr, it, rt, last):
        lst, i, nb = it[3]
        d = self.p.types[rt]["d"]
        out = []
        for s, yes in self.list_has(st, lst, i, nb):
            if yes:
                et = self.p.fields(rt, 1)
                tid = et[0][1] if et else None
                item = app(tid, "item" if last == "next" else "item_back", lst, i if last == "next" else nb)
                nv = (lst, add(i, K(1)), nb) if last == "next" else (lst, i, add(nb, K(1)))
                self.wr(s, ptr[1], ptr[2], ("agg", "@iter", 0, nv))
                out.append((s, ("agg", d, 1, (item,))))
            else:
                out.append((s, ("agg", d, 0, ())))
        return out

    # --- futures: awaiting runs the future to completion
    def future_model(self, st, np, last, args, rt, t, fn, bb, fr, depth, key, tn0):
        if not self.futures:
            return None
        if last == "into_future" and len(args) == 1:
            return [(st, args[0])]
        if last == "poll" and "Future" in np or (last == "poll" and "future" in np):
            d = self.p.types[rt].get("d", "") if rt is not None else ""
            if not d.endswith("Poll"):
                return None
            p = args[0]
            fut = self.rd(st, p[1], p[2]) if p[0] == "ptr" else p
            if fut is None:
                return None
            pay = self.p.fields(rt, 0)
            ptid = pay[0][1] if pay else None
            if fut[0] == "agg" and (fut[1].startswith("coroutine:") or fut[1].startswith("coroclosure:")):
                body = self.p.fns.get(fut[1].split(":", 1)[1]) or (self.p.bypath.get(fut[1].split(":", 1)[1]) or [None])[0]
                if body is None:
                    return None
                outs = self.enter(st, body, [fut, ("S", body.locals[2] if body.argc > 1 else None, "resume")], depth, (fn.key, bb), fr)
                return [(s, ("agg", d, 0, (v,))) for s, v in outs]
            f = self.term(st, p) if p[0] == "ptr" else fut
            st.ev("await", f)
            return [(st, ("agg", d, 0, (app(ptid, "await", f),)))]
        return None

    # --- bounded loops are followed exactly before a fixpoint is tried
    def loop(self, fn, fr, depth, h, st, rets):
        cfg = fn.cfg()
        body = cfg.loops[h]
        save = (self.steps,)
        st0 = st.copy()
        cur = [st.copy()]
        outs, lrets = [], []
        ok = True
        pan0 = len(self.panics)
        try:
            for n in range(self.UNROLL + 1):
                backs, exits = self.region(fn, fr, depth, body, h, cur, h, lrets)
                for tgt, ss in exits.items():
                    outs.extend((tgt, s) for s in ss)
                cur = [b for b in backs if not b.dead]
                if not cur:
                    break
                if len(cur) > 400:
                    ok = False
                    break
            else:
                ok = False
        except Budget:
            raise
        if ok:
            rets.extend(lrets)
            return outs
        del self.panics[pan0:]
        return super().loop(fn, fr, depth, h, st0, rets)


def patlen(p):
    if p[0] == "chr":
        return len(chr(p[1]).encode("utf8", "replace"))
    if p[0] == "str":
        return len(p[1].encode())
    return None


def _isb(s, n):
    b = s.encode()
    return n == len(b) or (n < len(b) and (b[n] & 0xC0) != 0x80)


# ---------------------------------------------------------------- meaning of the terms
class Unknown(Exception):
    pass


class Mismatch(Exception):
    """the partition inspects a variant this input does not have"""


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


FLT = re.compile(r"^[+-]?(?:(?P<inf>inf|infinity)|(?P<nan>nan)|(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:e[+-]?[0-9]+)?)$", re.I)


def parse_float(s, single=True):
    m = FLT.match(s)
    if not m or not s.isascii():
        return None
    v = float(s)
    return f32(v) if single else v


def parse_int(s, lo, hi):
    if not re.match(r"^[+-]?[0-9]+$", s) or not s.isascii():
        return None
    if s[0] == "-" and lo == 0:
        return None
    v = int(s)
    return v if lo <= v <= hi else None


def parse_as(ty, s):
    if ty in ("f32", "f64"):
        return parse_float(s, ty == "f32")
    m = re.match(r"([ui])(8|16|32|64|128|size)$", ty)
    if m:
        b = 64 if m.group(2) == "size" else int(m.group(2))
        return parse_int(s, 0 if m.group(1) == "u" else -(1 << (b - 1)), (1 << b) - 1 if m.group(1) == "u" else (1 << (b - 1)) - 1)
    raise Unknown(("parse", ty))


def urldecode(s):
    """percent-decoding of the urlencoding crate: malformed escapes stay"""
    b = s.encode()
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] == 0x25 and i + 2 < len(b) + 0 and i + 2 <= len(b) - 1 and re.match(rb"[0-9a-fA-F]{2}", b[i + 1:i + 3]):
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    try:
        return out.decode("utf8")
    except UnicodeDecodeError:
        return None


class Eval:
    def __init__(self, interp, env):
        self.I = interp
        self.p = interp.p
        self.env = env
        self.memo = {}

    def some(self, v):
        return ("enum", "option", 1, (v,)) if v is not None else ("enum", "option", 0, ())

    def result(self, v):
        return ("enum", "result", 0, (v,)) if v is not None else ("enum", "result", 1, (("err",),))

    def ev(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.ev1(e)
            self.memo[e] = r
        return r

    def ev1(self, e):
        if e in self.env:
            return self.env[e]
        t = e[0]
        if t == "k":
            return e[1]
        if t == "str":
            return e[1]
        if t == "chr":
            return chr(e[1])
        if t == "lst":
            return [self.ev(x) for x in e[1]]
        if t == "f":
            s = e[1]
            return float(s)
        if t == "lin":
            return e[1] + sum(self.ev(a) * k for a, k in e[2])
        if t == "wrap":
            v = self.ev(e[2])
            lo, hi = e[1]
            return (v - lo) % (hi - lo + 1) + lo
        if t == "mul":
            r = 1
            for a in e[1]:
                r *= self.ev(a)
            return r
        if t == "div":
            return fdiv(self.ev(e[1]), self.ev(e[2]))
        if t == "rem":
            a, b = self.ev(e[1]), self.ev(e[2])
            return a - b * fdiv(a, b)
        if t == "and":
            return self.ev(e[1]) & self.ev(e[2])
        if t == "cmp":
            a, b = self.ev(e[2]), self.ev(e[3])
            return {"lt": lambda: a < b, "le": lambda: a <= b, "eq": lambda: a == b}[e[1]]()
        if t == "fcmp":
            a, b = self.ev(e[2]), self.ev(e[3])
            return {"lt": lambda: a < b, "le": lambda: a <= b, "eq": lambda: a == b}[e[1]]()
        if t == "not":
            return not self.ev(e[1])
        if t == "band":
            return bool(self.ev(e[1])) and bool(self.ev(e[2]))
        if t == "bor":
            return bool(self.ev(e[1])) or bool(self.ev(e[2]))
        if t == "bxor":
            return bool(self.ev(e[1])) != bool(self.ev(e[2]))
        if t == "disc":
            v = self.ev(e[1])
            if isinstance(v, tuple) and len(v) == 4 and v[0] == "enum":
                a = self.p.adt(e[2])
                return a["v"][v[2]]["d"] if a else v[2]
            raise Unknown(e)
        if t == "ite":
            return self.ev(e[2]) if self.ev(e[1]) else self.ev(e[3])
        if t == "pred" and e[1] == "app":
            return self.papp(e[2], e[3:])
        if t == "ptr":
            x = self.I.term(self.st, e)
            if x != e:
                return self.ev(x)
            raise Unknown(e)
        if t == "agg":
            if self.I.p.adts.get(e[1]) or e[1] in ("tuple",):
                return ("enum", e[1], e[2], tuple(self.ev(x) for x in e[3]))
            raise Unknown(e)
        if t == "S":
            if is_app(e):
                return self.app(e[3], e[4:], e[1])
            k = e[2]
            if k == "vf":
                v = self.ev(e[3])
                if v[0] != "enum":
                    raise Unknown(("variant", e))
                if v[2] != e[4]:
                    raise Mismatch()
                return v[3][e[5]]
            if k == "fld":
                v = self.ev(e[3])
                if isinstance(v, tuple) and v and v[0] == "enum":
                    fs = self.p.fields(e[3][1])
                    for i, (n, _) in enumerate(fs):
                        if n == e[4]:
                            return v[3][i]
                raise Unknown(e)
            if k == "len":
                v = self.ev(e[3])
                return len(v.encode()) if isinstance(v, str) else len(v)
            if k == "mem":
                v = self.ev(e[3])
                i = self.ev(e[4])
                if isinstance(v, list):
                    return v[i]
                if i == 0:
                    return v
                raise Unknown(e)
        raise Unknown(e)

    def papp(self, n, a):
        if n == "slice_ok":
            b = self.ev(a[0]).encode()
            lo, hi = self.ev(a[1]), self.ev(a[2])
            hi = len(b) if hi == -1 else hi
            isb = lambda i: i == len(b) or (0 <= i < len(b) and (b[i] & 0xC0) != 0x80)
            return 0 <= lo <= hi <= len(b) and isb(lo) and isb(hi)
        if n == "has":
            return self.ev(a[1]) + self.ev(a[2]) < len(self.ev(a[0]))
        if n.startswith("f_"):
            x = self.ev(a[0])
            return {"f_is_nan": lambda: math.isnan(x), "f_is_finite": lambda: math.isfinite(x),
                    "f_is_infinite": lambda: math.isinf(x),
                    "f_is_sign_negative": lambda: math.copysign(1, x) < 0,
                    "f_is_sign_positive": lambda: math.copysign(1, x) > 0,
                    "f_is_normal": lambda: math.isfinite(x) and abs(x) >= 2 ** -126}[n]()
        xs = [self.ev(x) for x in a]
        s = xs[0]
        if isinstance(s, list) and n not in ("is_empty",):
            raise Unknown(n)
        if n == "eq":
            return s == xs[1]
        if n == "is_empty":
            return len(s) == 0
        if n in ("starts_with", "ends_with", "contains"):
            ps = xs[1] if isinstance(xs[1], list) else [xs[1]]
            ps = [p if isinstance(p, str) else chr(p) for p in ps]
            return any({"starts_with": s.startswith, "ends_with": s.endswith, "contains": lambda p: p in s}[n](p) for p in ps)
        if n == "eq_ignore_ascii_case":
            lo = lambda z: "".join(c.lower() if c.isascii() else c for c in z)
            return lo(s) == lo(xs[1])
        if n == "is_ascii":
            return s.isascii()
        if n == "is_char_boundary":
            return _isb(s, xs[1])
        raise Unknown(("pred", n))

    def app(self, n, a, tid):
        if n.startswith("parse_"):
            v = parse_as(n[6:], self.ev(a[0]))
            return self.result(v)
        xs = [self.ev(x) for x in a]
        s = xs[0] if xs else None
        if n in ("String", "strof", "as_str"):
            return s
        if n == "slice":
            b = s.encode()
            hi = len(b) if xs[2] == -1 else xs[2]
            try:
                return b[xs[1]:hi].decode()
            except UnicodeDecodeError:
                raise Mismatch()
        if n in ("strip_prefix", "strip_suffix"):
            ps = xs[1] if isinstance(xs[1], list) else [xs[1]]
            for p in ps:
                if n == "strip_prefix" and s.startswith(p):
                    return self.some(s[len(p):])
                if n == "strip_suffix" and s.endswith(p):
                    return self.some(s[:len(s) - len(p)])
            return self.some(None)
        if n in ("find", "rfind"):
            i = s.find(xs[1]) if n == "find" else s.rfind(xs[1])
            return self.some(None if i < 0 else len(s[:i].encode()))
        if n in ("split_once", "rsplit_once"):
            if xs[1] not in s:
                return self.some(None)
            p = s.split(xs[1], 1) if n == "split_once" else s.rsplit(xs[1], 1)
            return self.some(("enum", "tuple", 0, (p[0], p[1])))
        if n == "split_at":
            b = s.encode()
            return ("enum", "tuple", 0, (b[:xs[1]].decode(), b[xs[1]:].decode()))
        if n == "get":
            raise Unknown(n)
        if n == "len":
            return len(s.encode()) if isinstance(s, str) else len(s)
        if n in ("trim", "trim_start", "trim_end"):
            ws = " \t\n\r\x0b\x0c\x85\xa0"
            return {"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip}[n](ws)
        if n in ("trim_matches", "trim_start_matches", "trim_end_matches"):
            p = xs[1]
            while p and n != "trim_end_matches" and s.startswith(p):
                s = s[len(p):]
            while p and n != "trim_start_matches" and s.endswith(p):
                s = s[:len(s) - len(p)]
            return s
        if n in ("to_lowercase", "to_ascii_lowercase"):
            return s.lower() if n == "to_lowercase" else "".join(c.lower() if c.isascii() else c for c in s)
        if n in ("to_uppercase", "to_ascii_uppercase"):
            return s.upper() if n == "to_uppercase" else "".join(c.upper() if c.isascii() else c for c in s)
        if n == "replace":
            return s.replace(xs[1], xs[2])
        if n == "split":
            if isinstance(xs[1], list):
                return re.split("|".join(re.escape(p) for p in xs[1]), s)
            return s.split(xs[1])
        if n == "rsplit":
            return s.split(xs[1])[::-1]
        if n == "splitn":
            k = self._num(a[1])
            return s.split(xs[2], k - 1) if k > 0 else []
        if n == "rsplitn":
            k = self._num(a[1])
            return s.rsplit(xs[2], k - 1)[::-1] if k > 0 else []
        if n == "split_terminator":
            r = s.split(xs[1])
            if r and r[-1] == "":
                r.pop()
            return r
        if n == "lines":
            return s.splitlines()
        if n == "chars":
            return [ord(c) for c in s]
        if n in ("bytes", "as_bytes"):
            return list(s.encode())
        if n == "split_whitespace":
            return s.split()
        if n == "item":
            return s[xs[1]]
        if n == "item_back":
            return s[-1 - xs[1]]
        if n == "list_rev":
            return s[xs[1]:len(s) - xs[2]][::-1]
        if n == "collect":
            return s[xs[1]:len(s) - xs[2]]
        if n == "list_len":
            return max(0, len(s) - xs[1] - xs[2])
        if n == "list_last":
            r = s[xs[1]:len(s) - xs[2]]
            return self.some(r[-1] if r else None)
        if n == "urldecode":
            return self.result(urldecode(s))
        if n.startswith("f_"):
            if n == "f_abs":
                return abs(s)
            if n == "f_max":
                return xs[1] if math.isnan(s) else s if math.isnan(xs[1]) else max(s, xs[1])
            if n == "f_min":
                return xs[1] if math.isnan(s) else s if math.isnan(xs[1]) else min(s, xs[1])
            if n == "f_clamp":
                return s if math.isnan(s) else min(max(s, xs[1]), xs[2])
            if n in ("f_floor", "f_ceil", "f_trunc"):
                return s if not math.isfinite(s) else float({"f_floor": math.floor, "f_ceil": math.ceil, "f_trunc": math.trunc}[n](s))
        raise Unknown(("app", n))

    def _num(self, x):
        return x[1] if x[0] in ("k", "chr") else self.ev(x)

    # --- conditions of a partition
    def variant(self, e):
        v = self.ev(e)
        if isinstance(v, tuple) and v and v[0] == "enum":
            return v[2]
        raise Unknown(("variant of", e))

    def holds(self, st):
        self.st = st
        try:
            for e, vi in st.var.items():
                if isinstance(vi, int) and self.variant(e) != vi:
                    return False
            for k, ns in st.notes.items():
                if isinstance(k, tuple) and k[0] == "notvar":
                    if k[1] not in st.var and self.variant(k[1]) in ns:
                        return False
            for c, v in st.facts.items():
                if bool(self.ev(c)) != v:
                    return False
        except Mismatch:
            return False
        except (IndexError, UnicodeDecodeError):
            return False
        except (AttributeError, TypeError) as x:
            raise Unknown(("value of an unexpected kind", str(x)))
        return True
