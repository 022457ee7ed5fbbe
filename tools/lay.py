"""Byte layouts: where a function writes or reads which value, in terms of the fields of the program's structures."""
from apimodel import *
from segread import off


class Names:
    """symbols as 'struct[].field[]' with the list of their index expressions"""

    VIA = ("m_decorrelation_array", "m_offset_array")   # records told apart by the field that refers to them

    def __init__(self, P, args=(), named=None):
        self.P, self.args, self.named = P, list(args), named or {}
        self.memo = {}
        self.typed = {}         # an untyped allocation -> what it was stored as

    def adt(self, tid):
        n = self.P.tn(tid) if tid is not None and tid >= 0 else "?"
        return n.split("::")[-1]

    def name(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self.name1(e)
        return r

    def name1(self, e):
        """(template, index expressions) or (None, ())"""
        if e in self.named:
            return self.named[e], ()
        if e in self.args:
            return "#%d" % (self.args.index(e) + 1), ()
        if e[0] == "cast":
            return self.name(e[3])
        if e[0] != "S" or len(e) < 3:
            return None, ()
        if e[2] == "fld":
            v = e[3]
            n, ix = self.name(v)
            return ("%s.%s" % (n or self.adt(v[1]), e[4]), ix)
        if e[2] == "mem":
            t = self.P.types[e[1]] if e[1] is not None and e[1] >= 0 else {}
            b = strip_casts(e[3])
            if b[0] == "S" and b[2] == "fld" and b[4] in self.VIA:
                return "%s[]" % b[4], (e[4],)
            if t.get("k") == "adt" or "::" in self.adt(e[1]) or self.adt(e[1])[:4] == "opj_":
                return "%s[]" % self.adt(e[1]), (e[4],)
            n, ix = self.name(e[3])
            return (n and n + "[]", ix + (e[4],))
        if e[2] == "el":
            n, ix = self.name(e[3])
            return (n and n + "[]", ix + (e[4],))
        if e[2] == "rd":
            return ("@%d" % e[4], (e[3],)) if isinstance(e[4], int) else ("@", (e[3], e[4]))
        if e[2] == "len":
            n, ix = self.name(e[3])
            return (n and "len(%s)" % n, ix)
        if e[2] == "phi" and isinstance(e[4], tuple) and isinstance(e[4][0], tuple) and len(e[4][0]) == 2 and isinstance(e[4][0][0], tuple) and e[4][0][0][0] == "S":
            (base, i), path = e[4][0], e[4][1:]
            t = self.P.pointee(base[1])
            n = self.adt(t) + "[]"
            for j in path:
                fs = self.P.fields(t, 0) if isinstance(j, int) and t is not None else ()
                if not isinstance(j, int) or j >= len(fs):
                    return None, ()
                n, t = n + "." + fs[j][0], fs[j][1]
            return n, (i,)
        if e[2] == "ret":
            return "ret:" + str(e[3]).split("::")[-1], ()
        return None, ()

    def stored(self, v):
        if v[0] == "cast" and strip_casts(v)[0] == "S":
            t = v[2]
            if t is not None:
                self.typed.setdefault(strip_casts(v), t)

    def place(self, st, base, path):
        """template of a place reached through a pointer base"""
        t = None
        while True:
            x = base[2] if base[0] == "cast" else self.P.pointee(base[1]) if base[0] == "S" and base[1] is not None and base[1] >= 0 else None
            if t is None and x is not None and self.adt(x) != "c_void":
                t = x
            if base[0] != "cast":
                break
            base = base[3]
        if t is None:
            t = self.typed.get(base)
        if base in self.args and not path[1:] and self.P.types[t].get("k") != "adt":
            return "*#%d" % (self.args.index(base) + 1), ()
        if base[0] == "ptr":
            n, ix = self.place(st, base[1], base[2])
            # a pointer to a field, used as one to its first element
            if path and path[0] == ("i", K(0)):
                path = path[1:]
            for p in path:
                if p[0] != "f":
                    return None, ()
                n = n and "%s.%s" % (n, p[2])
            return n, ix
        n, ix = (self.adt(t) if t is not None else None), ()
        first = True
        for p in path:
            if p[0] == "i":
                n, ix = n and n + "[]", ix + (p[1],)
            elif p[0] == "f":
                if first and n:
                    n, ix = n + "[]", ix + (K(0),)
                n = n and "%s.%s" % (n, p[2])
            else:
                return None, ()
            first = False
        return n, ix


def leaves(N, e, out):
    """maximal symbols of a numeric expression -> out {symbol: name}; False when something cannot be read"""
    t = e[0]
    if t in ("k", "f", "str", "fn"):
        return True
    if t == "S" and len(e) > 2:
        out[e] = N.name(e)
        return True
    if t == "lin":
        return all([leaves(N, a, out) for a, _ in e[2]])
    if t == "wrap":
        return leaves(N, e[2], out)
    if t == "cast":
        return leaves(N, e[3], out)
    if t == "agg" and not e[3] and e[1] in N.P.adts and N.P.adts[e[1]].get("kind") == "enum":
        out[e] = ("=%d" % int(N.P.adts[e[1]]["v"][e[2]]["d"]), ())
        return True
    if t == "isnull":
        n = N.name(strip_casts(e[1]))
        out[e] = (n[0] and "null:" + n[0], n[1])
        return True
    if t == "disc":
        n = N.name(e[1])
        out[e] = (n[0], n[1])
        return True
    if t == "mul":
        return all([leaves(N, a, out) for a in e[1]])
    if t == "cmp":
        return leaves(N, e[2], out) and leaves(N, e[3], out)
    if t in ("div", "rem", "and", "or", "xor", "shr", "shl", "band", "not", "fop"):
        return all([leaves(N, a, out) for a in e[1:] if isinstance(a, tuple)])
    return False


class Unk(Exception):
    pass


def ev(e, env):
    t = e[0]
    if t == "k":
        return e[1]
    if e in env:
        v = env[e]
        return v() if callable(v) else v
    if t == "lin":
        return e[1] + sum(ev(a, env) * k for a, k in e[2])
    if t == "wrap":
        lo, hi = e[1]
        return (ev(e[2], env) - lo) % (hi - lo + 1) + lo
    if t == "cast":
        return ev(e[3], env)
    if t == "mul":
        r = 1
        for a in e[1]:
            r *= ev(a, env)
        return r
    if t in ("div", "rem"):
        a, b = ev(e[1], env), ev(e[2], env)
        if b == 0:
            raise Unk("zero")
        return fdiv(a, b) if t == "div" else a - b * fdiv(a, b)
    if t in ("and", "or", "xor", "shr", "shl"):
        a, b = ev(e[1], env), ev(e[2], env)
        return {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shr": lambda: a >> b, "shl": lambda: a << b}[t]()
    if t == "cmp":
        a, b = ev(e[2], env), ev(e[3], env)
        return int({"lt": a < b, "le": a <= b, "eq": a == b}[e[1]])
    if t == "not":
        return int(not ev(e[1], env))
    if t == "band":
        return int(bool(ev(e[1], env)) and bool(ev(e[2], env)))
    raise Unk(str(e)[:60])
