"""C27: packet header bits are packed and unpacked with the same stuffing rule."""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
from apimodel import *
from mir import Prog, callee, calls
from lay import ev, Unk

LEVEL = "other"
TECHNIQUE = "abstract interpretation of the bit reader and writer into guarded transition relations, compared with the stuffing rule over their whole finite state space; typestate analysis of the users"
NOTE = "transition relations read from the MIR of bio.rs are paired with the reference rule in every state they can get into"
EXPLANATION = """The bit writer and reader are turned into transition relations by abstract interpretation of the current MIR: every path of
opj_bio_putbit, opj_bio_flush, opj_bio_read (one bit) and opj_bio_inalign becomes a guard, the new value of every number the record holds,
the bytes stored or fetched and how far the position moves. Starting from what opj_bio_init_enc / opj_bio_init_dec leave, the pairs of
(state of the code, state of the rule) are closed under both bit values (writer) and all 256 bytes (reader); in every pair the code has to
store the byte the rule stores, or deliver the bit the rule delivers, and move as far. The rule: most significant bit first, a byte after
0xFF carries seven bits, an unfinished byte is completed with zeros, and a final 0xFF is followed by a stuffed byte. Without room nothing is
stored and opj_bio_flush says so. Wider reads and writes have to be the same bits most significant first for every width 1 to 32; the code
words for the number of passes (1 to 164) and for length increments have to be those of the standard in both directions. In the packet
header functions a count of bytes is only taken after the bits were flushed (successfully) or aligned, and single bits written are 0 or 1."""
ASSUMPTIONS = ["pointers into the packet header buffer are ordered like their addresses", "calls of the bit functions are direct (no function pointers to them are taken)"]


def sname(f):
    return f.path.split("::")[-1]


# ------------------------------------------------------------- vector evaluation
def mask_of(P, tid):
    r = P.irange(tid)
    return r


def nev(P, e, env):
    t = e[0]
    if t == "k":
        return np.int64(e[1])
    if e in env:
        return env[e]
    if t == "lin":
        r = np.int64(e[1])
        for a, k in e[2]:
            r = r + nev(P, a, env) * np.int64(k)
        return r
    if t == "wrap":
        lo, hi = e[1]
        return (nev(P, e[2], env) - lo) % (hi - lo + 1) + lo
    if t == "cast":
        return nev(P, e[3], env)
    if t == "addr":
        return addr(P, e[1], env)
    if t == "mul":
        r = np.int64(1)
        for a in e[1]:
            r = r * nev(P, a, env)
        return r
    if t in ("div", "rem"):
        a, b = nev(P, e[1], env), nev(P, e[2], env)
        if np.any(b == 0):
            raise Unk("zero")
        q = np.sign(a) * np.sign(b) * (np.abs(a) // np.abs(b))
        return q if t == "div" else a - b * q
    if t in ("and", "or", "xor"):
        a, b = nev(P, e[1], env), nev(P, e[2], env)
        return a & b if t == "and" else a | b if t == "or" else a ^ b
    if t in ("shr", "shl"):
        a, b = nev(P, e[1], env), nev(P, e[2], env)
        if np.any(b < 0) or np.any(b > 40):
            raise Unk("shift")
        return a >> b if t == "shr" else a << b
    if t == "S" and len(e) == 5 and e[2] in ("shl", "shr"):
        lo, hi = P.irange(e[1])
        a, b = nev(P, e[3], env), nev(P, e[4], env)
        if np.any(b < 0) or np.any(b > 31):
            raise Unk("shift")
        x = a << b if e[2] == "shl" else a >> b
        return (x - lo) % (hi - lo + 1) + lo
    if t == "S" and len(e) == 5 and e[2] in ("and", "or", "xor"):
        return nev(P, (e[2], e[3], e[4]), env)
    if t == "cmp":
        a, b = e[2], e[3]
        a, b = (addr(P, x, env) if x[0] == "ptr" or x in env.get("ptrs", ()) else nev(P, x, env) for x in (a, b))
        return (a < b if e[1] == "lt" else a <= b if e[1] == "le" else a == b) * np.int64(1)
    if t == "not":
        return np.int64(1) - nev(P, e[1], env)
    if t == "band":
        return nev(P, e[1], env) & nev(P, e[2], env)
    if t == "isnull":
        return np.int64(0)
    if t == "pred" and e[1] in ("ptrGe", "ptrGt", "ptrLe", "ptrLt"):
        a, b = addr(P, e[2], env), addr(P, e[3], env)
        return {"ptrGe": a >= b, "ptrGt": a > b, "ptrLe": a <= b, "ptrLt": a < b}[e[1]] * np.int64(1)
    if t == "pred" and e[1] == "ptreq":
        return (addr(P, e[2], env) == addr(P, e[3], env)) * np.int64(1)
    if t == "S" and len(e) == 4 and e[2] == "pow2":
        b = nev(P, e[3], env)
        if np.any(b < 0) or np.any(b > 31):
            raise Unk("shift")
        return np.int64(1) << b
    raise Unk(str(e)[:80])


def addr(P, v, env):
    if v in env:
        return env[v]
    if v[0] == "ptr":
        a = addr(P, v[1], env)
        for p in v[2]:
            if p[0] != "i":
                raise Unk("address")
            a = a + nev(P, p[1], env)
        return a
    if v[0] == "cast":
        return addr(P, v[3], env)
    raise Unk("address")


# ------------------------------------------------------------- transition relations
class Bio:
    NUM = 1 << 20

    def __init__(self, P):
        self.P = P
        f = P.find("bio::opj_bio_putbit")
        self.tid = P.pointee(f.locals[1])
        self.fields = P.fields(self.tid, 0)
        self.nums = [n for n, t in self.fields if P.types[t]["k"] not in ("ptr", "ref")]
        self.ptrs = [n for n, t in self.fields if P.types[t]["k"] in ("ptr", "ref")]

    def extract(self, name, extra=(), unroll=0):
        """every path of a function: (guards, new numbers, moves of the pointers, bytes stored, result)"""
        P = self.P
        f = P.find("bio::" + name)
        A = Api(P, lambda p: False, havoc=False, max_states=400, **(dict(unroll=unroll, unroll_width=64) if unroll else {}))
        I = A.interp()
        oc = I.on_call

        def on_call(I, st, path, key, a, rt, t, fn, bb):
            if (path or "").split("::")[-1] in ("offset_from", "ptr_offset_from", "ptr_offset_from_unsigned", "offset_from_unsigned", "byte_offset_from"):
                return [(st, sub(("addr", I.resolve(st, a[0])), ("addr", I.resolve(st, a[1]))))]
            return oc(I, st, path, key, a, rt, t, fn, bb)
        I.on_call = on_call
        me = I.sym(f.locals[1], "arg", 1)
        args = [me] + [x if x is not None else I.sym(f.locals[i + 2], "arg", i + 2) for i, x in enumerate(extra)]
        st = State(I.cx)
        outs = []
        for s, v in I.exec_fn(f, args, st):
            if s.dead or not s.feasible():
                continue
            g = [(c, tr) for c, tr in s.facts.items()] + [(mk_cmp("lt", c, K(0)), False) for c in s.cons]
            rec = rdp(I, s, me)
            new = {n: I.field(s, rec, i, n) for i, (n, t) in enumerate(self.fields)}
            mem0 = ("S", self.tid, "mem", me, K(0))
            old = {n: ("S", t, "fld", mem0, n) for n, t in self.fields}
            stores = []
            for b, m in s.mem.items():
                if b[0] == "L" or b[0] == "objs" or b[0] == me:
                    continue
                stores.append((b[0], b[1], I.resolve(s, m[1])))
            outs.append((g, new, old, stores, I.resolve(s, v)))
        return f, args, outs


def same_ptr(v, base):
    """offset of a pointer from a base, or None"""
    if v == base:
        return K(0)
    if v[0] == "cast":
        return same_ptr(v[3], base)
    if v[0] == "ptr" and v[1] == base and all(p[0] == "i" for p in v[2]):
        r = K(0)
        for p in v[2]:
            r = add(r, p[1])
        return r
    return None


class Auto:
    """one operation, evaluated on many states at once"""

    def __init__(self, B, f, args, outs):
        self.B, self.P, self.f, self.args, self.outs = B, B.P, f, args, outs

    def step(self, cols, pos, end, arg=None, byte=None):
        """-> list of (rows, new columns, moved, stored bytes [columns], result)"""
        P, B = self.P, self.B
        n = len(next(iter(cols.values())))
        res = []
        covered = np.zeros(n, dtype=np.int64)
        for g, new, old, stores, ret in self.outs:
            env = {old[k]: cols[k] for k in cols}
            ps = [old[p] for p in B.ptrs]
            env[old["start"]] = np.int64(0)
            env[old["bp"]] = np.int64(pos)
            env[old["end"]] = np.int64(end)
            env["ptrs"] = tuple(ps)
            if arg is not None:
                env[self.args[1]] = np.int64(arg)
            if byte is not None:
                u8 = P.tybyname["u8"]
                for i in range(4):
                    env[("S", u8, "mem", old["bp"], K(i))] = np.int64(byte[i] if i < len(byte) else 0)
            m = np.ones(n, dtype=bool)
            for c, tr in g:
                x = nev(P, c, env)
                m &= np.broadcast_to((np.asarray(x) != 0) == tr, (n,))
            if not m.any():
                continue
            covered += m
            sub = {k: (v[m] if isinstance(v, np.ndarray) and v.shape else v) for k, v in env.items() if k != "ptrs"}
            sub["ptrs"] = env["ptrs"]
            cnt = int(m.sum())
            full = lambda e: np.broadcast_to(np.asarray(nev(P, e, sub), dtype=np.int64), (cnt,))
            ncols = {k: full(new[k]) for k in cols}
            mv = same_ptr(new["bp"], old["bp"])
            if mv is None:
                raise Unk("position is set anew")
            for q in ("start", "end"):
                if same_ptr(new[q], old[q]) != K(0):
                    raise Unk("limits are set anew")
            st = []
            for b, i, v in stores:
                o = same_ptr(b, old["bp"])
                if o is None:
                    raise Unk("stores elsewhere")
                st.append((full(add(o, i)), full(v)))
            r = None if ret[0] == "agg" else full(ret)
            res.append((m, ncols, full(mv), st, r))
        if not (covered == 1).all():
            raise Unk("%d states without exactly one path" % int((covered != 1).sum()))
        return res


def key_of(cols, names):
    k = np.zeros(len(cols[names[0]]), dtype=np.int64)
    sh = 0
    for n in names:
        hi = 33 if n not in SMALL else SMALL[n]
        if (cols[n] < 0).any() or (cols[n] >> hi).any():
            raise Unk("%s leaves its range" % n)
        k |= cols[n] << sh
        sh += hi
    if sh > 62:
        raise Unk("state too wide")
    return k


SMALL = {"#ff": 1, "#n": 4, "#cur": 8, "buf": 16, "ct": 4}


def cat(parts, names):
    return {n: np.concatenate([p[n] for p in parts]) for n in names}


def fresh_only(cols, names, seen):
    k, ix = np.unique(key_of(cols, names), return_index=True)
    new = ~np.isin(k, seen, assume_unique=True) if len(seen) else np.ones(len(k), dtype=bool)
    ix = ix[new]
    return {n: cols[n][ix] for n in names}, np.union1d(seen, k)


ROOM = 100000


def widths(B, outs):
    """give every number the code keeps a width for the table of states"""
    for n in B.nums:
        if n not in SMALL:
            SMALL[n] = 6


def initial(B, R, G, name):
    f, args, outs = B.extract(name, (None, None))
    if len(outs) != 1:
        R.fail(G, name + ":paths", "%s does not set the record in one way" % name)
        return None
    g, new, old, stores, ret = outs[0]
    ok = new["start"] == args[1] and new["bp"] == args[1] and same_ptr(new["end"], args[1]) == args[2] and not stores
    R.check(G, ok, name + ":limits", "%s does not set start and position to the buffer and end to buffer plus length" % name, name)
    if not all(new[n][0] == "k" for n in B.nums):
        R.fail(G, name + ":state", "%s does not set every number of the record" % name)
        return None
    return {n: np.array([new[n][1]], dtype=np.int64) for n in B.nums} if ok else None


def writer(R, P, B):
    G = "writer"
    c0 = initial(B, R, G, "opj_bio_init_enc")
    put, flush = Auto(B, *B.extract("opj_bio_putbit", (None,))), Auto(B, *B.extract("opj_bio_flush"))
    R.analysed["writer_paths"] = len(put.outs) + len(flush.outs)
    if c0 is None:
        return
    names = B.nums + ["#ff", "#n", "#cur"]
    # rule: #ff the last byte stored was 0xFF, #n bits collected, #cur their value
    front = dict(c0, **{"#ff": np.array([0]), "#n": np.array([0]), "#cur": np.array([0])})
    front, seen = fresh_only(front, names, np.array([], dtype=np.int64))
    bad = {}
    total = 0

    def rule_put(c, b):
        cap = 8 - c["#ff"]
        out = c["#n"] == cap
        ff = np.where(out, (c["#cur"] == 255) * 1, c["#ff"])
        n = np.where(out, 1, c["#n"] + 1)
        cur = np.where(out, b, c["#cur"] * 2 + b)
        return out, c["#cur"], ff, n, cur

    while len(front["#n"]):
        nxt = []
        num = {k: front[k] for k in B.nums}
        total += len(front["#n"])
        for b in (0, 1):
            out, byte, ff, n, cur = rule_put(front, b)
            for pos, end in ((0, ROOM), (0, 1)):
                for m, nc, mv, st, r in put.step(num, pos, end, arg=b):
                    bad["position"] = bad.get("position", 0) + int((mv != out[m]).sum())
                    if len(st) > 1 or any((o != 0).any() for o, _ in st):
                        bad["place"] = 1
                    if st:
                        bad["byte"] = bad.get("byte", 0) + int((~out[m]).sum()) + int((st[0][1] != byte[m]).sum())
                    else:
                        bad["byte"] = bad.get("byte", 0) + int(out[m].sum())
                    nxt.append(dict(nc, **{"#ff": ff[m], "#n": n[m], "#cur": cur[m]}))
        # completing the byte
        some = front["#n"] > 0
        if some.any():
            s = {k: v[some] for k, v in front.items()}
            num = {k: s[k] for k in B.nums}
            cap = 8 - s["#ff"]
            last = s["#cur"] << (cap - s["#n"])
            two = last == 255
            for end in (ROOM, 2, 1, 0):
                for m, nc, mv, st, r in flush.step(num, 0, end):
                    want = np.where(two[m], 2, 1)
                    fits = want <= end
                    bad["flush result"] = bad.get("flush result", 0) + int(((r != 0) != fits).sum())
                    d = {}
                    for o, v in st:
                        for x in np.unique(o):
                            d[int(x)] = v
                            if (o != x).any():
                                bad["flush place"] = 1
                    have = np.full(len(want), len(st))
                    bad["flush room"] = bad.get("flush room", 0) + int((have > end).sum()) + int((mv > end).sum())
                    if fits.any():
                        bad["flush position"] = bad.get("flush position", 0) + int((mv[fits] != want[fits]).sum())
                        bad["flush bytes"] = bad.get("flush bytes", 0) + int((have[fits] != want[fits]).sum())
                        if 0 in d:
                            bad["flush bytes"] += int((d[0][fits] != last[m][fits]).sum())
                        if 1 in d:
                            bad["flush bytes"] += int((d[1][fits & (want == 2)] != 0).sum())
        if any(bad.values()):
            break
        front, seen = fresh_only(cat(nxt, names), names, seen)
        if len(seen) > 4000000:
            raise Unk("the states do not close")
    texts = {"position": "opj_bio_putbit does not move on exactly when a byte is complete", "place": "opj_bio_putbit stores elsewhere than at the position",
             "byte": "opj_bio_putbit stores a byte that is not the bits collected, most significant first and seven after 0xFF",
             "flush result": "opj_bio_flush reports success although a byte was lost, or failure although none was", "flush place": "opj_bio_flush stores elsewhere",
             "flush room": "opj_bio_flush stores beyond the end", "flush position": "opj_bio_flush does not move past what it completes",
             "flush bytes": "opj_bio_flush does not complete the byte with zeros and put a stuffed byte after 0xFF"}
    for k, t in texts.items():
        R.check(G, not bad.get(k), "opj_bio:" + k, t, "%s in %d states" % (k, total))
    # no room: nothing is stored, and the end says so
    front = dict(c0)
    front, seen = fresh_only(front, B.nums, np.array([], dtype=np.int64))
    lost = fl = 0
    while len(front[B.nums[0]]):
        nxt = []
        for b in (0, 1):
            for m, nc, mv, st, r in put.step(front, 0, 0, arg=b):
                lost += len(st) + int((mv != 0).sum())
                nxt.append(nc)
        for m, nc, mv, st, r in flush.step(front, 0, 0):
            lost += len(st) + int((mv != 0).sum())
            fl += int((r != 0).sum())
        front, seen = fresh_only(cat(nxt, B.nums), B.nums, seen)
    R.check(G, not lost, "opj_bio:full buffer", "the bit writer stores or moves on without room", "no store without room, %d states" % len(seen))
    R.check(G, not fl, "opj_bio:full flush", "opj_bio_flush reports success without room", "flush fails without room")
    R.analysed["writer_states"] = total
    if not any(bad.values()):
        R.check(G, total >= 1000, "opj_bio:writer states", "the writer never gets past its first bytes", "%d states" % total)


def reader(R, P, B):
    G = "reader"
    c0 = initial(B, R, G, "opj_bio_init_dec")
    get, align = Auto(B, *B.extract("opj_bio_read", (K(1),), unroll=3)), Auto(B, *B.extract("opj_bio_inalign"))
    R.analysed["reader_paths"] = len(get.outs) + len(align.outs)
    if c0 is None:
        return
    names = B.nums + ["#n", "#cur"]
    # rule: #n bits left of the byte #cur
    front = dict(c0, **{"#n": np.array([0]), "#cur": np.array([0])})
    front, seen = fresh_only(front, names, np.array([], dtype=np.int64))
    bad, total = {}, 0

    def hit(k, n):
        bad[k] = bad.get(k, 0) + int(n)
    while len(front["#n"]):
        nxt = []
        total += len(front["#n"])
        empty = front["#n"] == 0
        part = {k: v[~empty] for k, v in front.items()}
        if len(part["#n"]):
            want = part["#cur"] >> (part["#n"] - 1) & 1
            for end in (ROOM, 0):
                for m, nc, mv, st, r in get.step({k: part[k] for k in B.nums}, 0, end, byte=(0x5A, 0xA5)):
                    hit("position", (mv != 0).sum())
                    hit("store", len(st))
                    hit("bit", (r != want[m]).sum())
                    nxt.append(dict(nc, **{"#n": part["#n"][m] - 1, "#cur": part["#cur"][m]}))
        part = {k: v[empty] for k, v in front.items()}
        if len(part["#n"]):
            for byte in range(256):
                cap = np.where(part["#cur"] == 255, 7, 8)
                want = np.int64(byte) >> (cap - 1) & 1
                for m, nc, mv, st, r in get.step({k: part[k] for k in B.nums}, 0, ROOM if byte & 1 else 1, byte=(byte, byte ^ 0x3C)):
                    hit("position", (mv != 1).sum())
                    hit("store", len(st))
                    hit("bit", (r != want[m]).sum())
                    c = dict(nc, **{"#n": cap[m] - 1, "#cur": np.full(int(m.sum()), byte)})
                    nxt.append({k: c[k] for k in names})
            for m, nc, mv, st, r in get.step({k: part[k] for k in B.nums}, 0, 0, byte=(1, 1)):
                hit("end", (mv != 0).sum())
                hit("store", len(st))
        num = {k: front[k] for k in B.nums}
        for end in (ROOM, 1, 0):
            for m, nc, mv, st, r in align.step(num, 0, end, byte=(0x33, 0x77)):
                want = (front["#cur"][m] == 255) * 1
                fits = want <= end
                hit("align position", (mv[fits] != want[fits]).sum())
                hit("align position", (mv > end).sum())
                hit("align result", ((r != 0) != fits).sum())
                hit("store", len(st))
        if any(bad.values()):
            break
        front, seen = fresh_only(cat(nxt, names), names, seen)
        if len(seen) > 8000000:
            raise Unk("the states do not close")
    texts = {"position": "opj_bio_read does not fetch a byte exactly when it needs one", "store": "the bit reader writes to the buffer",
             "bit": "opj_bio_read delivers a bit that is not the next one, most significant first and seven after 0xFF",
             "end": "opj_bio_read moves past the end", "align position": "opj_bio_inalign does not skip exactly the stuffed byte after 0xFF",
             "align result": "opj_bio_inalign reports success although the stuffed byte is missing, or failure although nothing is"}
    for k, t in texts.items():
        R.check(G, not bad.get(k), "opj_bio:" + k, t, "%s in %d states" % (k, total))
    R.analysed["reader_states"] = total
    if not any(bad.values()):
        R.check(G, total >= 1000, "opj_bio:reader states", "the reader never gets past its first bytes", "%d states" % total)


def count(R, P, B):
    f, args, outs = B.extract("opj_bio_numbytes")
    ok = bool(outs)
    for g, new, old, stores, ret in outs:
        for a, b in ((0, 0), (5, 5), (5, 12), (100, 4096)):
            env = {old["start"]: np.int64(a), old["bp"]: np.int64(b), old["end"]: np.int64(b + 7), "ptrs": ()}
            try:
                x = nev(P, ret, env)
            except Unk:
                x = None
            ok = ok and x is not None and int(x) == b - a
    R.check("words", ok, "opj_bio_numbytes:count", "opj_bio_numbytes is not the distance from the start to the position", "opj_bio_numbytes")


# ------------------------------------------------------------- wider values and code words
def bits_run(P, f, args, names, feed=None):
    """run with constant counts: the single bits written, in order (list of (expr, ) ), or with bits fed to the reader"""
    A = Api(P, lambda p: False, havoc=False, max_states=60, decided=200)
    I = A.interp()
    oc = I.on_call
    state = {"n": 0}

    def on_call(I, st, path, key, a, rt, t, fn, bb):
        w = (path or "").split("::")[-1]
        if w == "opj_bio_putbit" and w in names:
            st.notes["bits"] = st.notes.get("bits", ()) + ((I.resolve(st, a[1]), K(1)),)
            return [(st, ("agg", "tuple", 0, ()))]
        if w == "opj_bio_write" and w in names:
            st.notes["bits"] = st.notes.get("bits", ()) + ((I.resolve(st, a[1]), I.resolve(st, a[2])),)
            return [(st, ("agg", "tuple", 0, ()))]
        if w in ("opj_bio_getbit", "opj_bio_read") and w in names:
            n = I.resolve(st, a[1]) if w == "opj_bio_read" else K(1)
            if n[0] != "k":
                raise Unk("width")
            p = st.notes.get("at", 0)
            st.notes["at"] = p + n[1]
            if feed is None:
                v = K(0)
                for i in range(n[1]):
                    v = add(v, mul(K(1 << n[1] - 1 - i), ("S", rt, "bit", p + i)))
                return [(st, v)]
            if p + n[1] > len(feed):
                st.notes["over"] = 1
                return []
            v = 0
            for b in feed[p:p + n[1]]:
                v = v * 2 + b
            return [(st, K(v))]
        return oc(I, st, path, key, a, rt, t, fn, bb)
    I.on_call = on_call
    st = State(I.cx)
    return I, [(s, I.resolve(s, v)) for s, v in I.exec_fn(f, args(I), st) if not s.dead and s.feasible()]


POINTS = [0, 0xFFFFFFFF] + [1 << i for i in range(32)] + [0xFFFFFFFF ^ 1 << i for i in range(32)]


def value(e, env):
    return int(nev(PROG[0], e, env))


PROG = []


def words(R, P):
    G = "words"
    f = P.find("bio::opj_bio_write")
    for n in range(1, 33):
        try:
            I, outs = bits_run(P, f, lambda I: [I.sym(f.locals[1], "arg", 1), ("S", f.locals[2], "arg", 2), K(n)], {"opj_bio_putbit"})
            v = ("S", f.locals[2], "arg", 2)
            good = len(outs) >= 1
            seen = 0
            for x in POINTS:
                for s, _ in outs:
                    if not all(bool(value(c, {v: np.int64(x)})) == tr for c, tr in s.facts.items()):
                        continue
                    seen += 1
                    b = s.notes.get("bits", ())
                    good = good and len(b) == n and all(w == K(1) and value(e, {v: np.int64(x)}) == x >> n - 1 - i & 1 for i, (e, w) in enumerate(b))
            good = good and seen == len(POINTS)
        except (Unk, Budget) as e:
            good = False
        R.check(G, good, "opj_bio_write:%d" % n, "opj_bio_write does not write the %d low bits of the value most significant first" % n, "write %d bits" % n)
    f = P.find("bio::opj_bio_read")
    one = {"opj_bio_getbit"} if any(p.endswith("bio::opj_bio_getbit") for p in P.bypath) else set()
    for n in range(1, 33):
        try:
            I, outs = bits_run(P, f, lambda I: [I.sym(f.locals[1], "arg", 1), K(n)], one)
            good = len(outs) == 1
            for s, r in outs:
                for x in POINTS:
                    env = {}
                    for i in range(n):
                        for tid in set(P.tybyname.get(q) for q in ("u32", "i32", "u8", "bool")):
                            env[("S", tid, "bit", i)] = np.int64(x >> n - 1 - i & 1)
                    good = good and s.notes.get("at") == n and value(r, env) == x & (1 << n) - 1
        except (Unk, Budget) as e:
            good = False
        R.check(G, good, "opj_bio_read:%d" % n, "opj_bio_read does not put %d bits together most significant first" % n, "read %d bits" % n)


def passes_word(n):
    if n == 1:
        return [0]
    if n == 2:
        return [1, 0]
    for first, pre, m, k in ((3, 2, 3, 2), (6, 4, 31, 5), (37, 9, 128, 7)):
        if n < first + m:
            return [1] * pre + [n - first >> k - 1 - i & 1 for i in range(k)]


def codes(R, P):
    G = "codes"
    put, get = P.find("t2::opj_t2_putnumpasses"), P.find("t2::opj_t2_getnumpasses")
    cput, cget = P.find("t2::opj_t2_putcommacode"), P.find("t2::opj_t2_getcommacode")
    for nm, w, r, lo, hi, word, what in (("passes", put, get, 1, 164, passes_word, "number of passes"), ("comma", cput, cget, 0, 40, lambda n: [1] * n + [0], "increment")):
        for n in range(lo, hi + 1):
            good = True
            try:
                I, outs = bits_run(P, w, lambda I: [I.sym(w.locals[1], "arg", 1), K(n)], {"opj_bio_putbit", "opj_bio_write"})
                good = len(outs) == 1
                for s, _ in outs:
                    l = []
                    for e, c in s.notes.get("bits", ()):
                        x, c = value(e, {}), value(c, {})
                        l += [x >> c - 1 - i & 1 for i in range(c)]
                    good = good and l == word(n)
            except (Unk, Budget):
                good = False
            R.check(G, good, "%s:%s:%d" % (sname(w), nm, n), "%s does not write the code word of the %s %d" % (sname(w), what, n), "%s %d written" % (what, n))
            try:
                I, outs = bits_run(P, r, lambda I: [I.sym(r.locals[1], "arg", 1)], {"opj_bio_read", "opj_bio_getbit"}, feed=word(n))
                good = len(outs) == 1 and all(v == K(n) and s.notes.get("at") == len(word(n)) for s, v in outs)
            except (Unk, Budget):
                good = False
            R.check(G, good, "%s:%s:%d" % (sname(r), nm, n), "%s does not read the code word of the %s %d as such" % (sname(r), what, n), "%s %d read" % (what, n))


# ------------------------------------------------------------- the users
def users(R, P):
    """typestate of the bit stream in the functions that use it, and the single bits they write"""
    G = "users"
    bio = P.tybyname
    fns = [f for f in P.local_fns() if not f.path.startswith("bio::") and any("bio::opj_bio_" in str(callee(t) or "") for _, t in calls(f))]
    R.analysed["users"] = sorted(sname(f) for f in fns)
    names = {f.path for f in fns}
    done = set()

    def flow(f, entry):
        """states at every block; -> states at return"""
        ins = {0: frozenset(entry)}
        work = [0]
        exits = set()
        while work:
            b = work.pop()
            S = ins[b]
            blk = f.blocks[b]
            t = blk["t"]
            outs = []
            if t["k"] == "call":
                w = (callee(t) or "")
                nm = w.split("::")[-1]
                d = t["d"]
                T = S
                if "bio::opj_bio_" in w:
                    if nm == "opj_bio_init_enc":
                        T = {"enc"}
                    elif nm == "opj_bio_init_dec":
                        T = {"dec"}
                    elif nm in ("opj_bio_putbit", "opj_bio_write"):
                        T = {"enc" if x not in ("param",) else x for x in S}
                        if S & {"dec", "aligned"}:
                            T = {"mixed"}
                    elif nm == "opj_bio_read":
                        T = {"dec" if x not in ("param",) else x for x in S}
                        if S & {"enc", "flushed"}:
                            T = {"mixed"}
                    elif nm == "opj_bio_flush":
                        T = {("flush?", d[0])}
                    elif nm == "opj_bio_inalign":
                        T = {"aligned"}
                    elif nm == "opj_bio_numbytes":
                        key = (f.path, t["l"])
                        ok = all(x in ("flushed", "aligned") for x in S) and bool(S)
                        at.setdefault((sname(f), len([1 for q in at if q[0] == sname(f) and q[1] != key]), key), []).append((ok, S))
                elif w in P.bypath and (w in names or not known(P, w)) and any(P.types[f2].get("k") == "ptr" and "opj_bio" in P.tn(f2) for f2 in P.bypath[w][0].locals[1:P.bypath[w][0].argc + 1]):
                    g = P.bypath[w][0]
                    if known(P, w):
                        T = {"enc" if x in ("flushed",) or isinstance(x, tuple) else "dec" if x == "aligned" else x for x in S}
                    elif w not in stack:
                        stack.append(w)
                        T = flow(g, S) or S
                        stack.pop()
                if t["t"] is not None:
                    outs = [(t["t"], frozenset(T))]
            elif t["k"] == "switch":
                v = t["d"][1][0] if t["d"][0] in ("c", "m") else None
                edges = edges_of(t)
                for val, tgt in edges:
                    N = set()
                    for x in S:
                        if isinstance(x, tuple) and v is not None:
                            tr = truth(f, b, v, x[1], val)
                            N.add(x if tr is None else "flushed" if tr else "failed")
                        else:
                            N.add(x)
                    outs.append((tgt, frozenset(N)))
            elif t["k"] == "ret":
                exits |= S
            else:
                x = t.get("t")
                if x is not None:
                    outs = [(x, S)]
            for tgt, N in outs:
                o = ins.get(tgt)
                n = (o or frozenset()) | N
                if n != o:
                    ins[tgt] = n
                    work.append(tgt)
        return exits

    def edges_of(t):
        e = []
        vs = t["v"]
        for x in vs:
            e.append((int(x[0]), x[1]))
        if t["o"] is not None:
            e.append((None, t["o"]))
        return e

    def truth(f, b, v, d, val):
        """does taking this edge of a switch on v say that d was nonzero?"""
        for _ in range(4):
            if v == d:
                return val != 0 if val is not None else True
            src = None
            for s in f.blocks[b]["s"]:
                if s[0] == "=" and s[1] == [v]:
                    src = s[2]
            if src is None:
                return None
            if src[0] == "use" and src[1][0] in ("c", "m") and len(src[1][1]) == 1:
                v = src[1][1][0]
                continue
            if src[0] == "bin" and src[1] in ("Eq", "Ne") and src[2][0] in ("c", "m") and src[2][1] == [d] and src[3][0] == "k" and src[3][1].get("c", {}).get("v") in (0, "0"):
                z = (val != 0 if val is not None else True) == (src[1] == "Eq")
                return not z
            return None
        return None
    at, stack = {}, []
    for f in fns:
        param = any("opj_bio" in P.tn(t) for t in f.locals[1:f.argc + 1])
        if param and not known(P, f.path):
            continue        # followed from its callers
        flow(f, {"param"} if param else {"none"})
    sites = {}
    for (sh, i, k), l in at.items():
        sites.setdefault(k, [sh, []])[1].extend(l)
    for n, (k, (sh, l)) in enumerate(sorted(sites.items())):
        final = l[-1]
        R.check(G, final[0], "%s:count before the end" % sh, "%s counts the bytes of a packet header before its bits are flushed or aligned (%s)" % (sh, ", ".join(sorted(map(str, final[1])))), "%s: count of bytes" % sh)
    # single bits
    for f in fns:
        for b, t in calls(f):
            if (callee(t) or "").endswith("bio::opj_bio_putbit"):
                R.check(G, single(P, f, t["a"][1], 8), "%s:bit" % sname(f), "%s writes a single bit that may be something other than 0 or 1" % sname(f), "%s: single bit" % sname(f))


def single(P, f, op, depth):
    if depth == 0:
        return False
    if op[0] == "k":
        v = op[1].get("c", {}).get("v") if isinstance(op[1], dict) else None
        return v is not None and int(v) in (0, 1)
    pl = op[1]
    if len(pl) != 1:
        return False
    if P.tn(f.locals[pl[0]]) == "bool":
        return True
    if pl[0] <= f.argc:
        return False
    defs = []
    for b in f.blocks:
        for s in b["s"]:
            if s[0] == "=" and s[1] == pl:
                defs.append(s[2])
        t = b["t"]
        if t["k"] == "call" and t["d"] == pl:
            w = (callee(t) or "")
            if not w.startswith("<bool as") and "From<bool>" not in w:
                return False
    ok = True
    n = 0
    for r in defs:
        n += 1
        if r[0] == "use":
            ok = ok and single(P, f, r[1], depth - 1)
        elif r[0] == "cast":
            o = r[2] if isinstance(r[2], list) else r[1]
            ok = ok and single(P, f, o, depth - 1)
        elif r[0] == "bin" and r[1] == "BitAnd":
            ok = ok and any(single(P, f, o, depth - 1) for o in (r[2], r[3]))
        else:
            ok = False
    return ok


def run(R):
    sys.setrecursionlimit(20000)
    P = Prog("openjp2", "release")
    PROG[:] = [P]
    B = Bio(P)
    widths(B, None)
    for part, G in ((writer, "writer"), (reader, "reader")):
        try:
            part(R, P, B)
        except Unk as e:
            R.fail(G, "opj_bio:%s not understood" % G, "the bit %s could not be compared with the rule: %s" % (G, e))
    count(R, P, B)
    words(R, P)
    codes(R, P)
    users(R, P)
    R.floor("writer", 10)
    R.floor("reader", 8)
    R.floor("words", 65)
    R.floor("codes", 400)
    R.floor("users", 5)
