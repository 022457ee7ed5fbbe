"""C21: header fields stand where the standard puts them, written and read."""
import os
import random
import sys
from lay import *
import kern

LEVEL = "other"
TECHNIQUE = "layout extraction: the writers and readers are abstractly interpreted with byte accesses kept as (position, width, value) terms over the parameters, and the terms are compared with the standard's layout"
NOTE = "Terms are compared by evaluating both sides on a fixed set of parameter assignments consistent with the path; the program itself is never run."
EXPLANATION = ("Each segment writer (SIZ COD COC QCD QCC POC RGN COM TLM SOT SOC EOC MCT MCC MCO CBD and the TLM entry) and each reader of the same segments is interpreted over unknown parameters. Every byte access is kept as a term: where, how "
               "wide, which value, under which conditions, loop counters included. An independent description of each segment gives the standard's bytes for a parameter assignment. Every access is evaluated at assignments that agree with "
               "its path and must put exactly the standard's byte there; on each path that hands the segment over, every byte is covered and the count is the segment's; the declared length is one of these bytes. Readers: each parameter "
               "is stored with the value its bytes encode, all of them on every accepting path. Writers that prepare room for a segment write inside it. The primitive byte writers and readers are big-endian for each width.")
ASSUMPTIONS = ["two terms of these forms (sums, shifts, masks, table lookups by loop counter) that agree on all sampled assignments, boundaries included, are taken to be equal", "values are in the ranges the standard allows when a writer is called"]
J = "j2k::opj_j2k_"
ENTER = ("write_SPCod_SPCoc", "write_SQcd_SQcc", "get_SPCod_SPCoc_size", "get_SQcd_SQcc_size", "write_coc_in_memory", "write_qcc_in_memory", "write_poc_in_memory",
         "read_SPCod_SPCoc", "read_SQcd_SQcc")
WRITES = {"cio::opj_write_bytes": None, "cio::opj_write_double": 8, "cio::opj_write_float": 4}
HEADER_ROOM = 1000     # the encoder's header buffer never gets smaller than it was created


def be(v, n):
    return [(v >> (8 * (n - 1 - i))) & 255 for i in range(n)]


class Bad(Exception):
    pass


class Seg:
    """one segment: parameters, their bytes by the standard, and the fields that hold them"""
    writer = reader = None
    written = 0             # the argument that takes the number of bytes written
    cursor = None           # the field that is moved past what was written
    hdr = 4                 # bytes before what the reader is given
    fields = ()
    noix = False            # the record written to is found by its number; its place is not described
    peel = 0
    rounds = 40

    def __init__(self):
        self.memo = {}

    def envs(self, rng):
        return [self.draw(rng, i) for i in range(self.rounds)]

    def draw(self, rng, i):
        raise NotImplementedError

    def parts(self, e):
        """[(name, width, value)]"""
        raise NotImplementedError

    def bytes(self, e):
        b = e.get("_b")
        if b is None:
            b, e["_n"] = [], []
            for n, w, v in self.parts(e):
                v = [None] * w if v is None else v if isinstance(v, list) else be(v, w)
                b += v
                e["_n"] += [n] * w
            e["_b"] = b
        return b

    def at(self, e, p):
        self.bytes(e)
        return e["_n"][p]

    def leaf(self, e, n, ix):
        """value of field n at indices ix under the assignment; None: no part of the description"""
        return None

    def expect(self, e):
        """fields after reading: {(name, indices): value}"""
        return {}

    def key(self, t, ix):
        return (t, ix)

    def extra(self, e, k):
        return False


def pick(rng, *xs):
    return rng.choice(xs)


def u(rng, bits):
    return rng.choice((0, 1, 2 ** bits - 1, rng.randrange(2 ** bits), rng.randrange(2 ** bits)))


class Siz(Seg):
    writer, reader = "write_siz", "read_siz"
    IM = ("x1", "y1", "x0", "y0")
    CP = ("tdx", "tdy", "tx0", "ty0")
    fields = tuple("opj_image[]." + x for x in IM + ("numcomps",)) + tuple("opj_j2k[].m_cp." + x for x in CP + ("rsiz",)) + tuple("opj_image_comp[]." + x for x in ("prec", "sgnd", "dx", "dy"))

    def draw(self, rng, i):
        n = pick(rng, 1, 2, 3, 4, 7)
        e = {x: u(rng, 32) for x in self.IM + self.CP}
        if i % 2:
            # an image that can be read
            e.update(x0=rng.randrange(50), y0=rng.randrange(50), tx0=0, ty0=0, tdx=rng.randrange(60, 200), tdy=rng.randrange(60, 200))
            e.update(x1=e["x0"] + rng.randrange(1, 300), y1=e["y0"] + rng.randrange(1, 300))
        e.update(rsiz=pick(rng, 0, 3, 0x4000, 0x8100, rng.randrange(65536)), n=n, kmax=n, prec=[rng.randrange(1, 32) for _ in range(n)], sgnd=[rng.randrange(2) for _ in range(n)],
                 dx=[rng.randrange(1, 256) for _ in range(n)], dy=[rng.randrange(1, 256) for _ in range(n)])
        return e

    def parts(self, e):
        r = [("marker", 2, 0xFF51), ("Lsiz", 2, 38 + 3 * e["n"]), ("Rsiz", 2, e["rsiz"])] + [(x, 4, e[x]) for x in self.IM + self.CP] + [("Csiz", 2, e["n"])]
        for c in range(e["n"]):
            r += [("Ssiz", 1, e["prec"][c] - 1 + 128 * e["sgnd"][c]), ("XRsiz", 1, e["dx"][c]), ("YRsiz", 1, e["dy"][c])]
        return r

    def leaf(self, e, n, ix):
        s, f = n.rsplit(".", 1) if "." in n else (n, "")
        if s == "opj_image[]" and f == "numcomps":
            return e["n"]
        if s == "opj_image[]" and f in self.IM or s == "opj_j2k[].m_cp" and f in self.CP + ("rsiz",):
            return e[f]
        if s == "opj_image_comp[]" and f in ("prec", "sgnd", "dx", "dy"):
            return e[f][ix[0]] if 0 <= ix[0] < e["n"] else None
        if n == "#3":
            return len(self.bytes(e)) - 4

    def key(self, t, ix):
        return (t, ix if "image_comp" in t else ())

    def expect(self, e):
        r = {("opj_image[]." + x, ()): e[x] for x in self.IM}
        r.update({("opj_j2k[].m_cp." + x, ()): e[x] for x in self.CP + ("rsiz",)})
        r[("opj_image[].numcomps", ())] = e["n"]
        for x in ("prec", "sgnd", "dx", "dy"):
            for c in range(e["n"]):
                r[("opj_image_comp[]." + x, (c,))] = e[x][c]
        return r


def tccp(rng):
    nres = pick(rng, 1, 2, 6, 33, rng.randrange(1, 34))
    cw = rng.randrange(2, 11)
    return dict(nres=nres, cblkw=cw, cblkh=rng.randrange(2, min(10, 12 - cw) + 1), cblksty=pick(rng, 0, 1, 0x3F, 0x40, rng.randrange(64)), qmfbid=rng.randrange(2), csty=rng.randrange(2),
                prcw=[rng.randrange(1 if i else 0, 16) for i in range(nres)], prch=[rng.randrange(1 if i else 0, 16) for i in range(nres)])


SP = {"numresolutions": "nres", "cblkw": "cblkw", "cblkh": "cblkh", "cblksty": "cblksty", "qmfbid": "qmfbid"}


def spcod(e):
    r = [("decomposition levels", 1, e["nres"] - 1), ("code-block width", 1, e["cblkw"] - 2), ("code-block height", 1, e["cblkh"] - 2), ("code-block style", 1, e["cblksty"]), ("transformation", 1, e["qmfbid"])]
    if e["csty"] & 1:
        r += [("precinct size", 1, w + 16 * h) for w, h in zip(e["prcw"], e["prch"])]
    return r


class Cod(Seg):
    writer, reader = "write_cod", "read_cod"
    fields = tuple("opj_tcp[]." + x for x in ("csty", "prg", "numlayers", "mct")) + tuple("opj_tccp[]." + x for x in tuple(SP) + ("csty", "prcw[]", "prch[]"))

    def draw(self, rng, i):
        e = tccp(rng)
        e.update(scod=(e["csty"] & 1) | pick(rng, 0, 2, 4, 6), prg=rng.randrange(5), layers=pick(rng, 1, 65535, 300, 7), mct=rng.randrange(2), n=3, kmax=max(e["nres"], 3), tile=0)
        return e

    def parts(self, e):
        sp = spcod(e)
        return [("marker", 2, 0xFF52), ("Lcod", 2, 7 + sum(x[1] for x in sp)), ("Scod", 1, e["scod"]), ("progression order", 1, e["prg"]), ("layers", 2, e["layers"]), ("component transform", 1, e["mct"])] + sp

    def comp(self, e):
        return 0

    def leaf(self, e, n, ix):
        s, f = n.rsplit(".", 1) if "." in n else (n, "")
        if s == "opj_tcp[]" and f in ("csty", "prg", "numlayers", "mct"):
            return e[{"csty": "scod", "prg": "prg", "numlayers": "layers", "mct": "mct"}[f]] if ix[-1] == e["tile"] else None
        if s == "opj_tccp[]" and ix[-1 if f not in ("prcw[]", "prch[]") else -2] == self.comp(e):
            if f in SP:
                return e[SP[f]]
            if f == "csty":
                return e["csty"]
            if f in ("prcw[]", "prch[]"):
                return e[f[:-2]][ix[-1]] if 0 <= ix[-1] < e["nres"] else None
        if n == "opj_image[].numcomps":
            return e["n"]
        if n == "opj_j2k[].m_current_tile_number":
            return e["tile"]
        if n == "opj_j2k[].m_cp.m_specific_param.m_dec.m_reduce":
            return 0
        if n == "#3":
            return len(self.bytes(e)) - 4

    def key(self, t, ix):
        if t.startswith("opj_tcp["):
            return (t, ())
        return (t, ix[-2:] if "prc" in t else ix[-1:])

    def spexpect(self, e, c):
        r = {("opj_tccp[]." + a, (c,)): e[b] for a, b in SP.items()}
        for i in range(e["nres"]):
            for f in ("prcw", "prch"):
                r[("opj_tccp[].%s[]" % f, (c, i))] = e[f][i] if e["csty"] & 1 else 15
        return r

    def expect(self, e):
        r = self.spexpect(e, 0)
        r.update({("opj_tcp[].csty", ()): e["scod"], ("opj_tcp[].prg", ()): e["prg"], ("opj_tcp[].numlayers", ()): e["layers"], ("opj_tcp[].mct", ()): e["mct"]})
        for c in range(e["n"]):
            r[("opj_tccp[].csty", (c,))] = e["csty"] & 1
        return r


class Coc(Cod):
    writer, reader = "write_coc", "read_coc"
    fields = tuple("opj_tccp[]." + x for x in tuple(SP) + ("csty", "prcw[]", "prch[]"))

    def draw(self, rng, i):
        e = tccp(rng)
        n = pick(rng, 2, 3, 256, 257, 300, 16384)
        e.update(n=n, c=pick(rng, 0, 1, n - 1, rng.randrange(n)), kmax=e["nres"], tile=0)
        return e

    def room(self, e):
        return 1 if e["n"] <= 256 else 2

    def parts(self, e):
        sp, w = spcod(e), self.room(e)
        return [("marker", 2, 0xFF53), ("Lcoc", 2, 3 + w + sum(x[1] for x in sp)), ("component", w, e["c"]), ("Scoc", 1, e["csty"])] + sp

    def comp(self, e):
        return e["c"]

    def leaf(self, e, n, ix):
        if n == "#2" and self.writer == "write_coc":
            return e["c"]
        return Cod.leaf(self, e, n, ix)

    def expect(self, e):
        r = self.spexpect(e, e["c"])
        r[("opj_tccp[].csty", (e["c"],))] = e["csty"]
        return r


class Qcd(Seg):
    writer, reader = "write_qcd", "read_qcd"
    fields = tuple("opj_tccp[]." + x for x in ("qntsty", "numgbits", "stepsizes[].expn", "stepsizes[].mant"))

    def draw(self, rng, i):
        nres = pick(rng, 1, 2, 6, 33, rng.randrange(1, 34))
        q = i % 3
        nb = 1 if q == 1 else 3 * nres - 2
        return dict(nres=nres, q=q, guard=rng.randrange(8), nb=nb, expn=[rng.randrange(32) for _ in range(nb)], mant=[rng.randrange(2048) if q else 0 for _ in range(nb)], kmax=98, tile=0, c=0, n=3)

    def sq(self, e):
        r = [("Sqcd", 1, e["q"] + 32 * e["guard"])]
        for a, b in zip(e["expn"], e["mant"]):
            r.append(("step size", 1, a << 3) if e["q"] == 0 else ("step size", 2, (a << 11) + b))
        return r

    def parts(self, e):
        sq = self.sq(e)
        return [("marker", 2, 0xFF5C), ("Lqcd", 2, 2 + sum(x[1] for x in sq))] + sq

    def leaf(self, e, n, ix):
        s, f = n.split(".", 1) if "." in n else (n, "")
        if s == "opj_tccp[]" and f in ("qntsty", "numgbits", "numresolutions"):
            return {"qntsty": e["q"], "numgbits": e["guard"], "numresolutions": e["nres"]}[f] if ix[-1] == e["c"] else None
        if s == "opj_tccp[]" and f in ("stepsizes[].expn", "stepsizes[].mant") and ix[-2] == e["c"]:
            return e[f[-4:]][ix[-1]] if 0 <= ix[-1] < e["nb"] else None
        if n == "opj_image[].numcomps":
            return e["n"]
        if n == "opj_j2k[].m_current_tile_number":
            return e["tile"]
        if n == "#3":
            return len(self.bytes(e)) - 4

    def key(self, t, ix):
        return (t, ix[-2:] if "step" in t else ix[-1:])

    def expect(self, e):
        c = e["c"]
        r = {("opj_tccp[].qntsty", (c,)): e["q"], ("opj_tccp[].numgbits", (c,)): e["guard"]}
        for i in range(97 if e["q"] == 1 else e["nb"]):
            r[("opj_tccp[].stepsizes[].expn", (c, i))] = max(0, e["expn"][0] - (i - 1) // 3) if e["q"] == 1 and i else e["expn"][i]
            r[("opj_tccp[].stepsizes[].mant", (c, i))] = e["mant"][0 if e["q"] == 1 else i]
        return r


class Qcc(Qcd):
    writer, reader = "write_qcc", "read_qcc"

    def draw(self, rng, i):
        e = Qcd.draw(self, rng, i)
        n = pick(rng, 2, 3, 256, 257, 300, 16384)
        e.update(n=n, c=pick(rng, 0, 1, n - 1, rng.randrange(n)))
        return e

    def parts(self, e):
        sq, w = self.sq(e), 1 if e["n"] <= 256 else 2
        return [("marker", 2, 0xFF5D), ("Lqcc", 2, 2 + w + sum(x[1] for x in sq)), ("component", w, e["c"])] + sq

    def leaf(self, e, n, ix):
        if n == "#2":
            return e["c"]
        return Qcd.leaf(self, e, n, ix)


class Poc(Seg):
    writer, reader = "write_poc", "read_poc"
    F = (("resno0", 1), ("compno0", 0), ("layno1", 2), ("resno1", 1), ("compno1", 0), ("prg", 1))
    fields = tuple("opj_tcp[].pocs[]." + x for x, _ in F) + ("opj_tcp[].numpocs",)

    def draw(self, rng, i):
        n = pick(rng, 2, 3, 256, 257, 300)
        k = pick(rng, 1, 2, 31)
        w = 8 if n <= 256 else 16
        return dict(n=n, w=w // 8, np=k, kmax=k, tile=0, old=0, layers=65535,
                    pocs=[dict(resno0=rng.randrange(33), compno0=rng.randrange(min(n, 2 ** w)), layno1=rng.randrange(1, 65536), resno1=rng.randrange(1, 34), compno1=rng.randrange(0, min(n + 1, 2 ** w)), prg=rng.randrange(5)) for _ in range(k)])

    def parts(self, e):
        r = [("marker", 2, 0xFF5F), ("Lpoc", 2, 2 + e["np"] * (5 + 2 * e["w"]))]
        for q in e["pocs"]:
            r += [(f, w or e["w"], q[f]) for f, w in self.F]
        return r

    def leaf(self, e, n, ix):
        if n == "opj_tcp[].numpocs":
            return e["np"] - 1 if self.mode == "w" else None
        if n.startswith("opj_tcp[].pocs[].") or n.startswith("opj_poc[]."):
            return e["pocs"][ix[-1]].get(n.split(".")[-1]) if 0 <= ix[-1] < e["np"] and self.mode == "w" else None
        if n == "opj_image[].numcomps":
            return e["n"]
        if n == "opj_tcp[].numlayers":
            return e["layers"]
        if n == "opj_tcp[].POC":
            return e["old"]
        if n == "opj_j2k[].m_current_tile_number":
            return e["tile"]
        if n == "#3" and self.mode == "r":
            return len(self.bytes(e)) - 4

    def key(self, t, ix):
        return (t, ix[-1:] if "pocs[" in t else ())

    def expect(self, e):
        r = {("opj_tcp[].numpocs", ()): e["np"] - 1}
        for i, q in enumerate(e["pocs"]):
            for f, _ in self.F:
                r[("opj_tcp[].pocs[]." + f, (i,))] = min(q[f], {"compno1": e["n"], "layno1": e["layers"]}.get(f, 1 << 20))
        return r


class Rgn(Seg):
    writer, reader = "write_rgn", "read_rgn"
    fields = ("opj_tccp[].roishift",)

    def draw(self, rng, i):
        n = pick(rng, 2, 3, 256, 257, 300)
        return dict(n=n, c=rng.randrange(n), shift=rng.randrange(38), tile=0)

    def parts(self, e):
        w = 1 if e["n"] <= 256 else 2
        return [("marker", 2, 0xFF5E), ("Lrgn", 2, 4 + w), ("component", w, e["c"]), ("Srgn", 1, 0), ("SPrgn", 1, e["shift"])]

    def leaf(self, e, n, ix):
        if n == "#3":
            return e["c"] if self.mode == "w" else len(self.bytes(e)) - 4
        if n in ("#2", "#4") and self.mode == "w":
            return e["tile"] if n == "#2" else e["n"]
        if n == "opj_tccp[].roishift":
            return e["shift"] if ix[-1] == e["c"] else None
        if n == "opj_image[].numcomps":
            return e["n"]

    def key(self, t, ix):
        return (t, ix[-1:])

    def expect(self, e):
        return {("opj_tccp[].roishift", (e["c"],)): e["shift"]}


class Com(Seg):
    writer = "write_com"

    def draw(self, rng, i):
        n = pick(rng, 1, 2, 20, 300, 60000)
        return dict(text=[rng.randrange(1, 256) for _ in range(n)])

    def parts(self, e):
        return [("marker", 2, 0xFF64), ("Lcom", 2, 4 + len(e["text"])), ("Rcom", 2, 1), ("text", len(e["text"]), e["text"])]

    def leaf(self, e, n, ix):
        if n == "ret:strlen":
            return len(e["text"])
        if n == "*opj_j2k[].m_cp.comment":
            return e["text"]


class Tlm(Seg):
    writer = "write_tlm"

    def draw(self, rng, i):
        return dict(n=pick(rng, 1, 2, 255, 256, 10921))

    def parts(self, e):
        w = 5 if e["n"] <= 255 else 6
        return [("marker", 2, 0xFF55), ("Ltlm", 2, 4 + w * e["n"]), ("Ztlm", 1, 0), ("Stlm", 1, 0x50 if w == 5 else 0x60), ("entries", w * e["n"], None)]

    def leaf(self, e, n, ix):
        if n == "opj_j2k[].m_specific_param.m_encoder.m_total_tile_parts":
            return e["n"]


class TlmEntry(Seg):
    writer, cursor = "update_tlm", "opj_j2k[].m_specific_param.m_encoder.m_tlm_sot_offsets_current"

    def draw(self, rng, i):
        b = i % 2
        return dict(byte=b, tile=rng.randrange(256 if b else 65536), size=u(rng, 32))

    def parts(self, e):
        return [("Ttlm", 1 if e["byte"] else 2, e["tile"]), ("Ptlm", 4, e["size"])]

    def leaf(self, e, n, ix):
        return {"opj_j2k[].m_specific_param.m_encoder.m_Ttlmi_is_byte": e["byte"], "opj_j2k[].m_current_tile_number": e["tile"], "#2": e["size"]}.get(n)


class Sot(Seg):
    writer, written, reader = "write_sot", 4, "get_sot_values"
    fields = ("*#3", "*#4", "*#5", "*#6")

    def draw(self, rng, i):
        return dict(tile=rng.randrange(65535), part=rng.randrange(255), parts=rng.randrange(256), size=u(rng, 32))

    def key(self, t, ix):
        return (t, ())

    def expect(self, e):
        return {("*#3", ()): e["tile"], ("*#4", ()): e["size"], ("*#5", ()): e["part"], ("*#6", ()): e["parts"]}

    def parts(self, e):
        return [("marker", 2, 0xFF90), ("Lsot", 2, 10), ("Isot", 2, e["tile"]), ("Psot", 4, None if self.mode == "w" else e["size"]), ("TPsot", 1, e["part"]), ("TNsot", 1, e["parts"])]

    def leaf(self, e, n, ix):
        if self.mode == "r":
            return 8 if n == "#2" else None
        return {"opj_j2k[].m_current_tile_number": e["tile"], "opj_j2k[].m_specific_param.m_encoder.m_current_tile_part_number": e["part"]}.get(n, e["parts"] if n == "opj_tcp[].m_nb_tile_parts" and ix[-1] == e["tile"] else None)


class Eoc(Seg):
    writer = "write_eoc"

    def draw(self, rng, i):
        return {}

    def parts(self, e):
        return [("marker", 2, 0xFFD9)]


class Soc(Eoc):
    writer = "write_soc"

    def parts(self, e):
        return [("marker", 2, 0xFF4F)]


class Mct(Seg):
    writer, reader = "write_mct_record", "read_mct"
    fields = ("opj_mct_data[].m_index", "opj_mct_data[].m_array_type", "opj_mct_data[].m_element_type", "copy")
    noix = True

    def key(self, t, ix):
        return (t, ())

    def expect(self, e):
        return {("opj_mct_data[].m_index", ()): e["idx"], ("opj_mct_data[].m_array_type", ()): e["at"], ("opj_mct_data[].m_element_type", ()): e["et"], ("copy", ()): 6}

    def draw(self, rng, i):
        n = pick(rng, 1, 36, 500)
        return dict(idx=rng.randrange(256), at=rng.randrange(3), et=rng.randrange(4), data=[rng.randrange(256) for _ in range(n)])

    def parts(self, e):
        return [("marker", 2, 0xFF74), ("Lmct", 2, 8 + len(e["data"])), ("Zmct", 2, 0), ("Imct", 2, e["idx"] | e["at"] << 8 | e["et"] << 10), ("Ymct", 2, 0), ("data", len(e["data"]), e["data"])]

    def leaf(self, e, n, ix):
        if self.mode == "r":
            return len(self.bytes(e)) - 4 if n == "#3" else None
        return {"opj_mct_data[].m_index": e["idx"], "opj_mct_data[].m_array_type": e["at"], "opj_mct_data[].m_element_type": e["et"], "opj_mct_data[].m_data_size": len(e["data"]),
                "*opj_mct_data[].m_data": e["data"]}.get(n)


class Mcc(Seg):
    writer, reader = "write_mcc_record", "read_mcc"
    S = "opj_simple_mcc_decorrelation_data[]."
    fields = (S + "m_index", S + "m_nb_comps", S + "m_is_irreversible")
    peel = 1
    noix = True

    def key(self, t, ix):
        return (t, ())

    def expect(self, e):
        return {(self.S + "m_index", ()): e["idx"], (self.S + "m_nb_comps", ()): e["n"], (self.S + "m_is_irreversible", ()): e["irr"]}

    def draw(self, rng, i):
        n = pick(rng, 1, 3, 255, 256, 300) if self.mode == "w" else pick(rng, 1, 2, 3)
        return dict(n=n, wide=n > 255 if self.mode == "w" else i % 2, kmax=n, idx=rng.randrange(256), irr=rng.randrange(2), dec=pick(rng, None, rng.randrange(256)), off=pick(rng, None, rng.randrange(256)))

    rounds = 24

    def parts(self, e):
        w = 2 if e["wide"] else 1
        m = 0 if w == 1 else 0x8000
        r = [("marker", 2, 0xFF75), ("Lmcc", 2, 17 + 2 * w * e["n"]), ("Zmcc", 2, 0), ("Imcc", 1, e["idx"]), ("Ymcc", 2, 0), ("Qmcc", 2, 1), ("Xmcc", 1, 1), ("Nmcc", 2, e["n"] | m)]
        r += [("Cmcc", w, i) for i in range(e["n"])] + [("Mmcc", 2, e["n"] | m)] + [("Wmcc", w, i) for i in range(e["n"])]
        return r + [("Tmcc", 3, (1 - e["irr"]) << 16 | (e["off"] or 0) << 8 | (e["dec"] or 0))]

    def leaf(self, e, n, ix):
        if n == "#3":
            return len(self.bytes(e)) - 4
        return {"m_decorrelation_array[].m_index": e["dec"], "m_offset_array[].m_index": e["off"], "null:" + self.S + "m_decorrelation_array": int(e["dec"] is None),
                "null:" + self.S + "m_offset_array": int(e["off"] is None), self.S + "m_is_irreversible": e["irr"],
                self.S + "m_nb_comps": e["n"], self.S + "m_index": e["idx"]}.get(n)


class Mco(Seg):
    writer = "write_mco"

    def draw(self, rng, i):
        n = pick(rng, 1, 2, 5)
        return dict(n=n, kmax=n, idx=[rng.randrange(256) for _ in range(n)], tile=0)

    def parts(self, e):
        return [("marker", 2, 0xFF77), ("Lmco", 2, 3 + e["n"]), ("Nmco", 1, e["n"])] + [("Imco", 1, x) for x in e["idx"]]

    def leaf(self, e, n, ix):
        if n == "opj_j2k[].m_current_tile_number":
            return 0
        if n == "opj_tcp[].m_nb_mcc_records":
            return e["n"]
        if n == "opj_simple_mcc_decorrelation_data[].m_index":
            return e["idx"][ix[-1]] if 0 <= ix[-1] < e["n"] else None


class Cbd(Siz):
    writer, reader = "write_cbd", "read_cbd"
    fields = ("opj_image_comp[].prec", "opj_image_comp[].sgnd")

    def expect(self, e):
        return {k: v for k, v in Siz.expect(self, e).items() if k[0] in self.fields}

    def parts(self, e):
        return [("marker", 2, 0xFF78), ("Lcbd", 2, 4 + e["n"]), ("Ncbd", 2, e["n"])] + [("BDcbd", 1, p - 1 | s << 7) for p, s in zip(e["prec"], e["sgnd"])]


SEGS = (Siz, Cod, Coc, Qcd, Qcc, Poc, Rgn, Com, Tlm, TlmEntry, Sot, Soc, Eoc, Mct, Mcc, Mco, Cbd)


def stop(P):
    keep = {J + x for x in ENTER}

    def f(p):
        if p in keep:
            return False
        return p.startswith(("stream::", "j2k::opj_", "cio::opj_", "malloc::", "tcd::", "function_list", "pi::", "image::", "jp2::"))
    return f


class Machine:
    """a writer or reader interpreted with its byte accesses recorded"""

    def __init__(self, P, f, seg, reading, hdr):
        self.P, self.f, self.seg, self.hdr = P, f, seg, hdr
        self.args = [("S", f.locals[i], "arg", i) for i in range(1, f.argc + 1)]
        self.N = Names(P, self.args)
        self.src = [i for i, a in enumerate(self.args) if reading and P.types[a[1]].get("k") == "ptr"][:1]
        self.src = self.src[0] if self.src else 0
        self.recs, self.data, self.backs = [], [], []
        self.A = Api(P, stop(P), havoc=False, max_states=4000, peel=seg.peel if reading else 0)
        I = self.I = self.A.interp()
        kern.minmax(I)
        I.sign_inv = True
        self.oc = I.on_call
        I.on_call = self.on_call
        self.u32 = P.tybyname["u32"]
        I.on_store = self.on_store
        if reading:
            I.loop_events = True
            I.on_loop_back = self.on_back
        st = State(I.cx)
        st.notes["w"] = ()
        st.notes["sto"] = {}
        self.outs = [(s, v) for s, v in I.exec_fn(f, self.args, st) if not s.dead and s.feasible()]

    def on_call(self, I, st, path, key, a, rt, t, fn, bb):
        nm = (path or "").split("::")[-1]
        unit = ("agg", "tuple", 0, ())
        if path in WRITES:
            r, o = off(a[0])
            w = K(WRITES[path]) if WRITES[path] else a[2]
            self.rec(I, st, "w", r, o, w, a[1])
            return [(st, unit)]
        if nm in ("memcpy", "memmove"):
            r, o = off(a[0])
            self.rec(I, st, "blk", r, o, a[2], a[1])
            r, o = off(a[1])
            if r == self.args[self.src] and o is not None:
                d = dict(st.notes["sto"])
                d[("copy", ())] = o
                st.notes["sto"] = d
            return [(st, a[0])]
        if nm == "memset":
            return [(st, a[0])]
        if path == "cio::opj_read_bytes":
            r, o = off(a[0])
            if o is not None:
                n = a[2][1] if a[2][0] == "k" else a[2]
                v = ("S", self.u32, "rd", o, n)
                if a[2][0] == "k":
                    st.add_cons(sub(K(256 ** n - 1), v))
                wrp(I, st, a[1], v)
                return [(st, unit)]
        if path == "stream::opj_stream_write_data":
            if not I.record and st.feasible():
                r, o = off(a[1])
                self.data.append((st.copy(), r, o, a[2]))
                st.notes["sent"] = st.notes.get("sent", 0) + 1
            n = I.fresh(st, rt, "sent", fn.key, bb)
            return [(st, n)]
        if path == "malloc::opj_realloc":
            v = I.fresh(st, rt, "realloc", fn.key, bb)
            st.notes["room"] = dict(st.notes.get("room", {}), **{repr(v): a[1]})
            return [(st, v)]
        return self.oc(I, st, path, key, a, rt, t, fn, bb)

    def rec(self, I, st, kind, r, o, w, v):
        if I.record or not st.feasible():
            return
        i = len(self.recs)
        self.recs.append((kind, st.copy(), r, o, w, v))
        st.notes["w"] = st.notes["w"] + (i,)

    def on_store(self, I, st, base, path, v):
        if base[0] == "L":
            return
        self.N.stored(v)
        n, ix = self.N.place(st, base, path)
        d = dict(st.notes["sto"])
        d[(n or str(base)[:60], ix)] = v
        st.notes["sto"] = d

    def on_back(self, s, fn, h, lid):
        if s.feasible():
            self.backs.append((s, lid))


class View:
    """a recorded state's expressions under parameter assignments"""

    def __init__(self, M, st, exprs, deep=False):
        self.M, self.st, self.exprs = M, st, exprs
        self.leaves = {}
        self.ok = True
        for e in exprs:
            if not leaves(M.N, e, self.leaves):
                self.ok = False
        self.ks = []
        for e in exprs:
            contains(e, self.seek)
        self.more = []
        if deep:
            have, self.ks = self.ks, []
            for c in list(st.facts) + list(st.cons):
                contains(c, self.seek)
            self.more, self.ks = self.ks, have
        # what the path says
        self.guards = []
        for c in st.cons:
            self.guard(c, None)
        for c, v in st.facts.items():
            self.guard(c, v)

    def seek(self, x):
        if isinstance(x, tuple) and len(x) > 3 and self.isk(x) and x not in self.ks:
            self.ks.append(x)
        return False

    def isk(self, x):
        return x[0] == "S" and x[2] == "k" and x[1] == -1

    def guard(self, c, v):
        out = {}
        try:
            if not leaves(self.M.N, c, out):
                return
        except Exception:
            return
        have, self.ks = self.ks, []
        contains(c, self.seek)
        mine, self.ks = self.ks, have
        if any(k not in self.ks and k not in self.more for k in mine):
            return
        for x in list(out):
            n = out[x]
            if not self.isk(x) and (not isinstance(n, tuple) or n[0] is None):
                return
        self.guards.append((c, v, out, mine))

    def value(self, x, n, env, val):
        """value of a leaf"""
        if x in val:
            return val[x]
        t, ix = n
        iv = []
        for i in ix:
            out = {}
            if not leaves(self.M.N, i, out):
                return None
            if not self.fill(out, env, val):
                return None
            try:
                iv.append(ev(i, val))
            except Unk:
                return None
        if t.startswith("="):
            return int(t[1:])
        if t.startswith("@"):
            b = self.M.seg.bytes(env)
            o, n = iv[0] + self.M.hdr, iv[1] if t == "@" else int(t[1:])
            if o < 0 or o + n > len(b):
                return None
            r = 0
            for x2 in b[o:o + n]:
                r = r * 256 + (x2 or 0)
            return r
        return self.M.seg.leaf(env, t, tuple(iv))

    def fill(self, out, env, val):
        for x, n in out.items():
            if x in val:
                continue
            if self.isk(x) or not isinstance(n, tuple) or n[0] is None:
                return False
            v = self.value(x, n, env, val)
            if v is None:
                return False
            val[x] = v
        return True

    def levels(self):
        """what the path says, by the last loop counter it speaks of"""
        order = self.ks + [k for k in self.more if k not in self.ks]
        lv = [[] for _ in range(len(order) + 1)]
        for g in self.guards:
            lv[max([order.index(k) + 1 for k in g[3]], default=0)].append(g)
        return order, lv

    def points(self, env, kmax):
        """assignments of the loop counters and leaves that agree with the path"""
        if not hasattr(self, "lv"):
            self.order, self.lv = self.levels()

        def holds(gs, val):
            for c, v, out, _ in gs:
                if not self.fill(out, env, val):
                    continue
                try:
                    r = ev(c, val)
                except Unk:
                    continue
                if v is None and r < 0 or v is not None and bool(r) != bool(v):
                    return False
            return True

        def down(i, val):
            if i == len(self.order):
                yield val
                return
            for n in range(kmax + 1):
                v = dict(val)
                v[self.order[i]] = n
                if holds(self.lv[i + 1], v):
                    if i + 1 >= len(self.ks):
                        # counters of loops already over: one way through them is enough
                        for x in down(i + 1, v):
                            yield x
                            break
                        else:
                            continue
                        if i >= len(self.ks):
                            return
                    else:
                        yield from down(i + 1, v)
        base = {}
        if holds(self.lv[0], base):
            yield from down(0, base)

    def eval(self, e, env, val):
        out = {}
        if not leaves(self.M.N, e, out):
            raise Bad("cannot be read: %s" % str(e)[:80])
        for x, n in out.items():
            if x not in val and not self.fill({x: n}, env, val):
                raise Bad("depends on %s" % (n[0] if isinstance(n, tuple) and n[0] else str(x)[:80]))
        try:
            return ev(e, val)
        except Unk as u:
            raise Bad("cannot be evaluated (%s)" % u)


def writer(R, P, seg, rng):
    G = "written"
    f = P.find(J + seg.writer)
    seg.mode = "w"
    M = Machine(P, f, seg, False, 0)
    name = seg.writer
    views = {}
    n = 0
    bads = {}

    def bad(msg):
        bads[msg] = bads.get(msg, 0) + 1

    def spots(i, env, kmax):
        """bytes record i writes under env: {position: value}"""
        kind, st, r, o, w, v = M.recs[i]
        V = views.get(i)
        if V is None:
            V = views[i] = View(M, st, [x for x in ((o, w, v) if kind == "w" else (o, w)) if x is not None])
        res = {}
        for val in V.points(env, kmax):
            if o is None:
                raise Bad("writes at an unknown place")
            p, c = V.eval(o, env, val), V.eval(w, env, val)
            if kind == "w":
                x = V.eval(v, env, val)
                for j, y in enumerate(be(x, c)):
                    res[p + j] = y
            else:
                nm, ix = M.N.name(strip_casts(v))
                src = seg.leaf(env, "*%s" % nm, ())
                if src is None:
                    raise Bad("copies from %s" % nm)
                for j in range(c):
                    res[p + j] = src[j] if j < len(src) else -1
        return res
    ends = [(s, None, None, None) for s, v in M.outs if v != K(0) and not s.notes.get("sent")] if not M.data else []
    if seg.written:
        ends = []
        for s, v in M.outs:
            if v == K(0):
                continue
            ends.append((s, None, K(0), rdp(M.I, s, M.args[seg.written - 1])))
    elif seg.cursor:
        ends = []
        for s, v in M.outs:
            c = [v for (t, ix), v in s.notes["sto"].items() if t == seg.cursor]
            ends.append((s, None, K(0), off(c[0])[1] if c else K(0)))
    elif M.data:
        ends = M.data
        for s, v in M.outs:
            if v != K(0) and s.notes.get("sent") != 1:
                bad("succeeds without one write to the stream")
    hits = 0
    EV = [View(M, s, [x for x in (o, z) if x is not None]) for s, r, o, z in ends]
    for env in seg.envs(rng):
        want = seg.bytes(env)
        kmax = env.get("kmax", 4)
        got = {}
        try:
            for i in range(len(M.recs)):
                got[i] = spots(i, env, kmax)
                for p, y in got[i].items():
                    if not 0 <= p < len(want):
                        raise Bad("writes at %d of a segment of %d bytes" % (p, len(want)))
                    if want[p] is not None and want[p] != y:
                        raise Bad("writes another value than %s" % seg.at(env, p))
                    n += 1
            for (s, r, o, z), V in zip(ends, EV):
                for val in V.points(env, kmax):
                    hits += 1
                    if o is None or V.eval(o, env, val) != 0:
                        raise Bad("sends from elsewhere than the segment's start")
                    if z is not None and V.eval(z, env, val) != len(want):
                        raise Bad("sends %s bytes than the segment has" % ("fewer" if V.eval(z, env, val) < len(want) else "more"))
                    own = set(s.notes["w"])
                    cov = set()
                    for i in range(len(M.recs)):
                        if i in own or views[i].ks:
                            if r is not None and strip_casts(M.recs[i][2]) != strip_casts(r):
                                continue
                            cov |= set(got[i])
                    miss = [p for p in range(len(want)) if p not in cov and want[p] is not None]
                    if miss:
                        raise Bad("leaves out %s" % seg.at(env, miss[0]))
                    n += 1
        except Bad as b:
            bad(str(b))
    if not hits:
        bad("is never complete")
    # room: what the path asked the allocator for, or found the buffer to have
    for i, (kind, st, r, o, w, v) in enumerate(M.recs):
        base = strip_casts(r)
        size = st.notes.get("room", {}).get(repr(base))
        least = [size] if size is not None else []
        if base[0] == "S" and base[2] == "fld" and base[4] == "m_header_tile_data":
            hs = ("S", M.u32, "fld", base[3], "m_header_tile_data_size")
            least = [K(HEADER_ROOM)] + [c[3] for c, t in st.facts.items() if c[0] == "cmp" and c[1] == "lt" and c[2] == hs and not t]
        if not least:
            continue
        V = View(M, st, [o, w] + least)
        ok = True
        try:
            for env in seg.envs(random.Random(3)):
                for val in V.points(env, env.get("kmax", 4)):
                    ok = ok and V.eval(o, env, val) + V.eval(w, env, val) <= max(V.eval(x, env, val) for x in least)
        except Bad:
            ok = False
        R.check("room", ok, "%s:writes past the room it has" % name, "opj_j2k_%s writes past the room prepared for it" % name, "%s access %d" % (name, i))
    if not bads:
        for _ in range(n):
            R.ok(G, "%s" % name)
    for b in bads:
        R.fail(G, "%s:%s" % (name, b), "opj_j2k_%s %s" % (name, b))
    R.analysed[seg.writer] = "%d accesses, %d ends" % (len(M.recs), len(ends))


def reader(R, P, seg, rng):
    G = "read"
    f = P.find(J + seg.reader)
    seg.mode = "r"
    M = Machine(P, f, seg, True, seg.hdr)
    name = seg.reader
    n = 0
    bads = {}

    def keys(V, env, val, sto):
        res = {}
        for (t, ix), v in sto.items():
            t = t or "?"
            if t not in seg.fields:
                continue
            iv = [V.eval(i, env, val) for i in ix] if not seg.noix else ()
            res[seg.key(t, tuple(iv))] = V.eval(v, env, val)
        return res
    rounds = []
    for s, lid in M.backs:
        ksym = ("S", -1, "k", lid)
        sto = {k: v for k, v in s.notes["sto"].items() if seg.noix or any(contains(i, lambda x: x == ksym) for i in k[1])}
        if sto:
            rounds.append((s, sto))
    exits = [(s, s.notes["sto"]) for s, v in M.outs if v != K(0)]
    RV = [View(M, s, [x for k, v in sto.items() if k[0] in seg.fields for x in (() if seg.noix else k[1]) + (v,)]) for s, sto in rounds]
    XV = [View(M, s, [x for k, v in sto.items() if k[0] in seg.fields for x in (() if seg.noix else k[1]) + (v,)], deep=True) for s, sto in exits]
    hits = 0
    for env in seg.envs(rng):
        want = seg.expect(env)
        kmax = env.get("kmax", 4)
        try:
            inloop = set()
            for (s, sto), V in zip(rounds, RV):
                for val in V.points(env, kmax):
                    for k, x in keys(V, env, val, sto).items():
                        if k not in want:
                            if seg.extra(env, k):
                                continue
                            raise Bad("sets %s" % k[0])
                        if want[k] is not None and want[k] != x:
                            raise Bad("does not set %s to the value read" % k[0])
                        inloop.add(k)
                        n += 1
            for (s, sto), V in zip(exits, XV):
                for val in V.points(env, kmax):
                    hits += 1
                    have = keys(V, env, val, sto)
                    for k, x in have.items():
                        if k not in want:
                            if seg.extra(env, k):
                                continue
                            raise Bad("sets %s" % k[0])
                        if want[k] is not None and want[k] != x:
                            raise Bad("does not set %s to the value read" % k[0])
                        n += 1
                    miss = [k for k in want if k not in have and k not in inloop]
                    if miss:
                        raise Bad("does not set %s" % miss[0][0])
        except Bad as b:
            bads[str(b)] = 1
    if not hits:
        bads["never accepts a segment"] = 1
    if not bads:
        for _ in range(n):
            R.ok(G, name)
    for b in bads:
        R.fail(G, "%s:%s" % (name, b), "opj_j2k_%s %s" % (name, b))
    R.analysed[seg.reader] = "%d ends, %d rounds" % (len(exits), len(rounds))


def step(p, j):
    """pointer j elements further"""
    if p[0] != "ptr":
        return ("ptr", p, (("i", K(j)),), None)
    path = p[2]
    if path and path[-1][0] == "i":
        return ("ptr", p[1], path[:-1] + (("i", add(path[-1][1], K(j))),), None)
    return ("ptr", p[1], path + (("i", K(j)),), None)


def primitives(R, P):
    """the byte writers and readers put the most significant byte first"""
    G = "primitive"
    u8 = P.tybyname["u8"]

    def bytes_of(v, n, fl):
        return [("S", u8, "fb", v, i) if fl else ("rem", ("div", v, K(256 ** (n - 1 - i))), K(256)) for i in range(n)]

    for nm, n, fl in [("bytes", k, 0) for k in (1, 2, 3, 4)] + [("double", 8, 1), ("float", 4, 1)]:
        for way in ("write", "read"):
            f = P.find("cio::opj_%s_%s" % (way, nm))
            A = Api(P, lambda p: False, havoc=False, max_states=50, unroll=10)
            I = A.interp()
            oc = I.on_call

            def on_call(I, st, path, key, a, rt, t, fn, bb):
                w = (path or "").split("::")[-1]
                if w in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
                    x = bytes_of(a[0], 4 if nm == "bytes" else n, fl)
                    return [(st, ("arr", rt, ("consts", tuple(x if w == "to_be_bytes" else x[::-1])), ()))]
                if w in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
                    x = [I.elem(st, a[0], K(i)) for i in range(4 if nm == "bytes" else n)]
                    if w != "from_be_bytes":
                        x = x[::-1]
                    if fl:
                        return [(st, ("S", rt, "from") + tuple(x))]
                    v = K(0)
                    for i, b in enumerate(x):
                        v = add(v, mul(K(256 ** (len(x) - 1 - i)), b))
                    return [(st, v)]
                if w in ("copy_from_slice", "clone_from_slice") and a[0][0] == "ptr" and a[0][3] is not None and a[0][3][0] == "k":
                    c = a[0][3][1]
                    if a[1][0] != "ptr" or a[1][3] != a[0][3]:
                        return []
                    for i in range(c):
                        wrp(I, st, step(a[0], i), rdp(I, st, step(a[1], i)))
                    return [(st, ("agg", "tuple", 0, ()))]
                return oc(I, st, path, key, a, rt, t, fn, bb)
            I.on_call = on_call
            buf, val = ("S", f.locals[1], "arg", 1), ("S", f.locals[2], "arg", 2)
            args = [buf, val] + ([K(n)] if nm == "bytes" else [])
            st = State(I.cx)
            outs = [s for s, v in I.exec_fn(f, args, st) if not s.dead and s.feasible()]
            good = len(outs) == 1
            what = "opj_%s_%s" % (way, nm)
            for s in outs:
                if way == "write":
                    for i in range(n):
                        got = rdp(I, s, step(buf, i))
                        if fl:
                            good = good and got == ("S", u8, "fb", val, i)
                            continue
                        for x in (0, 1, 0x01020304, 0xFFEEDDCC, 0x80, 0x8000):
                            try:
                                good = good and ev(got, {val: x}) == x >> 8 * (n - 1 - i) & 255
                            except Unk:
                                good = False
                else:
                    got = rdp(I, s, val)
                    src = [rdp(I, s, step(buf, i)) for i in range(n)]
                    alt = [("S", None, "el", src[0], K(i)) for i in range(n)]
                    if fl:
                        good = good and got[0] == "S" and got[2] == "from" and list(got[3:]) in (src, alt)
                        continue
                    for k in range(6):
                        bs = [(17 * i + 91 * k + 255 * (k % 2)) % 256 for i in range(n)]
                        try:
                            good = good and ev(got, dict(zip(src + alt, bs + bs))) == sum(b << 8 * (n - 1 - i) for i, b in enumerate(bs))
                        except Unk:
                            good = False
            R.check(G, good, "%s:order" % what, "%s does not take %d byte(s) most significant first" % (what, n), "%s %d" % (what, n))


def run(R):
    sys.setrecursionlimit(20000)
    P = Prog("openjp2", "release")
    primitives(R, P)
    only = os.environ.get("C21_ONLY")
    for cls in SEGS:
        if only and cls.__name__ not in only.split(","):
            continue
        if cls.writer:
            writer(R, P, cls(), random.Random(7))
        if cls.reader:
            reader(R, P, cls(), random.Random(7))
    if not only:
        R.floor("written", 3000)
        R.floor("read", 3000)
        R.floor("primitive", 12)
