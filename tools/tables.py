"""Tables of T.800 / T.814 computed from their definitions."""
import math

# T.800 Table C.2: Qe, NMPS, NLPS, SWITCH
_QE = [(0x5601, 1, 1, 1), (0x3401, 2, 6, 0), (0x1801, 3, 9, 0), (0x0AC1, 4, 12, 0), (0x0521, 5, 29, 0), (0x0221, 38, 33, 0),
       (0x5601, 7, 6, 1), (0x5401, 8, 14, 0), (0x4801, 9, 14, 0), (0x3801, 10, 14, 0), (0x3001, 11, 17, 0), (0x2401, 12, 18, 0),
       (0x1C01, 13, 20, 0), (0x1601, 29, 21, 0), (0x5601, 15, 14, 1), (0x5401, 16, 14, 0), (0x5101, 17, 15, 0), (0x4801, 18, 16, 0),
       (0x3801, 19, 17, 0), (0x3401, 20, 18, 0), (0x3001, 21, 19, 0), (0x2801, 22, 19, 0), (0x2401, 23, 20, 0), (0x2201, 24, 21, 0),
       (0x1C01, 25, 22, 0), (0x1801, 26, 23, 0), (0x1601, 27, 24, 0), (0x1401, 28, 25, 0), (0x1201, 29, 26, 0), (0x1101, 30, 27, 0),
       (0x0AC1, 31, 28, 0), (0x09C1, 32, 29, 0), (0x08A1, 33, 30, 0), (0x0521, 34, 31, 0), (0x0441, 35, 32, 0), (0x02A1, 36, 33, 0),
       (0x0221, 37, 34, 0), (0x0141, 38, 35, 0), (0x0111, 39, 36, 0), (0x0085, 40, 37, 0), (0x0049, 41, 38, 0), (0x0025, 42, 39, 0),
       (0x0015, 43, 40, 0), (0x0009, 44, 41, 0), (0x0005, 45, 42, 0), (0x0001, 45, 43, 0), (0x5601, 46, 46, 0)]


def mq_states():
    """(qeval, mps, nmps, nlps), two rows (mps 0, 1) per state"""
    out = []
    for q, nm, nl, sw in _QE:
        for mps in (0, 1):
            out.append([q, mps, 2 * nm + mps, 2 * nl + (mps ^ sw)])
    return out


CTXNO = dict(T1_CTXNO_ZC=0, T1_CTXNO_SC=9, T1_CTXNO_MAG=14, T1_CTXNO_AGG=17, T1_CTXNO_UNI=18, T1_NUMCTXS=19)

# neighbour bits of the zero coding index
NW, N, NE, W, THIS, E, SW, S, SE = (1 << i for i in range(9))


def zc():
    """T.800 Table D.1; rows in sub-band order LL, HL, LH, HH"""
    out = []
    for band in range(4):
        row = []
        for f in range(512):
            h = bool(f & W) + bool(f & E)
            v = bool(f & N) + bool(f & S)
            d = bool(f & NW) + bool(f & NE) + bool(f & SE) + bool(f & SW)
            if band == 1:
                h, v = v, h
            if band < 3:
                n = 8 if h == 2 else (7 if v else 6 if d else 5) if h == 1 else (2 + v if v else min(d, 2))
            else:
                hv = h + v
                n = 8 if d >= 3 else (7 if hv else 6) if d == 2 else (3 + min(hv, 2)) if d == 1 else min(hv, 2)
            row.append(n)
        out.append(row)
    return out


def sc():
    """T.800 Tables D.2/D.3: sign context (9..13) and sign prediction bit.
    index bits: 0 sgn W, 1 sig N, 2 sgn E, 3 sig W, 4 sgn N, 5 sig E, 6 sgn S, 7 sig S"""
    ctx, xor = [], []
    tab = {(1, 1): (13, 0), (1, 0): (12, 0), (1, -1): (11, 0), (0, 1): (10, 0), (0, 0): (9, 0), (0, -1): (10, 1),
           (-1, 1): (11, 1), (-1, 0): (12, 1), (-1, -1): (13, 1)}
    for f in range(256):
        c = lambda sig, sgn: 0 if not f & (1 << sig) else (-1 if f & (1 << sgn) else 1)
        h = max(-1, min(1, c(3, 0) + c(5, 2)))
        v = max(-1, min(1, c(1, 4) + c(7, 6)))
        a, b = tab[(h, v)]
        ctx.append(a)
        xor.append(b)
    return ctx, xor


def nmsedec():
    """squared-error decrease when a bit-plane of a sample is coded (7 bits, 6 of them fractional), times 8192"""
    F = 64.0
    q = lambda x: max(0, int(math.floor(x * F + 0.5) / F * 8192.0))
    r = {k: [] for k in ("lut_nmsedec_sig", "lut_nmsedec_sig0", "lut_nmsedec_ref", "lut_nmsedec_ref0")}
    for i in range(128):
        t = i / F
        r["lut_nmsedec_sig"].append(q(t * t - (t - 1.5) ** 2))
        r["lut_nmsedec_sig0"].append(q(t * t))
        u = t - 1.0
        v = t - 1.5 if i & 64 else t - 0.5
        r["lut_nmsedec_ref"].append(q(u * u - v * v))
        r["lut_nmsedec_ref0"].append(q(u * u))
    return r


MEL_E = [0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5]      # T.814 Table 2


def uvlc_dec():
    """T.814 Table 3 by the next three bits (first bit in the least significant position):
    prefix length | suffix length << 2 | prefix value << 5"""
    out = []
    for b in range(8):
        if b & 1:
            l, s, u = 1, 0, 1
        elif b & 2:
            l, s, u = 2, 0, 2
        elif b & 4:
            l, s, u = 3, 1, 3
        else:
            l, s, u = 3, 5, 5
        out.append(l | s << 2 | u << 5)
    return out


def vlc_errors(name, t):
    out = []
    for cq in range(8):
        codes = {}
        for i in range(128):
            v = t[cq << 7 | i]
            l = v & 7
            if l == 0:
                out.append(("%s:%d:len" % (name, cq), "%s: context %d has an unassigned code word %d" % (name, cq, i)))
                continue
            codes.setdefault((i & ((1 << l) - 1), l), set()).add(v)
        for (c, l), vs in codes.items():
            if len(vs) != 1 or sum(1 for i in range(128) if i & ((1 << l) - 1) == c and t[cq << 7 | i] in vs) != 1 << (7 - l):
                out.append(("%s:%d:%d/%d" % (name, cq, c, l), "%s: context %d: code word %d of length %d is not a prefix-free code" % (name, cq, c, l)))
        sym = {}
        for (c, l), vs in codes.items():
            for v in vs:
                rho, uoff, ek, e1 = v >> 4 & 15, v >> 3 & 1, v >> 12 & 15, v >> 8 & 15
                if sym.setdefault((rho, uoff, ek, e1), (c, l)) != (c, l):
                    out.append(("%s:%d:sym%x" % (name, cq, v >> 3), "%s: context %d assigns two code words to one symbol" % (name, cq)))
                if ek & ~rho or e1 & ~ek or (not uoff and (ek or e1)):
                    out.append(("%s:%d:fields%x" % (name, cq, v), "%s: context %d: entry %#x has inconsistent fields" % (name, cq, v)))
    return out
