"""C02: numeric ranges."""
from mir import Prog, Missing
from absint import *
from semtab import *
from checks import iiif_spec as S
from checks.c01 import parser

LEVEL = "other"
TECHNIQUE = 'abstract interpretation of compiled MIR: interval partitions of every numeric position compared with the range table'
NOTE = "Exact over every interval cut by the code's or the standard's bounds, incl. NaN and infinities; trusts std number parsing."
EXPLANATION = ("The compiled parsers of region, size and rotation are interpreted abstractly with symbolic numbers; every "
               "partition carries the comparisons that lead to it (NaN-aware). The number line is cut at every constant "
               "any of these comparisons uses and at every bound of the specification, one representative per piece and "
               "per special value (NaN, infinities, signed zero, largest and smallest magnitudes, unparsable) is decided, alone "
               "and in pairs of positions, and the result compared with the IIIF 3.0 range table.")
ASSUMPTIONS = ["f32/u32 FromStr accept exactly Rust's documented literal grammar, rounding to nearest"]


def run(R):
    P = Prog("laya")
    # rotation
    fn = parser(P, "Rotation")
    I = StrInterp(P)
    args, parts = partitions(I, fn)
    strs, chars, fl, ints = consts_in(parts)
    toks = float_tokens(fl | {"0", "360", "100"})
    pre = ["", "!", "!!", "^", "é"] + sorted(strs | chars)
    reps = sorted({a + b for a in pre for b in toks})
    R.analysed[fn.path] = {"partitions": len(parts), "constants": sorted(fl)}
    table(R, "rotation", I, parts, lambda r: {args[0]: r}, reps, S.rotation, "Rotation")
    # size
    fn = parser(P, "Size")
    I = StrInterp(P)
    args, parts = partitions(I, fn)
    strs, chars, fl, ints = consts_in(parts)
    R.analysed[fn.path] = {"partitions": len(parts), "constants": sorted(fl) + sorted(ints)}
    ft = float_tokens(fl | {"0", "100", "1"})
    it = int_tokens(ints | {0, 1, 100})
    reps = {a + "pct:" + b for a in ("", "^", "!", "^!", "!^") for b in ft}
    for a in ("", "^", "!", "^!", "!^", "^^"):
        for x in it:
            for y in ("", "5", "0", "abc", "1,"):
                reps.add(a + x + "," + y)
                reps.add(a + y + "," + x)
            reps.add(a + x)
    table(R, "size", I, parts, lambda r: {args[0]: r}, sorted(reps), S.size, "Size")
    # region
    fn = parser(P, "Region")
    I = StrInterp(P)
    args, parts = partitions(I, fn)
    strs, chars, fl, ints = consts_in(parts)
    R.analysed[fn.path] = {"partitions": len(parts), "constants": sorted(fl) + sorted(ints)}
    ft = float_tokens(fl | {"0", "100"})
    it = int_tokens(ints | {0, 1, 100})
    reps = set()
    for pre, toks in (("pct:", ft), ("", it)):
        good = "7"
        for i in range(4):
            for a in toks:
                f = [good] * 4
                f[i] = a
                reps.add(pre + ",".join(f))
                for j in range(i + 1, 4):
                    for b in ("0", "1", "100", "200", "nan", "x", "4294967295"):
                        g = list(f)
                        g[j] = b
                        reps.add(pre + ",".join(g))
        for n in range(0, 8):
            reps.add(pre + ",".join([good] * n))
            reps.add(pre + ",".join([good] * n) + ",")
            reps.add("," + pre + ",".join([good] * n))
        reps.add(pre + "1;2;3;4")
        reps.add(pre + "0,0,0,0")
        reps.add(pre + "60,60,60,60")
    table(R, "region", I, parts, lambda r: {args[0]: r}, sorted(reps), S.region, "Region")
    R.floor("rotation", 150)
    R.floor("size", 300)
    R.floor("region", 500)
