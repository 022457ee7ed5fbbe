"""C01: keywords and media types."""
from mir import Prog, Missing
from absint import *
from semtab import *
from checks import iiif_spec as S

LEVEL = "other"
TECHNIQUE = 'abstract interpretation of compiled MIR: string-test partitions compared with the IIIF 3.0 keyword table'
NOTE = "Exact over every word class the code's own tests can distinguish; trusts rustc's MIR and the documented meaning of std string functions."
EXPLANATION = ("The compiled (MIR) bodies of the parameter parsers are interpreted abstractly: every partition of the "
               "input by the code's own string tests is computed with its condition and result. The conditions are decided "
               "on one representative per class of words the code can tell apart (every constant any test compares with, "
               "every standard word, and their near misses) and each result is compared with the IIIF 3.0 table. "
               "The media type of every format variant is evaluated from the compiled function.")
ASSUMPTIONS = ["std string comparison, prefix and splitting functions have their documented meaning"]


def parser(P, ty):
    l = [f for f in P.fns.values() if f.path.endswith("FromStr for iiif::%s>::from_str" % ty) and f.inst is None]
    if len(l) != 1:
        raise Missing("FromStr for iiif::%s" % ty)
    return l[0]


def words(parts, extra):
    strs, chars, _, _ = consts_in(parts)
    ws = set()
    for w in set(extra) | strs | chars:
        ws.update(perturb(w))
    ws.update(["", "zz", "é", "日本", "jpeg", "tiff", "grey", "colour", "native", "max", "full", "square", "default.jpg",
               "JPG", "Default"])
    return sorted(ws)


def run(R):
    P = Prog("laya")
    n = 0
    for ty, spec, std in (("Quality", S.quality, S.QUALITY), ("Format", S.format_, S.FORMAT)):
        fn = parser(P, ty)
        I = StrInterp(P)
        args, parts = partitions(I, fn)
        R.analysed[fn.path] = {"partitions": len(parts), "steps": I.steps}
        reps = words(parts, std)
        table(R, "words of " + ty, I, parts, lambda r: {args[0]: r}, reps, spec, ty)
    # every word is recognised by exactly one partition
    for ty, spec, std, pad in (("Region", S.region, ["full", "square", "pct:"], ""), ("Size", S.size, ["max", "^max", "pct:", "^", "!"], "")):
        fn = parser(P, ty)
        I = StrInterp(P)
        args, parts = partitions(I, fn)
        R.analysed[fn.path] = {"partitions": len(parts), "steps": I.steps}
        reps = words(parts, std)
        table(R, "words of " + ty, I, parts, lambda r: {args[0]: r}, reps, spec, ty)
    # media types
    m = P.find("iiif::Format::mime") if "iiif::Format::mime" in P.bypath else P.find("Format::mime")
    fmt = P.adts.get("iiif::Format")
    if fmt is None:
        raise Missing("iiif::Format")
    names = [v["n"] for v in fmt["v"]]
    for v, mime in S.MIME.items():
        if v not in names:
            R.fail("media types", "format:" + v, "the format variant %s is missing" % v)
            continue
        I = StrInterp(P)
        tid = P.pointee(m.locals[1])
        st = State(I.cx)
        val = ("agg", "iiif::Format", names.index(v), ())
        if tid is not None:
            st.mem[("L", ("arg",), 0)] = (tid, val)
            a = ("ptr", ("L", ("arg",), 0), (), None)
        else:
            a = val
        _, parts = partitions(I, m, [a], st)
        got = set()
        for p in parts:
            if p.panic:
                got.add("PANIC")
                continue
            try:
                E = Eval(I, {})
                E.st = p.st
                got.add(E.ev(I.term(p.st, p.ret)))
            except Unknown as u:
                got.add("undecided %s" % (u,))
        R.check("media types", got == {mime}, "mime:" + v, "Format::%s is reported as %s, registered is %s" % (v, sorted(map(str, got)), mime),
                "%s -> %s" % (v, mime))
    for v in names:
        if v not in S.MIME:
            R.fail("media types", "extra:" + v, "format variant %s has no registered media type in the table" % v)
    R.floor("words of Quality", 60)
    R.floor("words of Format", 80)
    R.floor("words of Region", 40)
    R.floor("words of Size", 40)
    R.floor("media types", 7)
