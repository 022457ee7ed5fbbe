"""C03: path shape, one-to-one mapping, decode once, debug == release."""
from mir import Prog, Missing
from absint import *
from semtab import *
from httpmodel import HttpInterp, HttpEval, run_handler
from checks import paths

LEVEL = "other"
TECHNIQUE = 'abstract interpretation of the path decoder in debug and release MIR, compared with the path grammar'
NOTE = 'Exact over path shape classes (segment counts, separators, encodings); trusts std splitting and urlencoding::decode.'
EXPLANATION = ("The function that turns a request path into an ImageRequest is interpreted abstractly in the debug and the release "
               "compilation; the path is one symbolic string, its splitting, decoding and parsing are terms over it, so every partition says "
               "which position of the path each parameter is taken from and how often it was decoded. On one representative per class of "
               "paths (every segment count, every position emptied, doubled, swapped, encoded, or refused by its own grammar, text before "
               "and after) the outcome is compared with the specification, in both compilations.")
ASSUMPTIONS = ["str splitting and urlencoding::decode behave as documented", "the parsers of single parameters are C01/C02's subject"]


def decoder(P):
    c = []
    for f in P.local_fns():
        if f.inst is not None or f.argc != 1:
            continue
        if P.tn(f.locals[1]) == "&str" and P.tn(f.locals[0]).startswith("std::result::Result<iiif::ImageRequest"):
            c.append(f)
    if len(c) > 1:
        n = [f for f in c if f.path.endswith("decode_image_request")]
        c = n or c
    if len(c) != 1:
        raise Missing("function &str -> Result<ImageRequest, _>: %d matches" % len(c))
    return c[0]


def want(path):
    d = paths.decode(path)
    if d is None:
        return ("Err",)
    n, r, s, o, q, f = d
    pr = lambda k, v: ("parsed", k, v)
    return ("Ok", ("ImageRequest", ("format", pr("Format", f)), ("identifier", n), ("quality", pr("Quality", q)), ("region", pr("Region", r)),
                   ("rotation", pr("Rotation", o)), ("size", pr("Size", s))))


def run(R):
    for mode in ("debug", "release"):
        P = Prog("laya", mode)
        fn = decoder(P)
        I = HttpInterp(P)
        args, parts = partitions(I, fn)
        strs, chars, _, _ = consts_in(parts)
        R.analysed["%s (%s)" % (fn.path, mode)] = {"partitions": len(parts)}
        pn = I.term(parts[0].st, args[0])

        class E(HttpEval):
            def __init__(self, I, env):
                super().__init__(I, env, method=1, path=None)
        table(R, mode, I, parts, lambda r: {pn: r}, paths.reps(sorted(x for x in strs if len(x) < 12)), want, "image request path (%s build)" % mode, evalcls=E)
        R.floor(mode, 400)
    # every public accessor of the decoded request returns its own field
    P = Prog("laya", "debug")
    n = 0
    for f in P.local_fns():
        if f.selfty == "iiif::ImageRequest" and f.trait is None and f.argc == 1 and f.inst is None:
            I = HttpInterp(P)
            a = P.adts["iiif::ImageRequest"]["v"][0]["f"]
            name = f.path.rsplit("::", 1)[1]
            if name not in [x["n"] for x in a]:
                continue
            rec = ("agg", "iiif::ImageRequest", 0, tuple(I.sym(x["t"], "field", x["n"]) for x in a))
            st = State(I.cx)
            outs = I.exec_fn(f, [I.newobj(st, P.pointee(f.locals[1]), "rec", rec)], st)
            for s, r in outs:
                tr = I.term(s, r)
                own = I.term(s, rec[3][[x["n"] for x in a].index(name)])
                okv = tr == own or (tr[0] == "S" and own in tr)
                R.check("accessor", okv, "accessor:%s" % name, "%s returns %s" % (f.path, repr(tr)[:200]), "%s" % f.path)
            n += 1
    R.floor("accessor", 1)
