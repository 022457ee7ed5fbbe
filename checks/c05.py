"""C05: every HTTP request is answered without panicking."""
import re
from mir import Prog, Missing
from absint import *
from semtab import *
from httpmodel import *
from checks.c01 import parser

LEVEL = "other"
TECHNIQUE = "panic-reachability obligations discharged by abstract interpretation of the handler's MIR"
NOTE = 'Every panicking construct in the parsers and handler is an obligation; library internals other than the named panicking calls are trusted.'
EXPLANATION = ("Every parser of a request parameter and the whole of handle_request (image_request, decode_image_request, resolve, the response "
               "builders and the Display code of the error texts) are interpreted abstractly on symbolic input, in the debug and the release "
               "compilation. Every construct that can panic - panic!/unimplemented!/assert, unwrap and expect, arithmetic and index checks, string "
               "slicing and splitting at a byte offset - is an obligation: it must be unreachable, or its condition follow from the path's facts "
               "(a prefix test, a find result, a proved range).")
ASSUMPTIONS = ["library functions outside the named panicking ones do not panic on valid arguments", "allocation succeeds"]

PANICKY = {"unwrap", "expect", "unwrap_err", "expect_err", "index", "index_mut", "split_at", "split_at_mut", "remove", "swap_remove", "insert_str",
           "copy_from_slice", "clone_from_slice", "borrow_mut", "from_static", "drain", "split_off", "unwrap_unchecked", "swap", "chunks", "chunks_exact",
           "windows", "step_by", "from_digit", "get_unchecked", "truncate", "insert", "panic", "block_on", "exit", "abort", "unreachable_unchecked",
           "copy_within", "rotate_left", "rotate_right", "select_nth_unstable", "split_inclusive_at", "panic_any", "resume_unwind", "to_digit", "clamp", "div_ceil"}


class PInterp(HttpInterp):
    def opaque(self, st, path, key, args, rt, t, fn, bb):
        last = ngen(path).rsplit("::", 1)[-1]
        if last in PANICKY and self.on_panic and not self.record:
            self.on_panic(self, st, "call of %s, which can panic" % ngen(path), fn, bb, t)
        return super().opaque(st, path, key, args, rt, t, fn, bb)


def report(R, group, P, I, what):
    seen = set()
    for st, w, f, bb, t in I.panics:
        if st.dead:
            continue
        k = "%s:%s" % (f.path, w)
        if k in seen:
            continue
        seen.add(k)
        fs = [(c, v) for c, v in st.facts.items()][-4:]
        R.fail(group, k, "%s: %s in %s is reachable (last conditions: %s)" % (what, w, f.short, repr(fs)[:300]))
    return not seen


def run(R):
    import httpmodel
    for mode in ("debug", "release"):
        P = Prog("laya", mode)
        checked = []
        for X in ("Region", "Size", "Rotation", "Quality", "Format"):
            fn = parser(P, X)
            I = PInterp(P, parse_ops=False, cut=False)
            st = State(I.cx)
            args = [I.sym(t, "arg", i) for i, t in enumerate(fn.locals[1:fn.argc + 1])]
            outs = [(s, r) for s, r in I.exec_fn(fn, args, st) if not s.dead]
            okp = report(R, "parser", P, I, "parsing a %s" % X)
            if okp:
                R.ok("parser", "%s (%s): %d partitions without panic" % (fn.path, mode, len(outs)))
            R.analysed["%s (%s)" % (fn.path, mode)] = len(outs)
            # the text of every error it can produce
            errs = 0
            for s, r in outs:
                if not (r[0] == "agg" and r[2] == 1 and r[1].endswith("Result")):
                    continue
                et = P.fields(fn.locals[0], 1)[0][1]
                d = [f for f in P.local_fns() if f.path.endswith("::fmt") and (f.trait or "").endswith("fmt::Display") and f.selfty == P.tn(et) and f.inst is None]
                if len(d) != 1:
                    raise Missing("Display of %s" % P.tn(et))
                checked.append(d[0].key)
                I.panics = []
                p = I.newobj(s, et, ("err", errs), r[3][0])
                I.exec_fn(d[0], [p, I.sym(d[0].locals[2], "fmt")], s)
                if report(R, "error text", P, I, "the error text of a refused %s" % X):
                    R.ok("error text", "%s (%s)" % (X, mode))
                errs += 1
        I, parts = run_handler(P, cls=PInterp, display=True, cut=False, no_inline=set(checked))
        if report(R, "handler", P, I, "handling a request"):
            R.ok("handler", "handle_request (%s): %d partitions, all end in a response" % (mode, len(parts)))
        R.check("handler", sum(1 for p in parts if not p.panic) >= 3, "nopath", "handle_request has fewer than three answering partitions", "answers (%s)" % mode)
        for p in parts:
            if not p.panic:
                v = I.term(p.st, p.ret)
                R.check("answer", v[0] == "agg" and v[2] == 0 and v[3][0][0] == "agg" and v[3][0][1] == "@resp", "noresponse", "a partition of handle_request ends in %s, not a response" % repr(v)[:200], "partition ends in a response")
        R.analysed["external calls (%s)" % mode] = sorted(I.externals)
    R.floor("parser", 10)
    R.floor("error text", 20)
    R.floor("handler", 4)
    R.floor("answer", 20)
