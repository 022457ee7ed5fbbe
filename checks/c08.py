"""C08: status codes and the response body."""
from mir import Prog, Missing
from absint import *
from semtab import *
from httpmodel import *
from checks import paths

LEVEL = "other"
TECHNIQUE = 'abstract interpretation of the handler: outcome-to-status table'
NOTE = "All partitions of method, path and storage outcome; trusts hyper's builder."
EXPLANATION = ("handle_request is interpreted abstractly end to end with a symbolic method, path and storage outcome; each partition ends in a "
               "response whose status is a constant and lists the storage operations performed on the way. For every method and one representative "
               "per class of paths and both storage outcomes the status and the storage use are compared with the specification. "
               "ResponseBody::poll_frame is interpreted on a body that still has, and one that no longer has, its data.")
ASSUMPTIONS = ["hyper's Response builder reports the status and body it was given"]


def expect(method, path, storage):
    """(allowed statuses, may storage be touched, must it)"""
    if method != 1:
        return {404}, False
    if path.endswith("info.json"):
        return set(range(400, 600)), False
    if not path.startswith("/"):
        return {400, 404}, False
    d = paths.decode(path)
    if d is None:
        return {400}, False
    if d[0].startswith("./"):
        return ({200} if storage else set()) | set(range(400, 600)), True
    if not paths.inside(d[0]):
        return set(range(400, 600)), False
    return ({200} if storage else set(range(400, 600))), True


def run(R):
    for mode in ("debug", "release"):
        P = Prog("laya", mode)
        I, parts = run_handler(P)
        strs, chars, _, _ = consts_in(parts)
        R.analysed["http::handle_request (%s)" % mode] = {"partitions": len(parts)}
        allp = paths.reps(sorted(x for x in strs if len(x) < 12))
        some = [x for i, x in enumerate(allp) if i % 40 == 0] + ["/ident/full/max/0/default.jpg", "/ident/info.json", "*", "/"]
        work = [(1, r, s) for r in allp for s in (True, False)] + [(m, r, True) for m in range(10) if m != 1 for r in some]
        for m, rep, storage in work:
            E = HttpEval(I, {}, m, rep, "/srv/images", storage)
            want, touch = expect(m, rep, storage)
            hit, bad = 0, None
            for p in parts:
                try:
                    if not E.holds(p.st):
                        continue
                    hit += 1
                    if p.panic:
                        bad = "panics (%s in %s)" % (p.panic, p.where)
                        break
                    v = E.ev(I.term(p.st, p.ret))
                    st = v[3][0][3][0] if v[0] == "enum" and v[2] == 0 else None
                    opens = [e for e in p.st.evlist() if e[0] == "open"]
                    if st not in want:
                        bad = "is answered with status %s" % st
                        break
                    if opens and not touch:
                        bad = "touches storage"
                        break
                    if st == 200 and not opens:
                        bad = "is answered 200 without opening the image"
                        break
                except Unknown as u:
                    bad = "cannot be decided: %s" % str(u)[:200]
                    break
            if not hit and bad is None:
                bad = "is covered by no analysed partition"
            key = "status:%s:%s:%s" % (m, rep, storage)
            desc = "%s %s (storage %s)" % (METHODS[m], rep, "succeeds" if storage else "fails")
            R.check("status", bad is None, key, "%s %s; specified: %s%s" % (desc, bad, sorted(want)[:3], "" if touch else ", no storage access"), desc)
    R.floor("status", 1500)
    body(R, Prog("laya", "debug"))


METHODS = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "(extension)"]


class BodyInterp(HttpInterp):
    def str_model(self, st, path, key, args, rt, t, fn, bb, fr, depth):
        np = ngen(path)
        if np.endswith("body::Frame::data"):
            return [(st, app(rt, "frame", self.term(st, args[0])))]
        if np.endswith("Bytes::len"):
            return [(st, app(rt, "blen", self.term(st, args[0])))]
        return super().str_model(st, path, key, args, rt, t, fn, bb, fr, depth)


def body(R, P):
    adt = "hyper_compat::ResponseBody"
    d = P.adts.get(adt)
    if d is None:
        raise Missing(adt)
    fields = d["v"][0]["f"]
    bi = [i for i, f in enumerate(fields) if "Bytes" in P.tn(f["t"])]
    if len(bi) != 1 or not P.tn(fields[bi[0]]["t"]).startswith("std::option::Option<"):
        raise Missing("ResponseBody: the one Option<Bytes> field")
    bi = bi[0]
    opt = P.types[fields[bi]["t"]]["d"]
    fns = {f.path.rsplit("::", 1)[1]: f for f in P.local_fns() if f.selfty == adt and (f.trait or "").endswith("Body") and f.inst is None}
    if "poll_frame" not in fns:
        raise Missing("impl Body for ResponseBody")
    for has in (True, False):
        for name, f in sorted(fns.items()):
            I = BodyInterp(P)
            st = State(I.cx)
            tok = I.sym(P.fields(fields[bi]["t"], 1)[0][1], "token")
            fs = [I.sym(x["t"], "bf", i) for i, x in enumerate(fields)]
            fs[bi] = ("agg", opt, 1, (tok,)) if has else ("agg", opt, 0, ())
            stid = P.tybyname.get(adt)
            if stid is None:
                raise Missing("type %s" % adt)
            selfp = I.newobj(st, stid, "body", ("agg", adt, 0, tuple(fs)))
            base = selfp[1]
            outs = [(s, r) for s, r in I.exec_fn(f, [selfp] + [I.sym(t, "arg", i) for i, t in enumerate(f.locals[2:f.argc + 1])], st) if not s.dead]
            for s, what, g, b, t in I.panics:
                R.fail("body", "panic:%s" % name, "%s can panic: %s" % (f.path, what))
            if not outs:
                R.fail("body", "nopath:%s" % name, "%s: no path returns" % f.path)
            for s, r in outs:
                v = I.term(s, r)
                after = I.term(s, I.rd(s, base, I0))[3][bi]
                if name == "poll_frame":
                    ready = v[0] == "agg" and v[1].endswith("Poll") and v[2] == 0
                    inner = v[3][0] if ready else None
                    if has:
                        okv = ready and inner[2] == 1 and inner[3][0][0] == "agg" and inner[3][0][2] == 0 and inner[3][0][3][0][:1] == ("S",) and \
                            is_app(inner[3][0][3][0], "frame") and inner[3][0][3][0][4] == tok
                        R.check("body", okv, "poll_frame:first", "poll_frame of a full body yields %s, not one data frame with the body's bytes" % repr(v)[:200], "first poll yields the data frame")
                        R.check("body", after[0] == "agg" and after[2] == 0, "poll_frame:taken", "poll_frame leaves the body's data in place, so it is delivered again", "data taken")
                    else:
                        R.check("body", ready and inner[0] == "agg" and inner[2] == 0, "poll_frame:end", "poll_frame of a delivered body yields %s, not the end" % repr(v)[:200], "second poll ends")
                        R.check("body", after[0] == "agg" and after[2] == 0, "poll_frame:stay", "a delivered body becomes full again", "stays empty")
                elif name == "is_end_stream":
                    if has:
                        R.check("body", v == FALSE, "is_end_stream", "is_end_stream is %s while the data is still to be delivered" % repr(v)[:80], name)
                elif name == "size_hint":
                    if has:
                        c = repr(v)
                        R.check("body", "blen" in c or "ret" in c and "token" in c, "size_hint", "size_hint does not depend on the data's length", name)
    f = [f for f in P.local_fns() if f.selfty == adt and f.path.endswith("::new") and f.trait is None and f.inst is None]
    if len(f) != 1:
        raise Missing("ResponseBody::new")
    I = HttpInterp(P)
    st = State(I.cx)
    a = [I.sym(f[0].locals[1], "arg", 0)]
    for s, r in I.exec_fn(f[0], a, st):
        v = I.term(s, r)
        x = v[3][bi] if v[0] == "agg" else None
        R.check("body", x is not None and x[0] == "agg" and x[2] == 1, "new", "ResponseBody::new gives a body without data: %s" % repr(v)[:200], "new keeps its data")
    R.floor("body", 4)
