"""C06: socket results reach hyper unchanged."""
from mir import Prog, Missing
from absint import *
from strdom import StrInterp, ngen, is_app

LEVEL = "other"
TECHNIQUE = 'abstract interpretation of the socket adapter: result-value transparency'
NOTE = "All outcomes of the socket are symbolic; trusts hyper's cursor API."
EXPLANATION = ("Each method of hyper's Read and Write implemented by the stream adapter is interpreted abstractly with the socket's answer an arbitrary "
               "symbolic Poll<io::Result<_>>. On every path exactly one socket operation of the matching kind must have been run on the adapter's own "
               "socket and the buffer hyper passed, and the returned value must be that answer: pending as pending, the same error value as error, the same "
               "count as count. Only on a successful read may the buffer advance, once, by exactly the socket's count.")
ASSUMPTIONS = ["glommio's TcpStream honours the futures AsyncRead/AsyncWrite contract", "ReadBufCursor::advance adds its argument to the filled length"]

KIND = {"poll_read": ("poll_read",), "poll_write": ("poll_write",), "poll_flush": ("poll_flush",), "poll_shutdown": ("poll_close",),
        "poll_write_vectored": ("poll_write_vectored", "poll_write")}


def mentions(e, x):
    if e == x:
        return True
    return isinstance(e, tuple) and any(mentions(y, x) for y in e)


class NetInterp(StrInterp):
    def opaque(self, st, path, key, args, rt, t, fn, bb):
        np = ngen(path)
        last = np.rsplit("::", 1)[-1]
        if ("AsyncRead" in np or "AsyncWrite" in np or "TcpStream" in np) and last.startswith("poll_"):
            n = sum(1 for e in st.evlist() if e[0] == "sock")
            v = ("S", rt, "sock", n)
            st.ev("sock", last, tuple(args), v)
            return [(st, v)]
        if "ReadBufCursor" in np and last == "as_mut":
            return [(st, ("S", rt, "room"))]
        if "ReadBufCursor" in np and last in ("remaining", "capacity"):
            return [(st, ("S", rt, "roomlen"))]
        if "ReadBufCursor" in np and last in ("advance", "put_slice"):
            st.ev(last, args[0], args[1])
            return [(st, ("agg", "tuple", 0, ()))]
        if last == "write_bytes":
            return [(st, ("agg", "tuple", 0, ()))]
        return super().opaque(st, path, key, args, rt, t, fn, bb)


def strip(v):
    """the ptr behind a Pin"""
    while v[0] == "agg" and len(v[3]) == 1:
        v = v[3][0]
    return v


def run(R):
    for mode in ("debug", "release"):
        P = Prog("laya", mode)
        fns = [f for f in P.local_fns() if f.inst is None and f.trait and f.trait.startswith("hyper::rt::") and f.trait.split("::")[2] in ("Read", "Write")]
        names = {f.path.rsplit("::", 1)[1] for f in fns}
        for need in ("poll_read", "poll_write", "poll_flush", "poll_shutdown"):
            if need not in names:
                raise Missing("stream adapter method %s" % need)
        for f in fns:
            name = f.path.rsplit("::", 1)[1]
            if name == "is_write_vectored":
                continue
            I = NetInterp(P)
            st = State(I.cx)
            args = [I.sym(t, "arg", i) for i, t in enumerate(f.locals[1:f.argc + 1])]
            outs = [(s, r) for s, r in I.exec_fn(f, args, st) if not s.dead]
            R.analysed["%s (%s)" % (f.path, mode)] = {"paths": len(outs)}
            for s, what, g, b, t in I.panics:
                R.fail(name, "panic:%s" % name, "%s: %s reachable" % (f.path, what))
            if not outs:
                R.fail(name, "nopath:%s" % name, "%s: no path returns" % f.path)
            for s, r in outs:
                problems(R, P, I, f, name, args, s, r)
    for n in ("poll_read", "poll_write", "poll_flush", "poll_shutdown"):
        R.floor(n, 2)


def problems(R, P, I, f, name, args, s, r):
    bad = None
    evs = s.evlist()
    socks = [e for e in evs if e[0] == "sock"]
    moves = [e for e in evs if e[0] in ("advance", "put_slice")]
    if len(socks) != 1:
        bad = "performs %d socket operations on one call" % len(socks)
    elif socks[0][1] not in KIND.get(name, (name,)):
        bad = "runs the socket's %s" % socks[0][1]
    else:
        _, op, a, v = socks[0]
        if not mentions(a[0], args[0]) and not mentions(a[0], ("L", (), 1)):
            bad = "operates on something else than its own stream"
        if bad is None and name == "poll_write":
            b = I.as_ptr(a[2]) if a[2][0] != "ptr" else a[2]
            if not (b[1] == args[2] and b[2] in ((), I0)):
                bad = "writes other bytes than the ones handed in"
        r = I.term(s, r)
        isend = r == v
        disc = s.var.get(v)
        pay = ("vf", v, 0, 0)
        if bad is None and not isend:
            if disc == 1:
                if not (r[0] == "agg" and r[1].endswith("Poll") and r[2] == 1):
                    bad = "returns %s while the socket is pending" % repr(r)[:160]
            elif disc == 0:
                inner = r[3][0] if r[0] == "agg" and r[2] == 0 else None
                payload = [k for k in s.var if k[0] == "S" and k[2:] == pay]
                pv = ("S", P.fields(v[1], 0)[0][1]) + pay if P.fields(v[1], 0) else None
                rdisc = s.var.get(pv)
                if inner is None:
                    bad = "returns %s although the socket is ready" % repr(r)[:160]
                elif inner == pv:
                    pass
                elif rdisc is None:
                    bad = "returns %s without looking at the socket's result" % repr(inner)[:160]
                elif rdisc == 1:
                    want = ("vf", pv, 1, 0)
                    if not (inner[0] == "agg" and inner[2] == 1 and strip(inner[3][0])[2:] == want):
                        bad = "turns a socket error into %s" % repr(inner)[:160]
                else:
                    n = ("vf", pv, 0, 0)
                    if not (inner[0] == "agg" and inner[2] == 0):
                        bad = "turns a successful socket result into %s" % repr(inner)[:160]
                    elif name == "poll_read":
                        pass
                    elif P.types[P.fields(pv[1], 0)[0][1]]["k"] == "tuple":
                        pass
                    elif inner[3][0][0] != "S" or inner[3][0][2:] != n:
                        bad = "reports %s instead of the socket's count" % repr(inner[3][0])[:160]
            else:
                bad = "returns %s without looking at the socket's answer" % repr(r)[:160]
        if bad is None and name == "poll_read":
            ptid = P.fields(v[1], 0)[0][1]
            pv = ("S", ptid) + pay
            okread = disc == 0 and s.var.get(pv) == 0
            if isend:
                bad = "hands on the socket's answer without advancing the buffer"
            elif okread and len(moves) != 1:
                bad = "advances the buffer %d times on a successful read" % len(moves)
            elif not okread and moves:
                bad = "advances the buffer although nothing was read"
            elif okread:
                e = moves[0]
                cnt = e[2] if e[0] == "advance" else None
                if e[0] == "put_slice":
                    p = e[2]
                    cnt = p[3] if p[0] == "ptr" and p[3] is not None else None
                    sp = a[2]
                    if not (p[0] == "ptr" and sp[0] == "ptr" and p[1] == sp[1] and p[2] == sp[2]):
                        bad = "copies other bytes than the socket delivered"
                elif not mentions(a[2], ("room",)) and not any(isinstance(x, tuple) and x[0] == "S" and "room" in x for x in flat(a[2])):
                    bad = "reads into something else than hyper's buffer"
                if bad is None and (cnt is None or cnt[0] != "S" or cnt[2:] != ("vf", pv, 0, 0)):
                    bad = "advances the buffer by %s, not by the bytes read" % repr(cnt)[:160]
                if bad is None and e[0] == "advance" and a[2][0] == "ptr":
                    off = a[2][2]
                    if off not in ((), I0):
                        bad = "reads to another place than the start of hyper's free buffer"
    R.check(name, bad is None, "%s:%s" % (name, (bad or "")[:40]), "%s %s" % (f.path, bad), "%s: a path with conditions %s" % (f.path, sorted(map(str, s.var.values()))))


def flat(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            yield from flat(x)
