"""C07: the connection limit."""
from mir import Prog, Missing
from absint import *
from strdom import StrInterp, ngen, is_app, app
from httpmodel import HttpInterp

LEVEL = "other"
TECHNIQUE = 'typestate/ownership analysis of permits over the event histories of the accept loop'
NOTE = "All histories of the loop body and the spawned task; trusts glommio's semaphore."
EXPLANATION = ("The server loop and the task it spawns per connection are interpreted abstractly as one history of events: limiter created (with which size), "
               "permit acquired (how many, from which limiter), connection served, permit dropped, task ended, loop left. Moves and drops of every local are "
               "followed. On every history: one limiter, created outside the accept loop, sized by the max_connections parameter; a permit of it is held "
               "whenever serve_connection runs and while its future is driven; every permit is given back when its task ends; and no outcome of accepting "
               "or serving one connection leaves the loop.")
ASSUMPTIONS = ["glommio::sync::Semaphore admits at most its size of permits and releases a permit on drop",
               "the accept loop's iterations are independent beyond the first two (only the limiter is carried over)"]
MOVED = ("moved",)


class SrvInterp(HttpInterp):
    UNROLL = 2

    def __init__(self, P, **kw):
        super().__init__(P, **kw)
        self.on_drop = self.dropped
        self.tasks = 0
        self.closes = any((t.get("rs") or t.get("fn") or "").endswith("Semaphore::close") for f in P.local_fns() for b in f.blocks for t in [b["t"]] if t and t["k"] == "call")

    # moved-out places hold nothing
    def operand(self, st, fr, o, move=True):
        v = super().operand(st, fr, o, move)
        if o[0] == "m":
            l = self.loc(st, fr, o[1])
            if l is not None and l[0][0] == "L" and v is not None and v != MOVED:
                ent = st.mem.get(l[0])
                if ent is not None and self.permits(v):
                    self.wr(st, l[0], l[1], MOVED)
        return v

    def permits(self, v, depth=0):
        if not isinstance(v, tuple):
            return []
        if is_app(v, "permit"):
            return [v]
        out = []
        if v[0] == "agg":
            for x in v[3]:
                out += self.permits(x, depth + 1)
        return out

    def dropped(self, I, st, v, p, fn, b, t):
        for x in self.permits(v):
            st.ev("release", x)
        return None

    def str_model(self, st, path, key, args, rt, t, fn, bb, fr, depth):
        np = ngen(path)
        last = np.rsplit("::", 1)[-1]
        one = lambda v: [(st, v)]
        if np.endswith("Semaphore::new"):
            st.ev("limiter", self.term(st, args[0]), st.notes.get("accepted", 0))
            return one(app(rt, "sem", K(sum(1 for e in st.evlist() if e[0] == "limiter")), self.term(st, args[0])))
        if np in ("std::rc::Rc::new", "std::sync::Arc::new", "std::boxed::Box::new"):
            return one(app(rt, "rc", args[0]))
        tn0 = self.argtn(fn, t, 0) if t.get("a") is not None and len(t["a"]) == len(args) else ""
        if last in ("clone", "deref") and len(args) == 1 and ("Rc<" in tn0 or "Arc<" in tn0):
            x = self.term(st, args[0])
            if last == "clone":
                return one(x)
            if is_app(x, "rc"):
                return one(self.newobj(st, None, ("rc", x), x[4]))
        if last in ("acquire_permit", "acquire_static_permit") and "Semaphore" in np:
            return one(app(rt, "acquire", self.rcs(self.term(st, args[0])), args[1]))
        if last in ("try_acquire_permit", "try_acquire", "acquire", "signal", "close") and "Semaphore" in np:
            st.ev("limiterop", last)
        if last == "forget" and args:
            for x in self.permits(args[0]):
                st.ev("leaked", x)
            return one(("agg", "tuple", 0, ()))
        if np in ("std::mem::drop", "core::mem::drop"):
            for x in self.permits(args[0]):
                st.ev("release", x)
            return one(("agg", "tuple", 0, ()))
        if np.endswith("TcpListener::accept") or last == "shared_accept":
            return one(app(rt, "accept", K(sum(1 for e in st.evlist() if e[0] == "accepted"))))
        if last == "serve_connection" or last == "serve_connection_with_upgrades":
            st.ev("serve", fn.path)
            return one(app(rt, "serving"))
        if last.startswith("spawn") and args and args[-1][0] == "agg" and args[-1][1].startswith("coroutine:"):
            return self.spawn(st, args[-1], rt, fn, bb, fr, depth)
        return super().str_model(st, path, key, args, rt, t, fn, bb, fr, depth)

    def rcs(self, x):
        while is_app(x, "rc") or is_app(x, "deref"):
            x = x[4]
        return x

    def spawn(self, st, c, rt, fn, bb, fr, depth):
        k = c[1].split(":", 1)[1]
        body = self.p.fns.get(k) or (self.p.bypath.get(k) or [None])[0]
        if body is None:
            raise Missing("task body %s" % k)
        st.ev("task")
        outs = []
        for s, _ in self.enter(st, body, [c, ("S", body.locals[2], "resume")], depth, (fn.key, bb), fr):
            s.ev("taskend")
            outs.append((s, app(rt, "task")))
        return outs

    def future_model(self, st, np, last, args, rt, t, fn, bb, fr, depth, key, tn0):
        if last == "poll" and rt is not None and self.p.types[rt].get("d", "").endswith("Poll"):
            p = args[0]
            while p[0] == "agg" and len(p[3]) == 1:
                p = p[3][0]
            fut = self.rd(st, p[1], p[2]) if p[0] == "ptr" else p
            d = self.p.types[rt]["d"]
            if fut is not None and is_app(fut, "acquire"):
                n = sum(1 for e in st.evlist() if e[0] == "acquired")
                pm = app(None, "permit", K(n), fut[4], fut[5])
                rd = "std::result::Result"
                ok = st.copy()
                ok.ev("acquired", pm)
                outs = [(ok, ("agg", d, 0, (("agg", rd, 0, (pm,)),)))]
                if self.closes:
                    outs.append((st, ("agg", d, 0, (("agg", rd, 1, (("S", None, "closed"),)),))))
                return outs
            if fut is not None and is_app(fut, "accept"):
                outs = []
                for vi in (0, 1):
                    s = st.copy()
                    s.ev("accepted", vi)
                    ft = self.p.fields(rt, 0)[0][1]
                    pt = self.p.fields(ft, vi)[0][1]
                    outs.append((s, ("agg", d, 0, (("agg", "std::result::Result", vi, (app(pt, "conn", fut[4]),)),))))
                return outs
            if fut is not None and is_app(fut, "serving"):
                st.ev("driven", fn.path)
        return super().future_model(st, np, last, args, rt, t, fn, bb, fr, depth, key, tn0)

    def loop(self, fn, fr, depth, h, st, rets):
        """two iterations of the endless loop"""
        cfg = fn.cfg()
        body = cfg.loops[h]
        cur, outs, lrets = [st.copy()], [], []
        self.cutoff = getattr(self, "cutoff", [])
        for n in range(self.UNROLL):
            backs, exits = self.region(fn, fr, depth, body, h, cur, h, lrets)
            for tgt, ss in exits.items():
                outs.extend((tgt, s) for s in ss)
            cur = [b for b in backs if not b.dead]
            if not cur:
                break
        self.cutoff.extend(cur)
        rets.extend(lrets)
        return outs


def history(s):
    return [e for e in s.evlist() if e[0] in ("limiter", "limiterop", "acquired", "release", "leaked", "serve", "driven", "task", "taskend", "accepted")]


def run(R):
    for mode in ("debug", "release"):
        P = Prog("laya", mode)
        fns = [f for f in P.local_fns() if f.inst is None and any(b["t"] and b["t"]["k"] == "call" and (b["t"].get("rs") or b["t"].get("fn") or "").endswith("TcpListener::accept")
                                                                  for b in f.blocks)]
        if len(fns) != 1:
            raise Missing("the function accepting connections: %d matches" % len(fns))
        # enter through the plain function that builds the async block
        body = fns[0]
        root = body.path.split("::{closure")[0]
        outer = [f for f in P.bypath.get(root, []) if f.inst is None]
        if len(outer) != 1:
            raise Missing("server function %s" % root)
        outer = outer[0]
        I = SrvInterp(P)
        st = State(I.cx)
        args = [I.sym(t, "arg", i) for i, t in enumerate(outer.locals[1:outer.argc + 1])]
        mx = [a for a, t in zip(args, outer.locals[1:]) if P.tn(t) in ("usize", "u64", "u32")]
        if len(mx) != 1:
            raise Missing("the max_connections parameter of %s" % root)
        ends = []
        for s, c in I.exec_fn(outer, args, st):
            if c[0] == "agg" and c[1].startswith("coroutine:"):
                ends += [(x, r) for x, r in I.enter(s, body, [c, ("S", body.locals[2], "resume")], 0, (outer.key, -1), ()) if not x.dead]
        going = [s for s in getattr(I, "cutoff", []) if not s.dead]
        R.analysed["%s (%s)" % (root, mode)] = {"histories": len(ends) + len(going)}
        R.check("loop", len(going) >= 2, "noloop", "%s: no history accepts two connections" % root, "the loop goes on after success and failure")
        for s, r in ends:
            h = history(s)
            acc = [e for e in h if e[0] == "accepted"]
            R.check("loop", not acc, "leaves", "%s stops accepting after %s" % (root, "a failed accept" if acc and acc[-1][1] == 1 else "a connection"),
                    "an end of the server before any connection")
        for s in going:
            check(R, I, P, s, mx[0], root)
    R.floor("loop", 4)
    R.floor("limiter", 4)
    R.floor("served", 4)


def check(R, I, P, s, mx, root):
    h = history(s)
    first = [i for i, e in enumerate(h) if e[0] == "accepted"][0]
    lim = [(i, e) for i, e in enumerate(h) if e[0] == "limiter"]
    R.check("limiter", len(lim) == 1 and lim[0][0] < first, "limiter:count", "%s creates %d limiters%s" % (root, len(lim), ", one per connection" if len(lim) > 1 else ""), "one limiter before the loop")
    if lim:
        sz = lim[0][1][1]
        R.check("limiter", I.resolve(s, sz) == I.resolve(s, mx) or strip_cast(sz) == mx, "limiter:size", "%s sizes the limiter %s, not by the configured maximum" % (root, repr(sz)[:120]), "sized by the parameter")
    for e in h:
        if e[0] == "limiterop":
            R.fail("limiter", "limiterop:%s" % e[1], "%s uses %s on the limiter: permits cannot be followed" % (root, e[1]))
        if e[0] == "leaked":
            R.fail("served", "leak", "a permit is forgotten, never given back")
    held = []
    owner = {}
    tasks = []
    n = 0
    for e in h:
        if e[0] == "acquired":
            _, pm = e
            R.check("limiter", pm[5] is not None and is_app(pm[5], "sem"), "limiter:which", "a permit is acquired from %s, not the server's limiter" % repr(pm[5])[:100], "permit of the limiter")
            R.check("limiter", pm[6] == K(1), "limiter:amount", "%s permits are acquired per connection" % repr(pm[6]), "one permit each")
            held.append(pm)
        elif e[0] == "release":
            if e[1] in held:
                held.remove(e[1])
        elif e[0] == "task":
            tasks.append(list(held))
            n += 1
        elif e[0] in ("serve", "driven"):
            R.check("served", bool(held), "unpermitted:%s" % e[0], "a connection is served in %s while no permit is held" % e[1], "%s under a permit" % e[0])
        elif e[0] == "taskend":
            R.check("served", not held, "notreturned", "a task ends without giving its permit back", "permit returned at task end")
            held = []
    succ = sum(1 for e in h if e[0] == "accepted" and e[1] == 0)
    R.check("served", sum(1 for e in h if e[0] == "driven") <= succ, "twice", "connections are served more often than accepted", "served once per accepted connection")
    # where serving never happens the limit is void
    for e in h:
        pass


def strip_cast(x):
    while x[0] in ("wrap",):
        x = x[2]
    return x
