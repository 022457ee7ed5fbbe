"""C14: a failed step is never reported as success."""
import signal, sys
from fallible import *
from segread import fork_map

LEVEL = "other"
TECHNIQUE = "typestate analysis of call results over the compiler's control-flow graph (unknown / succeeded / failed), with an abstract-interpretation pass for results that travel through memory"
NOTE = ("Every call of a fallible codec step is an obligation: no path on which the step's result is unknown or a failure reaches a successful return or the next call of the same step. "
        "Which functions are fallible steps is decided by result type and name; the accepted deviations are listed one by one and still have to test the result.")
EXPLANATION = ("For every function of the codec and every call it makes of a fallible step (flag, null pointer, Option, Result, or a transferred byte count that must equal the count asked for), the result is given "
               "a typestate and followed through the function's control-flow graph, through copies, comparisons, negation, `?` and short-circuit operators. A return that does not report failure is only reachable "
               "with the step succeeded or with its result being the returned value; the step is not run again while an earlier result is untested. Helpers that did not exist when the check was written are spliced in. "
               "Results stored in memory or passed through Option are decided by abstract interpretation of the function. Block coding jobs report through a flag behind a pointer: clearing it counts as reporting, "
               "every job gets the flag of the function that returns it, and that flag is set only once, before the loop.")
ASSUMPTIONS = ["a component has between 1 and 33 resolution levels when its COC or QCC segment is written", "writing to a Vec<u8> cannot fail"]

# (function, step) -> why going on after a failure that was tested is right
TOLERATED = {
    ("j2k::opj_j2k_read_sod", "stream::opj_stream_read_data"): "a truncated tile-part is decoded as far as it goes: the state becomes NEOC",
    ("j2k::opj_j2k_need_nb_tile_parts_correction", "stream::opj_stream_read_data"): "a look-ahead; the position is restored and no correction is assumed",
    ("j2k::opj_j2k_need_nb_tile_parts_correction", "stream::opj_stream_skip"): "a look-ahead; the position is restored and no correction is assumed",
    ("j2k::opj_j2k_read_tile_header", "stream::opj_stream_read_data"): "a codestream without EOC marker whose last tile is present is accepted",
    ("jp2::opj_jp2_read_header_procedure", "stream::opj_stream_skip"): "a truncated box after the codestream is ignored with a warning",
    ("stream::<impl types::Stream>::read", "<stream::StreamInner as std::io::Read>::read"): "the bytes read before the error are delivered as a short read; the next read reports it",
    ("tcd::opj_tcd_rateallocate", "t2::opj_t2_encode_packets"): "a trial encoding that does not fit steers the bisection of the threshold",
}
# results that cannot report a failure where they are ignored
CANNOT_FAIL = {
    ("t2::opj_t2_read_packet_header", "bio::opj_bio_inalign"): "after a first header bit of 0 the buffered byte is below 0x80, so aligning reads nothing (shown below)",
}
VEC = "::write::<std::vec::Vec<u8>>"
SLICE = {("jp2::opj_jp2_write_jp", "jp2::Jp2BoxHeader::write"): "an 8-byte header into a local array of 12 bytes"}


def walk(job):
    P, M, path = job
    f = P.bypath[path][0]

    def late(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(200)
    try:
        return path, Walk(P, f, M, enter=ENTER.get(path, ())).run().bad, None
    except Exception as e:
        return path, None, repr(e)[:200]
    finally:
        signal.alarm(0)


ENTER = {
    "j2k::opj_j2k_write_coc_in_memory": ("j2k::opj_j2k_write_SPCod_SPCoc", "j2k::opj_j2k_get_SPCod_SPCoc_size"),
    "j2k::opj_j2k_write_qcc_in_memory": ("j2k::opj_j2k_write_SQcd_SQcc", "j2k::opj_j2k_get_SQcd_SQcc_size"),
}


def run(R):
    sys.setrecursionlimit(20000)
    P = Prog("openjp2", "release")
    M = steps(P)
    R.analysed["fallible steps"] = len(M)
    new = lambda p: not known(P, p)
    again = {}
    nf = 0
    G = "no failure reaches a successful return"
    todo = []
    for f in P.local_fns():
        if not f.path.startswith(MODS):
            continue
        if not known(P, f.path):
            continue
        g = inline(P, f, new)
        if not any(callee(t) in M for _, t in calls(g)):
            continue
        nf += 1
        try:
            w = Flow(P, g, M).run()
        except Missing:
            w = None
        todo.append((f, g, w))
        if w is None or w.bad:
            again[f.path] = None
    jobs = sorted(p for p in again if "{closure" not in p)
    for path, bad, err in fork_map(walk, [(P, M, p) for p in jobs if p not in HEAVY]):
        again[path] = (bad, err)
    for f, g, w in todo:
        sites = {}
        for bb, t in calls(g):
            if callee(t) in M:
                sites.setdefault((callee(t), t.get("l")), t)
        second = again.get(f.path)
        for (c, l), t in sorted(sites.items()):
            why = w.bad.get((c, l)) if w is not None else "untested"
            if why is not None and second is not None and second[0] is not None and (c, l) not in second[0]:
                why = None
            who = (f.path, c)
            if why is None:
                R.ok(G, "%s: %s" % (f.path, c.split("::")[-1]))
            elif why == "tolerated" and who in TOLERATED:
                R.ok("tested and deliberately tolerated", "%s: %s: %s" % (f.path, c.split("::")[-1], TOLERATED[who]))
            elif who in CANNOT_FAIL:
                R.ok("cannot fail where it is ignored", "%s: %s: %s" % (f.path, c.split("::")[-1], CANNOT_FAIL[who]))
            elif (t.get("key") or "").endswith(VEC) or who in SLICE:
                R.ok("cannot fail where it is ignored", "%s: box header into memory" % f.path)
            else:
                R.fail(G, "step:%s:%s:%s" % (f.path, c, why), "%s (%s:%s) can return success although %s %s" % (f.path, f.file, l, c, "failed" if why == "tolerated" else "was not found to have succeeded: its result is not tested on every path"))
    R.analysed["functions with fallible steps"] = nf
    jobs_rule(R, P)
    align_rule(R, P)
    R.floor(G, 340)
    R.floor("job flags", 5)


HEAVY = {"j2k::opj_j2k_setup_encoder", "t2::opj_t2_read_packet_header", "tcd::opj_tcd_rateallocate", "t1::opj_t1_decode_cblks"}


def jobs_rule(R, P):
    """the failure flag of block coding jobs is the one the operation returns"""
    G = "job flags"
    Wm = {}
    for f in P.local_fns():
        if not f.path.startswith("t1::") and not f.path.startswith("tcd::"):
            continue
        src = {}
        for bb, b in enumerate(f.blocks):
            for s in b["s"]:
                if s[0] == "=" and len(s[1]) == 1:
                    src.setdefault(s[1][0], []).append(s[2])

        def origin(o, d=0):
            if o[0] == "k" or d > 6:
                return None
            pl = o[1]
            if len(pl) == 2 and pl[1] == "*":
                return ("arg", pl[0])
            if len(pl) != 1:
                return None
            if 1 <= pl[0] <= f.argc:
                return ("arg", pl[0])
            rs = src.get(pl[0], [])
            if len(rs) != 1:
                return None
            r = rs[0]
            if r[0] == "ref" and len(r[2]) == 1:
                return ("flag", r[2][0])
            if r[0] == "ref" and len(r[2]) == 2 and r[2][1] == "*":
                return origin(["c", [r[2][0]]], d + 1)
            if r[0] == "use":
                return origin(r[1], d + 1)
            if r[0] == "cast":
                return origin(r[2], d + 1)
            return None
        flags = set()
        for bb, b in enumerate(f.blocks):
            for s in b["s"]:
                if s[0] == "=" and s[1][-1:] and isinstance(s[1][-1], list) and s[1][-1][0] == "." and s[1][-1][2] == "pret":
                    o = origin(s[2][1]) if s[2][0] == "use" else origin(["c", s[2][2]]) if s[2][0] == "cast" and s[2][2][0] in ("c", "m") else ("flag", s[2][2][0]) if s[2][0] == "ref" and len(s[2][2]) == 1 else None
                    if s[2][0] == "cast":
                        o = origin(s[2][2])
                    if R.check(G, o is not None, "pret:%s" % f.path, "%s gives a block job a failure flag that is neither its caller's nor its own" % f.path, "%s passes %s" % (f.path, "its own flag" if o and o[0] == "flag" else "its caller's flag")):
                        if o[0] == "flag":
                            flags.add(o[1])
            t = b["t"]
            if t and t["k"] == "call" and callee(t) in OUT and OUT[callee(t)] != "job":
                o = origin(t["a"][OUT[callee(t)]])
                if R.check(G, o is not None, "pret:%s" % f.path, "%s gives block jobs a failure flag that is neither its caller's nor its own" % f.path, "%s passes a flag to %s" % (f.path, callee(t))):
                    if o[0] == "flag":
                        flags.add(o[1])
        for l in flags:
            loops = set()
            for h, body in f.cfg().loops.items():
                loops |= set(body)
            sets = [(bb, s) for bb, b in enumerate(f.blocks) for s in b["s"] if s[0] == "=" and s[1] == [l]]
            bad = [bb for bb, s in sets if bb in loops and not (s[2][0] == "use" and s[2][1][0] == "k" and s[2][1][1].get("c", {}).get("v") in (0, False))]
            R.check(G, not bad, "reset:%s" % f.path, "%s sets the failure flag of its block jobs again while they run" % f.path, "%s: flag set once" % f.path)
            M = dict(steps(P))
            p, b2, err = fork_map(walk, [(P, M, f.path)])[0]
            miss = [k for k, wv in (b2 or {}).items() if k[0] in OUT and wv == "return"]
            R.check(G, b2 is not None and not miss, "job:%s" % f.path, "%s can return success although a block job failed%s" % (f.path, "" if err is None else " (%s)" % err), "%s returns the flag" % f.path)


def align_rule(R, P):
    """aligning after a first header bit of 0 never fails"""
    G = "aligning after an empty packet header"
    I = Interp(P, inline_std=True, max_states=400, unroll=8, unroll_width=8)
    events_noop(I)
    ini, rd, al = (P.bypath["bio::" + n][0] for n in ("opj_bio_init_dec", "opj_bio_read", "opj_bio_inalign"))
    bio = I.sym(ini.locals[1], "arg", 1)
    n = 0
    for s, _ in I.exec_fn(ini, [bio, I.sym(ini.locals[2], "arg", 2), I.sym(ini.locals[3], "arg", 3)], State(I.cx)):
        for s2, v in I.exec_fn(rd, [bio, K(1)], s, (1,)):
            s2.assume(mk_cmp("eq", v, K(0)), True)
            if s2.dead or not s2.feasible():
                continue
            for s3, r in I.exec_fn(al, [bio], s2, (2,)):
                n += 1
                ok = s3.decide(mk_cmp("eq", r, K(0)))
                R.check(G, ok is False, "align", "opj_bio_inalign can fail after an empty packet header", "path %d" % n)
    R.floor(G, 1)
