"""C04: no request opens a file outside the image directory."""
from mir import Prog, Missing
from absint import *
from semtab import *
from httpmodel import *
from checks import paths

LEVEL = "other"
TECHNIQUE = 'taint-style analysis of the path expression reaching every file-opening call'
NOTE = "Every open reached from the handler, every class of identifier; lexical containment only (symlinks are the operator's)."
EXPLANATION = ("handle_request is interpreted abstractly through image_request, decode_image_request and DiskImageSource::resolve; each partition "
               "records the path expression given to every file-opening operation (any call into glommio::io or std::fs with a path). "
               "For one representative per class of identifiers (parent steps at every place, absolute, prefixed, encoded once and twice, empty, "
               "current-directory) and several image directories, every opened path of every partition whose condition holds is required to "
               "lie lexically strictly below the directory.")
ASSUMPTIONS = ["std::path::Path::join/components behave as documented on Unix", "symbolic links inside the image directory are the operator's"]
BASES = ["/srv/images", "relative/dir", "/srv/images/", "./share/"]


def run(R):
    for mode in ("debug", "release"):
        P = Prog("laya", mode)
        I, parts = run_handler(P)
        strs, chars, _, _ = consts_in(parts)
        nev = sum(1 for p in parts for e in p.st.evlist() if e[0] == "open")
        R.analysed["http::handle_request (%s)" % mode] = {"partitions": len(parts), "open_sites": nev}
        opened = 0
        for rep in paths.reps(sorted(x for x in strs if len(x) < 12)):
            bad = False
            for base in BASES:
                for storage in (True, False):
                    E = HttpEval(I, {}, 1, rep, base, storage)
                    for p in parts:
                        try:
                            if not E.holds(p.st):
                                continue
                            for e in p.st.evlist():
                                if e[0] != "open":
                                    continue
                                opened += 1
                                q = E.pth(e[1])
                                if not below(base, q):
                                    bad = True
                                    R.fail("contained", "escape:%s" % rep, "GET %s with image directory %s opens %s" % (rep, base, q))
                        except Unknown as u:
                            bad = True
                            R.fail("contained", "undecided:%s" % str(u)[:80], "GET %s: cannot decide which file is opened (%s)" % (rep, str(u)[:200]))
                            break
                    if bad:
                        break
                if bad:
                    break
            if not bad:
                R.ok("contained", rep)
        R.check("positive", opened > 0, "noopen", "no analysed request opens a file: the storage operation was not found", "%d opens decided" % opened)
    R.floor("contained", 800)
