"""Request-path representatives and the specification of C03/C04/C08."""
from checks import iiif_spec as S
from strdom import urldecode

GOOD = ["ident", "full", "max", "0", "default.jpg"]
SEGS = {
    0: ["ident", "a%2Fb", "a%2fb", "%2525", "%25", "%", "%4", "%zz", "%C3%A9", "%FF", "%c3", "é", "a+b", "", "..", ".", "%2e%2e", "%2E", "%2e%2e%2fx", "..%2Fx",
        "x%2F..%2F..%2Fy", "x%2F..", "x%2F..%2Fy", "%2Fetc%2Fpasswd", "%2F", "%2F%2Fx", "x%2F%2Fy", "x%2F", ".%2Fx", "x%2F.%2Fy", "...", "..x", "x..", "..%2F", "%2F..",
        "x%5Cy", "..%5Cx", "C%3A%5Cx", "C%3A", "%5C%5Chost%5Cx", "%2e", "%2E%2E%2F%2E%2E%2Fetc", "a b", "%20", "%00", "full", "info.json", "a,b", "a.b", "%252e%252e%252fx", "%252Fetc",
        "~", "a/b".replace("/", "%2F") + "%2F..%2F..%2F..%2Fq", "%3F%23%5B%5D%40", "%41%42"],
    1: ["full", "square", "0,0,5,5", "pct:5,5,5,5", "FULL", "%66ull", "", "0,0,0,0", "max", "5%2C5%2C5%2C5", " full", "full ", "pct:5,5,5,inf"],
    2: ["max", "^max", "5,", ",5", "5,5", "!5,5", "pct:50", "pct:200", "^pct:200", "full", "", "0,", "%6dax", "5%2C5", "^5,5", "!%35,5"],
    3: ["0", "!0", "360", "361", "-1", "nan", "90.5", "", "%30", "abc", "!90"],
    4: ["default.jpg", "color.png", "gray.gif", "bitonal.webp", "default.jp2", "default.pdf", "color.tif", "default", "default.", ".jpg", ".", "", "default.jpg.png",
        "default.jpg.", "jpg.default", "default%2Ejpg", "%64efault.jpg", "DEFAULT.jpg", "default.JPG", "color.jpg ", "x.jpg", "default.bmp", "info.json", "default..jpg", "a.info.json"],
}


def reps(extra=()):
    out = {"", "/", "//", "*", "x", "/x", "ident/full/max/0/default.jpg", "/info.json", "/ident/info.json", "/ident/info.jsonx", "/ident/full/max/0/info.json",
           "info.json", "/a/b/c/d/e/f/g/h", "/ident", "/ident/", "/ident/full/max/0", "/ident/full/max/0/"}
    P = lambda s: "/" + "/".join(s)
    for i, vs in SEGS.items():
        for v in list(vs) + [e for e in extra if "/" not in e]:
            s = list(GOOD)
            s[i] = v
            out.add(P(s))
            out.add("/".join(s))
            out.add(P(s) + "/")
            out.add(P(s) + "/x")
            out.add("/" + P(s))
            out.add("/x" + P(s))
    for i in range(5):
        out.add(P(GOOD[:i] + GOOD[i + 1:]))
        out.add(P(GOOD[:i] + [GOOD[i]] + GOOD[i:]))
        for j in range(5):
            s = list(GOOD)
            s[i], s[j] = s[j], s[i]
            out.add(P(s))
    for a in SEGS[1]:
        for b in ("max", "5,5", "zz"):
            for c in ("0", "!90", "999"):
                for d in ("default.jpg", "color.png", "x.y"):
                    out.add(P(["q%2Fr", a, b, c, d]))
    good = P(GOOD)
    for x in extra:
        out.update({x, "/" + x, good + x, x + good})
    for x in ("?", "#", " ", "%", "\0", ";", "."):
        out.update({good + x, x + good})
    return sorted(out)


def decode(path):
    """None when refused, else (identifier, region, size, rotation, quality, format) as sub-strings"""
    s = path.split("/")
    if len(s) != 6 or s[0] != "":
        return None
    ident = urldecode(s[1])
    if ident is None:
        return None
    if "." not in s[5]:
        return None
    q, f = s[5].split(".", 1)
    for fn, v in ((S.region, s[2]), (S.size, s[3]), (S.rotation, s[4]), (S.quality, q), (S.format_, f)):
        if fn(v)[0] != "Ok":
            return None
    return ident, s[2], s[3], s[4], q, f


def inside(ident):
    """does the identifier name something strictly below the image directory?"""
    return not ident.startswith("/") and ".." not in ident.split("/") and any(x not in ("", ".") for x in ident.split("/"))
