"""What IIIF Image API 3.0 says about each request parameter, as this server
supports them (properties C01 and C02)."""
import math
from semtab import parse_as

QUALITY = {"color": "Color", "gray": "Gray", "bitonal": "Bitonal", "default": "Default"}
FORMAT = {"jpg": "Jpg", "tif": "Tif", "png": "Png", "gif": "Gif", "jp2": "Jp2", "pdf": "Pdf", "webp": "Webp"}
MIME = {"Jpg": "image/jpeg", "Tif": "image/tiff", "Png": "image/png", "Gif": "image/gif", "Jp2": "image/jp2",
        "Pdf": "application/pdf", "Webp": "image/webp"}
ERR = ("Err",)


def quality(s):
    return ("Ok", ("Quality::" + QUALITY[s],)) if s in QUALITY else ERR


def format_(s):
    return ("Ok", ("Format::" + FORMAT[s],)) if s in FORMAT else ERR


def region(s):
    if s == "full":
        return ("Ok", ("Region::Full",))
    if s == "square":
        return ("Ok", ("Region::Square",))
    pct = s.startswith("pct:")
    f = (s[4:] if pct else s).split(",")
    if len(f) != 4:
        return ERR
    v = [parse_as("f32" if pct else "u32", x) for x in f]
    if any(x is None for x in v):
        return ERR
    if pct:
        if not all(math.isfinite(x) and x > 0 for x in v):
            return ERR
    elif v[2] < 1 or v[3] < 1:
        return ERR
    return ("Ok", ("Region::Percentage" if pct else "Region::Absolute", ("height", v[3]), ("width", v[2]), ("x", v[0]), ("y", v[1])))


def _size(up, sc):
    return ("Ok", ("Size", ("scale", sc), ("upscale", int(up))))


def size(s):
    up = s.startswith("^")
    if up:
        s = s[1:]
    if s == "max":
        return _size(up, ("Scale::Max",))
    if s.startswith("pct:"):
        v = parse_as("f32", s[4:])
        if v is None or not math.isfinite(v) or not v > 0 or (v > 100 and not up):
            return ERR
        return _size(up, ("Scale::Percentage", ("0", v)))
    keep = s.startswith("!")
    if keep:
        s = s[1:]
    if "," not in s:
        return ERR
    a, b = s.split(",", 1)
    va, vb = [None if x == "" else parse_as("u32", x) for x in (a, b)]
    for x, v in ((a, va), (b, vb)):
        if x != "" and (v is None or v < 1):
            return ERR
    if keep:
        if va is None or vb is None:
            return ERR
        return _size(up, ("Scale::AspectPreserving", ("height", vb), ("width", va)))
    if va is None and vb is None:
        return ERR
    o = lambda v: ("None",) if v is None else ("Some", v)
    return _size(up, ("Scale::Fixed", ("height", o(vb)), ("width", o(va))))


def rotation(s):
    m = s.startswith("!")
    v = parse_as("f32", s[1:] if m else s)
    if v is None or not (0 <= v <= 360):
        return ERR
    return ("Ok", ("Rotation", ("degrees", v), ("mirror", int(m))))
