"""What compound values mean: colours, rectangles, quotes, spacings, cursors, URIs.

Reference readings of ordinary values, written from CSS 2.1 / CSS Color, not from the code.  Each
expect_* returns None (the value is refused), SKIP (nothing is said about it), or a predicate on
the result.  On symbolic text they are not used: there the contracts of the parsers (props/values)
are.
"""

import ast
import math
import re
from collections.abc import Sequence

from .. import engine as E
from .. import strings as S

NAMED = dict(x.split("=") for x in """
aliceblue=f0f8ff antiquewhite=faebd7 aqua=00ffff aquamarine=7fffd4 azure=f0ffff beige=f5f5dc bisque=ffe4c4 black=000000 blanchedalmond=ffebcd
blue=0000ff blueviolet=8a2be2 brown=a52a2a burlywood=deb887 cadetblue=5f9ea0 chartreuse=7fff00 chocolate=d2691e coral=ff7f50 cornflowerblue=6495ed
cornsilk=fff8dc crimson=dc143c cyan=00ffff darkblue=00008b darkcyan=008b8b darkgoldenrod=b8860b darkgray=a9a9a9 darkgreen=006400 darkgrey=a9a9a9
darkkhaki=bdb76b darkmagenta=8b008b darkolivegreen=556b2f darkorange=ff8c00 darkorchid=9932cc darkred=8b0000 darksalmon=e9967a darkseagreen=8fbc8f
darkslateblue=483d8b darkslategray=2f4f4f darkslategrey=2f4f4f darkturquoise=00ced1 darkviolet=9400d3 deeppink=ff1493 deepskyblue=00bfff
dimgray=696969 dimgrey=696969 dodgerblue=1e90ff firebrick=b22222 floralwhite=fffaf0 forestgreen=228b22 fuchsia=ff00ff gainsboro=dcdcdc
ghostwhite=f8f8ff gold=ffd700 goldenrod=daa520 gray=808080 green=008000 greenyellow=adff2f grey=808080 honeydew=f0fff0 hotpink=ff69b4 indianred=cd5c5c
indigo=4b0082 ivory=fffff0 khaki=f0e68c lavender=e6e6fa lavenderblush=fff0f5 lawngreen=7cfc00 lemonchiffon=fffacd lightblue=add8e6 lightcoral=f08080
lightcyan=e0ffff lightgoldenrodyellow=fafad2 lightgray=d3d3d3 lightgreen=90ee90 lightgrey=d3d3d3 lightpink=ffb6c1 lightsalmon=ffa07a
lightseagreen=20b2aa lightskyblue=87cefa lightslategray=778899 lightslategrey=778899 lightsteelblue=b0c4de lightyellow=ffffe0 lime=00ff00
limegreen=32cd32 linen=faf0e6 magenta=ff00ff maroon=800000 mediumaquamarine=66cdaa mediumblue=0000cd mediumorchid=ba55d3 mediumpurple=9370db
mediumseagreen=3cb371 mediumslateblue=7b68ee mediumspringgreen=00fa9a mediumturquoise=48d1cc mediumvioletred=c71585 midnightblue=191970
mintcream=f5fffa mistyrose=ffe4e1 moccasin=ffe4b5 navajowhite=ffdead navy=000080 oldlace=fdf5e6 olive=808000 olivedrab=6b8e23 orange=ffa500
orangered=ff4500 orchid=da70d6 palegoldenrod=eee8aa palegreen=98fb98 paleturquoise=afeeee palevioletred=db7093 papayawhip=ffefd5 peachpuff=ffdab9
peru=cd853f pink=ffc0cb plum=dda0dd powderblue=b0e0e6 purple=800080 rebeccapurple=663399 red=ff0000 rosybrown=bc8f8f royalblue=4169e1
saddlebrown=8b4513 salmon=fa8072 sandybrown=f4a460 seagreen=2e8b57 seashell=fff5ee sienna=a0522d silver=c0c0c0 skyblue=87ceeb slateblue=6a5acd
slategray=708090 slategrey=708090 snow=fffafa springgreen=00ff7f steelblue=4682b4 tan=d2b48c teal=008080 thistle=d8bfd8 tomato=ff6347 turquoise=40e0d0
violet=ee82ee wheat=f5deb3 white=ffffff whitesmoke=f5f5f5 yellow=ffff00 yellowgreen=9acd32
""".split())
CURSORS = ("auto crosshair default pointer move e-resize ne-resize nw-resize n-resize se-resize sw-resize s-resize w-resize text wait progress help").split()


class Skip:
    def __repr__(self):
        return "SKIP"


SKIP = Skip()


def symbolic(v):
    return isinstance(v, E.Sym) and not E.isnum(v)


def guard(v):
    if symbolic(v):
        raise E.Unsupported("reference reading of symbolic text")


def number_text(s, f):
    try:
        return f(s)
    except ValueError:
        return None


def rgb_is(lib, r, g, b, a):
    return lambda x: isinstance(x, lib.get("colors.rgb")) and (x.r, x.g, x.b) == (r, g, b) and abs(x.a - a) < 1e-9


def expect_color(mk, lib, v):
    guard(v)
    if isinstance(v, (lib.get("colors.rgb"), lib.get("colors.hsl"))):
        return lambda r: r is v
    if not isinstance(v, str):
        return None
    if v.startswith("#"):
        if len(v) not in (4, 5, 7, 9):
            return None
        if not re.fullmatch("#[0-9a-fA-F]*", v):
            return None
        h = v[1:]
        if len(h) in (3, 4):
            h = "".join(c + c for c in h)
        c = [int(h[k:k + 2], 16) for k in range(0, len(h), 2)]
        return rgb_is(lib, *c[:3], c[3] / 255 if len(c) == 4 else 1.0)
    m = re.fullmatch(r"(rgba?|hsla?)\((.*)\)", v, re.S)
    if m:
        parts = m[2].split(",")
        if len(parts) != (4 if m[1].endswith("a") else 3):
            return None
        a = 1.0
        if len(parts) == 4:
            a = number_text(parts[3], float)
            if a is None:
                return None
            if not math.isfinite(a):
                return SKIP
        if m[1].startswith("rgb"):
            c = [number_text(x, int) for x in parts[:3]]
            return None if None in c else rgb_is(lib, *c, a)
        h = number_text(parts[0], int)
        p = [x.strip() for x in parts[1:3]]
        q = [number_text(x[:-1] if x.endswith("%") else x, int) for x in p]
        if h is None:
            return None
        if None in q or not all(x.endswith("%") for x in p):
            return SKIP if all(number_text(x.rstrip("%"), int) is not None for x in p) else None
        return lambda r: isinstance(r, lib.get("colors.hsl")) and r.h == h and abs(r.s - q[0] / 100) < 1e-9 and abs(r.l - q[1] / 100) < 1e-9 and abs(r.a - a) < 1e-9
    n = v.lower()
    if n in NAMED:
        if not v.isascii():
            return SKIP
        c = [int(NAMED[n][k:k + 2], 16) for k in (0, 2, 4)]
        return rgb_is(lib, *c, 1.0)
    return None


def length(mk, lib, v):
    from . import spec

    return spec.expect_length(mk, lib, v)


def expect_rect(mk, lib, v):
    guard(v)
    if isinstance(v, lib.get("shapes.Rect")):
        return SKIP
    if not isinstance(v, str):
        return None
    m = re.fullmatch(r"rect\(([^()]*)\)", " ".join(v.split()))
    if not m:
        return None
    inner = m[1].strip()
    parts = inner.split(",") if inner.count(",") == 3 else inner.split() if "," not in inner else []
    if len(parts) != 4:
        return None
    es = [length(mk, lib, x.strip()) for x in parts]
    if None in es:
        return None
    return lambda r: isinstance(r, lib.get("shapes.Rect")) and all(e(x) for e, x in zip(es, (r.top, r.right, r.left, r.bottom)))


def expect_quotes(mk, lib, v):
    guard(v)
    if isinstance(v, lib.get("wrappers.Quotes")):
        return SKIP
    if isinstance(v, str):
        out = []
        for tok in v.split():
            if not re.fullmatch(r"'[^'\\]*'|\"[^\"\\]*\"", tok):
                # other literals of text: left open
                try:
                    x = ast.literal_eval(tok)
                except Exception:
                    return None
                if not isinstance(x, str) or not x:
                    return None
                return SKIP
            out.append(tok[1:-1])
    elif isinstance(v, (list, tuple)):
        out = []
        for x in v:
            if isinstance(x, (str, S.SymStr)):
                out.append(x)
            elif isinstance(x, (list, tuple)):
                out += x
            elif isinstance(x, (bytes, bytearray, dict, set, range)) or hasattr(x, "__iter__"):
                return SKIP
            else:
                return None
    elif isinstance(v, (Sequence, bytes)):
        return SKIP
    else:
        return None
    if not out or len(out) % 2:
        return None
    if any(not isinstance(x, str) or not x for x in out):
        return None
    pairs = list(zip(out[::2], out[1::2]))
    return lambda r: isinstance(r, lib.get("wrappers.Quotes")) and len(r) == len(pairs) and all((r.opening(k), r.closing(k)) == q for k, q in enumerate(pairs))


def expect_spacing(mk, lib, v):
    guard(v)
    if isinstance(v, (bytes, bytearray, lib.get("wrappers.BorderSpacing"), lib.get("units.Unit"))):
        return SKIP
    if isinstance(v, str):
        parts = v.split()
    elif E.isnum(v):
        parts = [v]
    elif isinstance(v, Sequence):
        parts = list(v)
    else:
        return None
    if len(parts) not in (1, 2):
        return None
    es = [length(mk, lib, x) for x in parts]
    if None in es:
        return None
    return lambda r: isinstance(r, lib.get("wrappers.BorderSpacing")) and es[0](r.horizontal) and es[-1](r.vertical)


def expect_uri(mk, lib, v):
    if not isinstance(v, str):
        return None
    v = v.strip()
    if not (v.startswith("url(") and v.endswith(")")):
        return None
    u = v[4:-1].strip()
    if u in ("'", '"'):
        return SKIP
    if u[:1] == u[-1:] and u[:1] in ("'", '"'):
        u = u[1:-1]
    return lambda r: isinstance(r, lib.get("wrappers.Uri")) and r.url == u


def expect_cursor(mk, lib, v):
    guard(v)
    if isinstance(v, lib.get("wrappers.Cursor")):
        return SKIP
    if isinstance(v, str):
        if re.search(r"\([^)]*,", v):
            return SKIP
        parts = [x.strip() for x in v.split(",")]
    elif isinstance(v, (bytes, bytearray)):
        return SKIP if not v else None
    elif isinstance(v, Sequence):
        parts = list(v)
    else:
        return None
    if not parts:
        return SKIP
    es = []
    for k, x in enumerate(parts):
        if isinstance(x, str) and x in CURSORS:
            if k < len(parts) - 1:
                return None
            es.append(lambda r, x=x: type(r) is str and r == x)
        else:
            e = expect_uri(mk, lib, x)
            if e is None or e is SKIP:
                return e
            es.append(e)
    return lambda r: isinstance(r, lib.get("wrappers.Cursor")) and len(r) == len(es) and all(e(x) for e, x in zip(es, r))
