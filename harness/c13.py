"""C13 - absolute sizes are relativized exactly or refused; fit-to-screen stays safe."""
import random

import c12
import docs
import gensets
import writers
from c08 import reader
from core import Check, cps, run_op

DIMS = [(640, 360), (1920, 1080), (1280, 720), (333, 777), (7, 3), (720, 480), (1000, 1000)]
UNITS = ["px", "em", "pt", "c", "%"]
MAXN = {"px": 200000, "em": 10000, "pt": 50000, "c": 6400, "%": 20000}
NICE = {"px": [0, 50, 100, 1600, 3333, 6400, 36000, 64000, 57600, 34200, 12345, 99999],
        "em": [0, 25, 100, 150, 250, 1000, 2000, 4000], "pt": [0, 75, 100, 1200, 1150, 7200, 9999],
        "c": [0, 50, 100, 300, 350, 1000, 1500, 1600, 3200, 2880], "%": [0, 1, 50, 1000, 3333, 5000, 9000, 9001, 9500, 9501, 10000]}


def pct(s, axis, w, h):
    """A size in percent, as the property states it; None if not computable."""
    n, u = s[0] / 100, s[1]
    dim = w if axis == "h" else h
    if u == "%":
        return n
    if u == "c":
        return n * 100 / (32 if axis == "h" else 15)
    if not dim:
        return None
    return n * {"px": 1, "em": 16, "pt": 4 / 3}[u] * 100 / dim


def one(r, units):
    u = r.choice(units)
    k = r.random()
    n = r.choice(NICE[u]) if k < .5 else r.randrange(0, MAXN[u] // 4) if k < .8 else r.randrange(0, MAXN[u] // 400) * 100
    return n, u


def near(r, units, target, axis, w, h):
    """A size of about target percent: exactly there, a hundredth off, or anything below."""
    u = r.choice(units)
    unit = pct((100, u), axis, w, h)
    if unit is None:
        return one(r, units)
    n = round(target / unit * 100)
    n = min(max(0, n + r.choice([0, 0, -1, 1, -100, 100, -7])), MAXN[u])
    return (n, u) if r.random() < .7 else (r.randrange(0, n + 1), u)


def spec(r, w, h, fit, mixed, percent=False):
    units = ["%"] if percent else UNITS if mixed else [r.choice(UNITS), r.choice(UNITS)]
    for _ in range(200):
        o = e = p = None
        if r.random() < .75:
            o = (near(r, units, r.choice([90, 90, 50, 10, 30]), "h", w, h), near(r, units, r.choice([95, 5, 50, 80]), "v", w, h)) if fit or r.random() < .5 \
                else (one(r, units), one(r, units))
        if r.random() < .6:
            e = (one(r, units), one(r, units))
            if o and (fit or r.random() < .5):
                ox, oy = pct(o[0], "h", w, h), pct(o[1], "v", w, h)
                if ox is not None and oy is not None:
                    e = (near(r, units, 90 - ox, "h", w, h), near(r, units, 95 - oy, "v", w, h))
        if r.random() < .4:
            p = tuple(near(r, units, r.choice([1, 3, 8]), a, w, h) for a in "vvhh")
        hv = (r.choice(c12.HS[:-1]), r.choice(c12.VS[:-1])) if r.random() < .4 else (None, None)
        if not (o or e or p):
            continue
        q = lambda s, a: pct(s, a, w, h)
        if fit and o:
            x, y = q(o[0], "h"), q(o[1], "v")
            if x is not None and not 10 <= x <= 90 or y is not None and not 5 <= y <= 95:
                continue
        if p:
            width = q(e[0], "h") if e else None
            if fit and o and q(o[0], "h") is not None:
                width = min(90 - q(o[0], "h"), width if width is not None else 1000)
            ps = [q(p[2], "h"), q(p[3], "h")]
            if width is not None and None not in ps and width - sum(ps) < .02:
                continue
        return {"o": o, "e": e, "p": p, "h": hv[0], "v": hv[1]}
    return {"o": ((5000, "%"), (5000, "%")), "e": None, "p": None, "h": None, "v": None}


def make(o=None, e=None, p=None, h=None, v=None):
    from pycaption.geometry import Layout, Padding, Point, Stretch
    z = lambda q: [c12.S(*x) for x in q]
    return Layout(Point(*z(o)) if o else None, Stretch(*z(e)) if e else None, Padding(*z(p)) if p else None, c12.align(h, v))


def sized(s):
    n = s[0]
    return (f"{n // 100}" + ("" if n % 100 == 0 else f".{n % 100:02d}")) + s[1]


def region_doc(r, w, h, fit):
    """A DFXP document with regions in all units."""
    regs, narrow = [], True
    for i in range(docs.count(r, [1, 2, 3])):
        s = spec(r, w, h, fit, True)
        if s["p"] and not s["e"]:       # it may inherit the extent of the root: the whole width
            narrow = narrow and sum(pct(q, "h", w, h) or 0 for q in s["p"][2:]) < 99
        a = "".join(f' tts:{n}="{" ".join(map(sized, q))}"' for n, q in
                    (("origin", s["o"]), ("extent", s["e"]), ("padding", s["p"] and (s["p"][0], s["p"][3], s["p"][1], s["p"][2]))) if q)
        regs.append(f'<region xml:id="g{i}"{a}/>')
    at = lambda p: f' region="g{r.randrange(len(regs))}"' if r.random() < p else ""
    o = ['<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"'
         + (f' tts:extent="{r.choice([w, w + .5])}px {r.choice([h, h + .25])}px"' if r.random() < .3 and narrow else "") + "><head><layout>"
         + "".join(regs) + '</layout></head><body><div xml:lang="en"' + at(.3) + ">"]
    for t in range(docs.count(r, [1, 2, 3])):
        o.append(f'<p begin="{2 * t}s" end="{2 * t + 1}s"{at(.8)}>{docs.words(r, 1, 2)}<br/>x</p>')
    return "\n".join(o) + "</div></body></tt>"


def sami_doc(r, w, h):
    """A SAMI document with margins in its style sheet."""
    units = ["px", "em", "pt", "%"]

    def margins(p):
        return "".join(f" margin-{s}: {sized(near(r, units, r.choice([1, 5, 20]), a, w, h))};"
                       for s, a in (("top", "v"), ("bottom", "v"), ("left", "h"), ("right", "h")) if r.random() < p)
    css = f"P {{ color: white;{margins(r.choice([0, .6, 1]))} }}\n"
    langs = r.sample([("ENCC", "en-US"), ("FRCC", "fr"), ("DECC", "de")], r.choice([1, 1, 2]))
    for c, lg in langs:
        css += f".{c} {{ Name: x; lang: {lg};{margins(r.choice([0, .5, 1]))} }}\n"
    o = [f'<SAMI><HEAD><STYLE TYPE="text/css"><!--\n{docs.sheet(r, css)}--></STYLE></HEAD><BODY>']
    for t in range(docs.count(r, [1, 2, 3])):
        o.append(f"<SYNC start={t * 1000}>" + "".join(f"<P class={c}>{docs.xesc(docs.words(r, 1, 2))}</P>" for c, _ in langs) + "</SYNC>")
    return "\n".join(o) + "</BODY></SAMI>"


def sami_set(r, w, h):
    from pycaption.base import Caption, CaptionList, CaptionNode as N, CaptionSet
    pads = [make(p=tuple(near(r, UNITS, r.choice([1, 8, 30]), a, w, h) for a in "vvhh"), o=(one(r, UNITS), one(r, UNITS)) if r.random() < .2 else None)
            for _ in range(2)]
    pick = lambda p: r.choice(pads) if r.random() < p else None
    d, styles = {}, {}
    for i, lg in enumerate(r.sample(gensets.LANGS, r.choice([1, 1, 2]))):
        lay = pick(.8)
        if r.random() < .3:
            styles[f"cls{i}"] = {"lang": lg, "color": "red"}
        d[lg] = CaptionList([Caption(t * 10 ** 6, (t + 1) * 10 ** 6, [N.create_text(docs.words(r, 1, 2), layout_info=pick(.2))], layout_info=pick(.2),
                                     style={"class": f"cls{i}"} if f"cls{i}" in styles else {}) for t in range(docs.count(r, [1, 2]))], layout_info=lay)
    if r.random() < .3:
        styles["p"] = {"color": "white"}
    return CaptionSet(d, styles=styles, layout_info=pick(.3))


class C13(Check):
    prop = "C13"
    assumptions = ["values and sums of values are compared up to the rounding to two decimals",
                   "refusal is demanded when the layout in force of a visible character needs the missing dimension, and tolerated when any layout of "
                   "the set does or measures that axis in cells",
                   "with fit-to-screen origins are inside the safe area; paddings are narrower than the extent; fit-to-screen without relativization "
                   "is judged on relative layouts only"]

    def scenarios(self):
        n = self.n(280, 5000)
        out = [{"kind": k, "seed": f"C13-{self.seed}-{k}-{i}"} for k in ("set", "set", "unit", "doc", "sami", "samidoc") for i in range(n)]
        for i, s in enumerate(out):
            s["seed"] += f"-{i}"
        for k in ("set", "unit", "doc", "sami", "samidoc"):
            out += self.big(5, 60, (12, 26), kind=k)
        return out

    @staticmethod
    def execute(scn):
        r = random.Random(scn["seed"])
        k = scn["kind"]
        w, h = r.choice(DIMS)
        fit = r.random() < .5 and not k.startswith("sami")
        rel = r.random() < .85
        if fit and not rel and k == "doc":
            fit = False
        pc = not rel and (fit or r.random() < .5)       # nothing to relativize
        if k == "doc":
            ok, cs = run_op(lambda: reader("dfxp").read(region_doc(r, w, h, fit)))
        elif k == "samidoc":
            ok, cs = run_op(lambda: reader("sami").read(sami_doc(r, w, h)))
        elif k == "sami":
            ok, cs = True, sami_set(r, w, h)
        elif k == "unit":       # one layout, one language
            ok, cs = True, c12.random_set(r, True, [spec(r, w, h, fit, False, pc)], make)
        else:
            ok, cs = True, c12.random_set(r, r.random() < .5, [spec(r, w, h, fit, True, pc) for _ in range(docs.count(r, [1, 2, 3]))], make)
        if not ok:
            return None         # C04 and C12 judge reading
        kw = {"relativize": rel, "fit_to_screen": fit}
        x = r.random()
        if x < .7 or x > .9:
            kw["video_width"] = w
        if x < .8:
            kw["video_height"] = h
        p = c12.project(cs)
        evs = []
        for fmt in (["sami"] if k.startswith("sami") else ["dfxp", "vtt"]):
            wkw = dict(kw)
            if fmt == "dfxp" and r.random() < .3:
                wkw["write_inline_positioning"] = True
            ok, doc = writers.write(fmt, cs, wkw)
            evs.append({"ev": fmt, "fit": fit, "rel": rel, "w": kw.get("video_width", 0), "h": kw.get("video_height", 0), "set": p, "scn": scn,
                        **writers.out(ok, doc)})
        return evs
