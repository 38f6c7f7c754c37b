"""C12 - positioning survives DFXP round trips and maps to WebVTT settings."""
import itertools
import random

import docs
import gensets
import hostile
import writers
from c08 import reader
from core import Check, cps, inst, run_op

LONG = {"left": "left", "center": "center", "right": "right", "start": "start", "end": "end",
        "top": "before", "bottom": "after"}


# ------------------------------------------------------------ projection
def size(s):
    n = round(s.value * 100)
    return {"n": n, "u": s.unit.value if abs(s.value * 100 - n) < 1e-6 and n >= 0 else "?"}


def lay(l):
    out = {"o": [], "e": [], "p": [], "h": "", "v": "", "vtt": []}
    if l is None:
        return out
    if l.origin:
        out["o"] = [size(l.origin.x), size(l.origin.y)]
    if l.extent:
        out["e"] = [size(l.extent.horizontal), size(l.extent.vertical)]
    if l.padding:
        out["p"] = [size(x) for x in (l.padding.before, l.padding.after, l.padding.start, l.padding.end)]
    if l.alignment:
        out["h"] = LONG[l.alignment.horizontal.value] if l.alignment.horizontal else ""
        if l.alignment.vertical:
            v = l.alignment.vertical.value
            out["v"] = "center" if v == "center" else LONG[v]
    if l.webvtt_positioning:
        out["vtt"] = cps(l.webvtt_positioning)
    return out


def project(cs):
    from pycaption.base import CaptionNode as N
    ls = []
    for lg in cs.get_languages():
        caps = []
        for c in cs.get_captions(lg):
            ns = [{"k": {N.TEXT: "t", N.BREAK: "b", N.STYLE: "s"}[n.type_], "c": cps(n.content) if n.type_ == N.TEXT else [],
                   "on": bool(n.start), "lay": lay(n.layout_info)} for n in c.nodes]
            caps.append({"lay": lay(c.layout_info), "s": inst(c.start), "e": inst(c.end), "ns": ns})
        ls.append({"lang": cps(lg), "lay": lay(cs.get_layout_info(lg)), "caps": caps})
    return {"lay": lay(cs.layout_info), "ls": ls}


# ------------------------------------------------------------ layouts
def S(n, u="%"):
    from pycaption.geometry import Size, UnitEnum
    v = n / 100
    return Size(int(v) if n % 100 == 0 else v, UnitEnum(u))


def val(r, lo=0, hi=10000):
    k = r.random()
    if k < .15:
        return r.choice([x for x in (0, 1, 10, 50, 99, 100, 500, 1000, 3333, 6667, 8999, 9000, 9001, 9500, 9501, 9999, 10000) if lo <= x <= hi] or [lo])
    if k < .6:
        return r.randrange(lo // 100, hi // 100 + 1) * 100
    return r.randint(lo, hi)


def align(h, v):
    from pycaption.geometry import Alignment, HorizontalAlignmentEnum as H, VerticalAlignmentEnum as V
    if not h and not v:
        return None
    return Alignment(H(h) if h else None, V(v) if v else None)


EDGE, FULL = (10000, 10000), None
HS = ["left", "center", "right", "start", "end", None]
VS = ["top", "center", "bottom", None]


def make(o=None, e=None, p=None, h=None, v=None):
    from pycaption.geometry import Layout, Padding, Point, Stretch
    return Layout(Point(*map(S, o)) if o else None, Stretch(*map(S, e)) if e else None,
                  Padding(*map(S, p)) if p else None, align(h, v))


def point(r):
    return val(r, 0, EDGE[0]), val(r, 0, EDGE[1])


def spec(r, origin=.75):
    """Parameters of a layout that says something."""
    o = point(r) if r.random() < origin else None
    e = (val(r), val(r)) if r.random() < .5 else None
    p = tuple(val(r, 0, 1500) for _ in range(4)) if r.random() < .4 else None
    if p and e and p[2] + p[3] > e[0]:
        e = (min(10000, p[2] + p[3] + e[0]), e[1])
    if p and o and o[0] > 5900:
        o = (o[0] - 3100, o[1])
    h, v = (r.choice(HS[:FULL]), r.choice(VS[:FULL])) if r.random() < .6 else (None, None)
    if not (o or e or p or h or v):
        h = "right"
    return {"o": o, "e": e, "p": p, "h": h, "v": v}


def twin(r, s):
    """A layout that differs from s in one respect only."""
    t = dict(s)
    k = r.choice(["o", "o", "e", "p", "p", "h", "v", "swap", "drop"])
    if k in ("o", "e") and t[k]:
        i = r.randrange(2)
        x = list(t[k])
        x[i] = x[i] + 1 if x[i] < (EDGE[i] if k == "o" else 10000) else x[i] - 1
        t[k] = tuple(x)
    elif k == "p" and t["p"]:
        i = r.randrange(4)
        x = list(t["p"])
        x[i] += 1
        t["p"] = tuple(x)
    elif k == "swap" and t["o"] and t["o"][0] != t["o"][1] and t["o"][1] <= EDGE[0]:
        t["o"] = t["o"][::-1] if not t["p"] or t["o"][1] <= 5900 else (t["o"][0], 77)
    elif k == "swap" and t["p"] and t["p"][0] != t["p"][1]:
        t["p"] = (t["p"][1], t["p"][0]) + t["p"][2:]
    elif k == "drop" and t["p"] and t["o"]:
        t["p"] = None
    elif k == "v" and (t["h"] or not FULL):
        t["v"] = r.choice([v for v in VS[:FULL] if v != t["v"]])
    elif k == "h" and (t["v"] or not FULL):
        t["h"] = r.choice([h for h in HS[:FULL] if h != t["h"]])
    if t == s or not any(t.values()):
        t["o"] = (r.randrange(5900), r.randrange(9000))
    if t["p"] and t["e"] and t["p"][2] + t["p"][3] > t["e"][0]:
        t["e"] = (10000, t["e"][1])
    return t


# ------------------------------------------------------------ sets
def leveled(levels, L):
    """Captions for the generated assignments of layouts to levels (one set)."""
    from pycaption.base import Caption, CaptionList, CaptionNode as N, CaptionSet
    X = {0: None, 1: L[0], 2: L[1]}
    cl = CaptionList(layout_info=X[levels[0][1]])
    for j, a in enumerate(levels):
        _s, _l, cap, span, t1, t2, t3 = a
        ns = [N.create_text(f"a{j}", layout_info=X[t1])]
        if span != 3:
            ns.append(N.create_style(True, {"italics": True}, layout_info=X[span]))
        ns += [N.create_break(layout_info=X[t2]), N.create_text(f"b{j}", layout_info=X[t2])]
        if span != 3:
            ns.append(N.create_style(False, {"italics": True}, layout_info=X[span]))
        ns += [N.create_break(layout_info=X[t3]), N.create_text(f"c{j}", layout_info=X[t3])]
        cl.append(Caption(j * 2000000, j * 2000000 + 1500000, ns, layout_info=X[cap]))
    return CaptionSet({"en-US": cl}, layout_info=X[levels[0][0]])


def grid():
    """All alignment pairs, with and without the other parts."""
    out = []
    for h, v in itertools.product(HS, VS):
        for o, e, p in itertools.product((0, 1), repeat=3):
            if h or v or o or e or p:
                out.append((h, v, o, e, p))
    return out


def grid_set(r, cells, level):
    from pycaption.base import Caption, CaptionList, CaptionNode as N, CaptionSet
    cl = CaptionList()
    for j, (h, v, o, e, p) in enumerate(cells):
        pad = tuple(val(r, 0, 900) for _ in range(4)) if p else None
        l = make((val(r, 0, 5900 if p else EDGE[0]), val(r, 0, EDGE[1])) if o else None, (val(r, 1900, 10000), val(r)) if e else None, pad, h, v)
        node = l if level == "node" else None
        cl.append(Caption(j * 2000000, j * 2000000 + 1500000,
                          [N.create_text(f"x{j}", layout_info=node), N.create_break(layout_info=node), N.create_text("y", layout_info=node)],
                          layout_info=l if level == "caption" else None))
    return CaptionSet({"en-US": cl})


def random_set(r, vtt, specs=None, make=make):
    """Several languages; few layouts, some nearly the same, at random levels."""
    from pycaption.base import Caption, CaptionList, CaptionNode as N, CaptionSet
    if specs is None:
        specs = [spec(r)]
        for _ in range(docs.count(r, [0, 1, 2, 3])):
            specs.append(twin(r, r.choice(specs)) if r.random() < .6 else spec(r))

    def pick(p):
        # equal layouts may be different objects
        return make(**r.choice(specs)) if r.random() < p else None
    d = {}
    for lg in r.sample(gensets.LANGS, 1 if vtt else r.choice([1, 1, 2, 3])):
        cl, t = CaptionList(layout_info=pick(.3)), r.choice([0, 5 * 10 ** 6, 3600 * 10 ** 6])
        for _ in range(docs.count(r, [1, 2, 3])):
            ns, opened, cur = [], None, pick(.6)
            for i in range(r.choice([1, 2, 3, 4])):
                if i and r.random() < .7:
                    ns.append(N.create_break(layout_info=cur))
                if opened is None and r.random() < .4:
                    cur = pick(.7)
                if opened is None and r.random() < .3:
                    opened = dict(r.choice(gensets.STYLE))
                    ns.append(N.create_style(True, opened, layout_info=cur))
                txt = hostile.line(r, maxn=2) if r.random() < .2 else docs.words(r, 1, 2)
                ns.append(N.create_text(txt if txt.strip() and txt.isprintable() else "x", layout_info=cur))
                if opened is not None and r.random() < .6:
                    ns.append(N.create_style(False, dict(opened), layout_info=cur))
                    opened = None
                    if r.random() < .3:
                        ns.append(N.create_text("z", layout_info=cur))
            if opened is not None:
                ns.append(N.create_style(False, dict(opened), layout_info=cur))
            cl.append(Caption(t, t + 10 ** 6, ns, layout_info=pick(.4)))
            t += 2 * 10 ** 6
        d[lg] = cl
    return CaptionSet(d, layout_info=pick(.2))


# ------------------------------------------------------------ documents
DECOY = {"tts:origin": ['tts:origin="3% 4%"', 'tts:origin="41% 42%"'], "tts:extent": ['tts:extent="44% 33%"'],
         "tts:padding": ['tts:padding="1%"', 'tts:padding="1% 2% 3% 4%"'],
         "tts:textAlign": ['tts:textAlign="center"', 'tts:textAlign="right"'],
         "tts:displayAlign": ['tts:displayAlign="center"', 'tts:displayAlign="before"']}


def region_doc(r):
    """A DFXP document with regions, padding of 1-4 values, assigned at every level."""
    n = docs.count(r, [1, 2, 3, 4])

    def num(v=None):
        v = val(r) if v is None else v
        return f"{v // 100}" + ("" if v % 100 == 0 else f".{v % 100:02d}" if v % 10 else f".{v % 100 // 10}") + "%"
    regs, styles = [], []

    def style(x):
        """The name of a style with attribute x, or of one that leads to it."""
        styles.append(f'<style xml:id="q{len(styles)}" {x}/>')
        k = f"q{len(styles) - 1}"
        return style(f'style="{k}"') if r.random() < .3 else k
    for i in range(n):
        a = []
        if r.random() < .7:
            a.append(f'tts:origin="{" ".join(map(num, point(r)))}"')
        if r.random() < .6:
            a.append(f'tts:extent="{num(val(r, 3000))} {num()}"')
        if r.random() < (0 if a and "origin" in a[0] and EDGE[0] < 10000 else .6):
            a.append('tts:padding="' + " ".join(num(val(r, 0, 1500)) for _ in range(r.choice([1, 2, 3, 4]))) + '"')
        if r.random() < .5:
            a.append(f'tts:textAlign="{r.choice(["left", "center", "right", "start", "end"])}"')
        if r.random() < .5:
            a.append(f'tts:displayAlign="{r.choice(["before", "center", "after"])}"')
        if not a:
            a.append('tts:textAlign="right"')
        r.shuffle(a)
        own, inner = a, ""
        if r.random() < .4:     # attributes on styles nested in the region, or referenced, through any number of references
            own = []
            for x in a:
                k = r.randrange(4)
                ref = "" if r.random() < .5 else f' style="{style("")}"'
                if k == 0:
                    own.append(x)
                elif k == 1:
                    inner += f"<style {x}{ref}/>"
                elif k == 2:
                    inner += f'<style style="{style(x)}"/>'
                elif not any(y.startswith("style") for y in own):
                    own.append(f'style="{style(x)}"')
                else:
                    own.append(x)
            for x in a if r.random() < .5 else []:      # the same attribute again where it comes second
                no, k = DECOY[x.split("=")[0]], r.randrange(3)
                if x in no:
                    continue
                d = r.choice(no)
                if k == 0 and x in own:
                    inner += f"<style {d}/>"
                elif k < 2 and x in own or f"<style {x}" in inner:
                    if not any(y.startswith("style") for y in own):
                        own.append(f'style="{style(d)}"')
                elif f"{x}/>" in "".join(styles):
                    j = next(j for j, y in enumerate(styles) if f"{x}/>" in y)
                    styles[j] = styles[j].replace(f"{x}/>", f'{x} style="{style(d)}"/>')
        regs.append(f'<region xml:id="g{i}" ' + " ".join(own) + (f">{inner}</region>" if inner or r.random() < .1 else "/>"))
    r.shuffle(regs)
    ids = [f"g{i}" for i in range(n)]

    def at(p):
        return f' region="{r.choice(ids)}"' if r.random() < p else ""

    al = {k: style(f'tts:textAlign="{k}"') for k in ("left", "right", "center", "end")} if r.random() < .4 else {}

    def align(p):
        if r.random() >= p:
            return ""
        k = r.choice(["left", "right", "center", "end"])
        return f' style="{al[k]}"' if al and r.random() < .5 else f' tts:textAlign="{k}"'
    o = ['<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head>' + (f"<styling>{''.join(styles)}</styling>" if styles else "") + '<layout>'
         + "".join(regs) + "</layout></head><body" + at(.15) + ">"]
    t = 0
    for lg in r.sample(["en", "fr", "de"], r.choice([1, 1, 2])):
        o.append(f'<div xml:lang="{lg}"' + at(.3) + align(.1) + ">")
        for _ in range(docs.count(r, [1, 2, 3])):
            preg = at(.85)
            body = docs.words(r, 1, 2)
            for _ in range(r.choice([0, 0, 1, 2])):
                body += r.choice(["<br/>", "", " and"]) + f"<span{at(.6) if preg else ''}>{docs.words(r, 1, 2)}</span>" + r.choice(["", " tail", "<br/>z"])
            o.append(f'<p begin="{t}s" end="{t + 1}s"{preg}{align(.2) if preg else ""}>{body}</p>')
            t += 2
        o.append("</div>")
    return "\n".join(o) + "</body></tt>"


SETTINGS = ["align:left", "align:start", "align:center", "align:end", "align:right", "align:middle", "position:10%", "position:33.33%",
            "position:50%,line-left", "line:0", "line:-1", "line:85%", "line:10%,end", "size:50%", "size:33.3%", "vertical:rl", "vertical:lr",
            "region:fred", "X:1", "D:vertical", "L:10%", "foo", "position:10", "a-->b"]


def vtt_doc(r):
    out = ["WEBVTT", ""]
    t = 0
    for _ in range(docs.count(r, [1, 2, 3, 5])):
        if r.random() < .2:
            out.append(r.choice(["1", "id", "NOTE-x"]))
        s = r.choice([" ", " ", "  ", "\t"]).join(r.sample(SETTINGS[:-1], r.choice([0, 1, 1, 2, 3, 4])))
        out.append(f"00:{t // 60:02d}:{t % 60:02d}.000 --> 00:{(t + 1) // 60:02d}:{(t + 1) % 60:02d}.500" + (r.choice([" ", " ", "  ", "\t"]) + s if s else ""))
        out += [docs.words(r, 1, 3) for _ in range(r.choice([1, 1, 2]))]
        out.append("")
        t += r.choice([2, 3])
    return "\n".join(out)


class C12(Check):
    prop = "C12"
    assumptions = ["percentages of at most two decimals, none negative; paddings no wider than the extent they are cut out of",
                   "the nodes of a style span carry the layout of the text inside it",
                   "position and line of a cue are judged where the layout has an origin"]

    def scenarios(self):
        lv = self.generate("GenLevels")
        groups = {}
        for a in lv:
            groups.setdefault((a[0], a[1]), []).append(a)
        out = []
        for rep in range(self.n(2, 24)):
            for g in groups.values():
                for i in range(0, len(g), 18):
                    out.append({"kind": "levels", "batch": g[i:i + 18], "seed": f"C12-{self.seed}-lv-{rep}-{i}-{g[0][:2]}"})
        cells = grid()
        for rep in range(self.n(1, 10)):
            for level in ("caption", "node"):
                for i in range(0, len(cells), 12):
                    out.append({"kind": "grid", "cells": cells[i:i + 12], "level": level, "seed": f"C12-{self.seed}-grid-{rep}-{level}-{i}"})
        n = self.n(260, 5000)
        out += [{"kind": k, "seed": f"C12-{self.seed}-{k}-{i}"} for k in ("random", "doc", "copy") for i in range(n)]
        out += [{"kind": "absdoc", "seed": f"C12-{self.seed}-abs-{i}"} for i in range(n // 2)]
        for k in ("random", "doc", "copy", "absdoc"):
            out += self.big(6, 80, (12, 26), kind=k)
        return out

    @staticmethod
    def execute(scn):
        r = random.Random(scn["seed"])
        if scn["kind"] == "copy":
            src = vtt_doc(r)
            kw = {"fit_to_screen": r.random() < .5, "relativize": r.random() < .5}
            if r.random() < .3:
                kw.update(video_width=640, video_height=360)

            def go():
                cs = reader("vtt").read(src)
                return writers.make("vtt", **kw).write(cs)
            ok, doc = run_op(go)
            return {"ev": "copy", "src": cps(src), "scn": scn, **writers.out(ok, doc)}
        evs, fit = [], r.random() < .5
        global EDGE, FULL
        inline = r.random() < .3
        # what is written inline is inherited by the elements inside: no half alignments
        FULL = -1 if inline else None
        EDGE = (9000, 9500) if fit else (10000, 10000)      # origins inside the safe area
        if scn["kind"] == "absdoc":     # lengths in all units, and those of the root element
            import c13
            src = c13.region_doc(r, 640, 360, False)
            ok, cs = run_op(lambda: project(reader("dfxp").read(src)))
            return {"ev": "read", "src": cps(src), "ok": ok, "exc": "" if ok else cs["exc"], "back": cs if ok else {"lay": lay(None), "ls": []}, "scn": scn}
        if scn["kind"] == "doc":
            src = region_doc(r)
            ok, cs = run_op(lambda: reader("dfxp").read(src))
            if not ok:
                return {"ev": "read", "src": cps(src), "ok": False, "exc": cs["exc"], "back": {"lay": lay(None), "ls": []}, "scn": scn}
            evs.append({"ev": "read", "src": cps(src), "ok": True, "exc": "", "back": project(cs), "scn": scn})
            one = len(cs.get_languages()) == 1
        elif scn["kind"] == "grid":
            cs, one = grid_set(r, [tuple(x) for x in scn["cells"]], scn["level"]), True
        elif scn["kind"] == "levels":
            s = spec(r)
            L = [make(**s), make(**(twin(r, s) if r.random() < .6 else spec(r)))]
            cs, one = leveled(scn["batch"], L), True
            vt = leveled([b for b in scn["batch"] if b[3] in (0, 3) or b[3] == b[5]] or [scn["batch"][0][:3] + [3, 0, 0, 0]], L)
        else:
            one = r.random() < .6
            cs = random_set(r, one)
        kw = {"fit_to_screen": fit, "relativize": r.random() < .8}
        if r.random() < .3:
            kw.update(video_width=r.choice([640, 1920, 1]), video_height=r.choice([360, 1080, 1]))
        wkw = dict(kw, write_inline_positioning=inline)
        p = project(cs)
        ok, doc = writers.write("dfxp", cs, wkw)
        ev = {"ev": "dfxp", "fit": fit, "set": p, "rok": False, "back": {"lay": lay(None), "ls": []}, "scn": scn, **writers.out(ok, doc)}
        if ok:
            rok, back = run_op(lambda: project(reader("dfxp").read(doc)))
            ev["rok"] = rok
            if rok:
                ev["back"] = back
        evs.append(ev)
        if one:
            if scn["kind"] == "levels":
                cs, p = vt, project(vt)
            ok, doc = writers.write("vtt", cs, kw)
            evs.append({"ev": "vtt", "fit": fit, "set": p, "scn": scn, **writers.out(ok, doc)})
        return evs
