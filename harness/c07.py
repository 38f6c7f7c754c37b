"""C07 - DFXP output is well-formed XML and internally consistent."""
import random

import bodies
import docs
import gensets
import hostile
import sccgen
import writers
from core import Check, cps, run_op
from project import set_basic

CTRL = ["\x00", "\x01", "\x0b", "\x0c", "\x1f", "\x7f", "\x85", "\ud800", "\udfff", "\ufffe", "\uffff", "\u2028", "\r", "\n", "\t"]
NAMES = ["p", "bottom", "r0", "r1", "default", "s1", "a b", "1st", "x&y", "<b>", "\"q\"", "it's", "-x", "a:b", "été", "日本", "a\nb", "_x0041_",
         "A", "speaker", ".c", "a;b", "bottom_", "r2", "  ", "]]>"]
VALS = ["red", "#fff", "\"a\"", "'b'", "a & b", "<x>", "a\"b'c&<>", "&amp;", "1c", "Tahoma, \"Sans Serif\"", "x\x01y", "a\nb", "", "]]>", "é", "\ud800"]
LCODES = ["en-US", "fr", "de", "a&b", "<en>", "\"en\"", "it's", "zh Hant", "x\x01", "日本", "en\tus", "und", ""]


def hostile_style(r, names):
    st = {}
    for k in r.sample(["class", "text-align", "italics", "bold", "underline", "font-family", "font-size", "color", "display-align", "region", "xx"],
                      r.randint(0, 4)):
        if k == "class":
            st["class"] = r.choice(names)
            if r.random() < .5:
                st["classes"] = [st["class"]]
        elif k in ("italics", "bold", "underline"):
            st[k] = r.choice([True, True, False])
        elif k == "region":
            st[k] = r.choice(["bottom", "r0", "x"])
        else:
            st[k] = r.choice(VALS)
    return st


def text(r):
    s = hostile.line(r)
    if r.random() < .25:
        k = r.randrange(len(s) + 1)
        s = s[:k] + r.choice(CTRL) + s[k:]
    return s


def api_set(r, many=False):
    from pycaption.base import Caption, CaptionList, CaptionNode as N, CaptionSet
    names = r.sample(NAMES, r.randint(1, len(NAMES) if many else 6))
    pool = [None] + [gensets.layout(r) for _ in range(r.randint(8, 30) if many else r.randint(0, 3))]
    styles = {}
    if r.random() < .7:
        for n in names[:r.randint(0, len(names))]:
            styles[n] = hostile_style(r, names)

    def nodes():
        out, op = [], []
        deep = r.choice([2, 2, 2, 4])
        for i in range(r.randint(1, 6) if deep == 2 else r.randint(6, 14)):
            k = r.random()
            if k < .25 and len(op) < deep:
                st = hostile_style(r, names)
                op.append(st)
                out.append(N.create_style(True, st, layout_info=r.choice(pool)))
            elif k < .45 and op:
                st = op.pop()
                out.append(N.create_style(False, r.choice([st, dict(st)]), layout_info=r.choice(pool)))
            elif k < .6:
                out.append(N.create_break(layout_info=r.choice(pool)))
            else:
                out.append(N.create_text(text(r), layout_info=r.choice(pool)))
        while op:
            out.append(N.create_style(False, op.pop(), layout_info=r.choice(pool)))
        return out

    d = {}
    for lg in r.sample(LCODES, r.choice([1, 1, 2, 3])):
        cl = CaptionList(layout_info=r.choice(pool))
        t = r.choice(gensets.EDGES)
        for _ in range(r.choice([12, 30, 105] if many else [0, 1, 1, 2, 3])):
            st = hostile_style(r, names) if r.random() < .5 else {}
            for _ in range(r.choice([1, 1, 1, 2])):
                cl.append(Caption(t, t + 10 ** 6, nodes(), style=st, layout_info=r.choice(pool)))
            t += r.choice([0, 10 ** 6, 2 * 10 ** 6])
        d[lg] = cl
    return CaptionSet(d, styles=styles, layout_info=r.choice(pool))


def read_set(r):
    """A caption set returned by one of the readers."""
    import pycaption as p
    fmt = r.choice(["srt", "vtt", "mdvd", "dfxp", "sami", "dfxp", "sami", "scc"])
    if fmt == "srt":
        return fmt, run_op(lambda: p.SRTReader().read(docs.srt_doc(r, textfn=lambda: [text(r) or "x"], maxcues=3)))
    if fmt == "vtt":
        return fmt, run_op(lambda: p.WebVTTReader(ignore_timing_errors=True).read(
            docs.vtt_doc(r, textfn=lambda: bodies.vtt_lines(r), maxcues=3)))
    if fmt == "mdvd":
        return fmt, run_op(lambda: p.MicroDVDReader().read(docs.mdvd_doc(r, textfn=lambda: [text(r) or "x"], maxcues=3)))
    if fmt == "scc":
        return fmt, run_op(lambda: p.SCCReader().read(sccgen.simple_doc(r)))
    if fmt == "dfxp":
        return fmt, run_op(lambda: p.DFXPReader(read_invalid_positioning=r.random() < .3).read(docs.styled_dfxp(r)))
    return fmt, run_op(lambda: p.SAMIReader().read(docs.styled_sami(r)))


class C07(Check):
    prop = "C07"
    assumptions = ["caption sets: built through the API with balanced style nodes, or read from generated documents of all six formats",
                   "layouts are percentages or convertible with the video size handed to the writer"]

    def scenarios(self):
        n = self.n(400, 6000)
        return [{"fmt": f, "src": s, "seed": f"C07-{self.seed}-{f}-{s}-{i}"}
                for f in ("dfxp", "single", "legacy") for s in ("api", "read") for i in range(n if s == "api" else n // 2)] + [
                {"fmt": f, "src": "api", "many": True, "seed": f"C07-many-{self.seed}-{f}-{i}"} for f in ("dfxp", "single", "legacy") for i in range(self.n(4, 40))]

    @staticmethod
    def execute(scn):
        from lxml import etree
        fmt, r = scn["fmt"], random.Random(scn["seed"])
        if scn["src"] == "api":
            src, cs = "api", api_set(r, scn.get("many"))
        else:
            src, (ok, cs) = read_set(r)
            if not ok:
                return None
        ls = [{"lang": x["lang"], "caps": [{"s": c["s"], "e": c["e"]} for c in x["caps"]]} for x in set_basic(cs)]
        ckw, wkw = {}, {}
        if fmt != "legacy":
            ckw = {"video_width": 640, "video_height": 360}
            if r.random() < .3:
                ckw["write_inline_positioning"] = True
            if r.random() < .3:
                ckw["fit_to_screen"] = False
            if fmt == "single" and r.random() < .5:
                ckw["default_positioning"] = gensets.layout(r)
        if r.random() < .2 and all(cs.get_languages()):
            k = r.randrange(len(ls))
            wkw = {"force": cs.get_languages()[k]}
            ls = [ls[k]]
        ok, doc = writers.write(fmt, cs, ckw, wkw)
        lx = False
        if ok:
            try:
                etree.fromstring(doc.encode("utf-8"), etree.XMLParser(recover=False))
                lx = True
            except (etree.XMLSyntaxError, UnicodeEncodeError):
                pass
        return {"fmt": fmt, "src": src, "langs": ls, "lxml": lx, "out": writers.out(ok, doc), "scn": scn}
