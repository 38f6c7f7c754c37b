"""C20 - format detection is total, consistent and recognises pycaption's own output."""
import random
import re

import docs
import gensets
import hostile
import sccgen
import writers
from core import Check, cps, run_op

PIECES = ["1", "\n", "-->", "WEBVTT", "<sami", "</tt>", "{1}{20}", "Scenarist_SCC V1.0", " ", "\r\n", "\u0663", "\u00b2", "</TT>",
          "<SAMI>", "\ufeff", "\u2028", "x"]
MARK = re.compile(r"</tt>|<sami|webvtt|scenarist_scc v1\.0|\{\d+\}\{\d+\}", re.I)
OWN = ["DFXPReader", "MicroDVDReader", "WebVTTReader", "SAMIReader", "SRTReader", "SCCReader"]


def detect(txt):
    import pycaption
    own = []
    for n in OWN:
        ok, v = run_op(lambda: getattr(pycaption, n)().detect(txt))
        own.append("X" if not ok else "T" if v else "F")
    ok, v = run_op(pycaption.detect_format, txt)
    return own, (v.__name__ if ok and v is not None else ""), ("" if ok else v["exc"])


def garbage(r):
    """A document, or pieces of several, cut up and shuffled."""
    k = r.random()
    if k < .2:
        return r.choice(["", " ", "\n", "\r", "\r\n", "\t", "\x00", "\ud800", "1", "1\n", "12", "\n\n", "0\r", "\x0c", "\x1c", "\x85", "{", "{1}{", "1\n\n-->"])
    out = []
    for _ in range(r.choice([1, 2, 3, 6])):
        x = r.choice(PIECES + hostile.ATOMS)
        if r.random() < .3:
            x = "".join(chr(r.choice([r.randrange(0, 128), r.randrange(0, 0xd7ff), r.randrange(0xd800, 0xe000), r.randrange(0xe000, 0x11000)]))
                        for _ in range(r.choice([1, 3, 9])))
        if r.random() < .2:
            x = r.choice([x.upper(), x.lower(), x[:-1] or "x", x[::-1]])
        out.append(x)
        out.append(r.choice(["", "\n", "\r\n", "\r", " ", "\u2028", "\x0b"]))
    return "".join(out)


def marked(s):
    return MARK.search(s) is not None


DOCS = {"srt": docs.srt_doc, "vtt": docs.vtt_doc, "mdvd": docs.mdvd_doc, "dfxp": docs.dfxp_doc, "sami": docs.sami_doc,
        "scc": sccgen.simple_doc}


def cuts(r, scn):
    """A document cut short at every place (or at many), the cuts in some order; then whole documents that start or end alike."""
    doc = DOCS[scn["fmt"]](r)
    doc = doc if isinstance(doc, str) else doc[0]
    cut = list(range(1, len(doc) + 1))
    if len(cut) > 250:
        cut = sorted(set(cut[:90] + cut[-60:] + r.sample(cut, 100)))
    how = r.choice(["up", "down", "any"])
    if how != "up":
        cut.reverse() if how == "down" else r.shuffle(cut)
    txts = [doc[:c] for c in cut]
    # the same text as a tail, and other tails after the same text
    txts += [doc[len(doc) - c:] for c in r.sample(cut, min(len(cut), 60))]
    txts += [doc + t for t in r.sample(PIECES + ["</tt>", "<sami", "WEBVTT"], 6) + [""]]
    rows = [detect(t) for t in txts]
    again = {i: detect(txts[i]) for i in r.sample(range(len(txts)), min(len(txts), 40))}
    return {"ev": "cuts", "txt": cps(doc), "scn": scn,
            "rows": [{"own": o, "got": g, "exc": x, "own2": again.get(i, (o, g, x))[0], "got2": again.get(i, (o, g, x))[1]}
                     for i, (o, g, x) in enumerate(rows)]}


def build(r, fmt):
    from pycaption.base import Caption, CaptionList, CaptionSet
    nl = r.choice([1, 1, 1, 2, 3])
    langs = r.sample(gensets.LANGS, nl)
    atoms = [a for a in hostile.ATOMS if not marked(a)]
    pool = [gensets.layout(r) for _ in range(2)] if r.random() < .4 else []
    d, texts = {}, []
    for lg in langs:
        n = r.choice([0, 1, 1, 2, 4]) if nl > 1 else r.choice([1, 1, 2, 4])
        if fmt == "scc":
            ps, t = [], r.choice([5, 10, 3600]) * 10 ** 6
            for _ in range(n):
                ps.append((t, t + r.choice([1, 2, 4]) * 10 ** 6))
                t = ps[-1][1] + r.choice([6, 10]) * 10 ** 6
        else:
            ps = gensets.times(r, n, "seq" if fmt == "sami" else r.choice(["any", "seq"]))[:n] if n else []
            if fmt == "mdvd":           # {0}{0} introduces the frame rate
                ps = [(a, max(b, 40000)) for a, b in ps]
        cl = CaptionList(layout_info=r.choice(pool) if pool and r.random() < .3 else None)
        for a, b in ps:
            while True:
                if fmt == "scc":
                    ls = [sccgen.plain_words(r, 30) for _ in range(r.choice([1, 1, 2]))]
                else:
                    ls = hostile.lines(r, pipe=fmt != "mdvd", atoms=atoms if r.random() < .7 else ["a", "b c", "word", "1", "-->"])
                    ls = [x if x.isprintable() else "x" for x in ls]
                if any(x.strip() for x in ls) and not any(marked(x) for x in ls):
                    break
            texts += ls
            ns = gensets.nodes(r, ls, r.random() < .3, pool, maxsplit=1)
            cl.append(Caption(a, b, ns, style=dict(r.choice(gensets.STYLE)) if r.random() < .2 else {},
                              layout_info=r.choice(pool) if pool and r.random() < .4 else None))
        d[lg] = cl
    return CaptionSet(d), texts


class C20(Check):
    prop = "C20"
    assumptions = ["each reader's own verdict is the one a fresh reader object gives on the same string",
                   "written documents: sets with a caption; SCC: basic letters and well-spaced cues; texts without any format's marker"]

    def model_check(self):
        self.txts = self.generate("MC_Detect", "MC_DetectDeep" if self.thorough else None)

    def scenarios(self):
        n = self.n(120, 1500)
        out = [{"kind": "write", "fmt": f, "seed": f"C20-{self.seed}-{f}-{i}"} for f in writers.ALL for i in range(n)]
        out += [{"kind": "garbage", "seed": f"C20-{self.seed}-{i}"} for i in range(self.n(1500, 15000))]
        out += [{"kind": "pieces", "seq": q} for q in self.txts]
        out += [{"kind": "cuts", "fmt": f, "seed": f"C20-cuts-{self.seed}-{f}-{i}"} for f in sorted(DOCS) for i in range(self.n(8, 60))]
        out.append({"kind": "probe", "name": "microdvd-frame-zero"})
        return out

    @staticmethod
    def execute(scn):
        k = scn["kind"]
        if k in ("garbage", "pieces"):
            txt = garbage(random.Random(scn["seed"])) if k == "garbage" else "".join(PIECES[i - 1] for i in scn["seq"])
            own, got, exc = detect(txt)
            return {"ev": "detect", "txt": cps(txt), "own": own, "got": got, "exc": exc, "scn": scn}
        if k == "cuts":
            return cuts(random.Random(scn["seed"]), scn)
        import pycaption
        if k == "probe":
            from pycaption.base import Caption, CaptionList, CaptionNode, CaptionSet
            fmt, texts = "mdvd", ["word"]
            cs = CaptionSet({"en": CaptionList([Caption(0, 39999, [CaptionNode.create_text("word")])])})
        else:
            r, fmt = random.Random(scn["seed"]), scn["fmt"]
            cs, texts = build(r, fmt)
        langs = cs.get_languages()
        ncaps = sum(len(cs.get_captions(x)) for x in langs)
        if not ncaps:
            return None
        ckw, wkw = {}, {}
        if k != "probe" and fmt == "vtt":
            if r.random() < .5:
                wkw["lang"] = r.choice(langs)
            ncaps = len(cs.get_captions(wkw.get("lang", langs[0])))
        elif fmt == "scc":      # one language
            ncaps = len(cs.get_captions(langs[0]))
        if k != "probe" and r.random() < .3 and fmt in ("dfxp", "vtt", "sami"):
            ckw["relativize"] = False
        ok, doc = writers.write(fmt, cs, ckw, wkw)
        if not ok or not isinstance(doc, str) or (not doc and not ncaps):
            return None         # C03 judges writing
        own, got, exc = detect(doc)
        ev = {"ev": "write", "fmt": fmt, "texts": [cps(t) for t in texts], "caps": ncaps, "doc": cps(doc), "got": got, "exc": exc,
              "read": "", "n": 0, "scn": scn}
        if k == "probe":
            ev["probe"] = scn["name"]
        if got:
            ok, cs2 = run_op(lambda: getattr(pycaption, got)().read(doc))
            if ok:
                ev["n"] = sum(len(cs2.get_captions(x)) for x in cs2.get_languages())
            else:
                ev["read"] = cs2["exc"]
        return ev
