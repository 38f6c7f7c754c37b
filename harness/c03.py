"""C03 - written text survives a conformant parser."""
import random

import hostile
import writers
from core import Check
from project import set_basic

SPANS = [{"italics": True}, {"bold": True}, {"underline": True}, {"italics": True, "color": "red"}, {"color": "red"}, {"class": "k"}, {}]
#: text that the container format itself reserves
MARK = "MULTI-LANGUAGE SRT"


def build(r, fmt, most=3):
    from pycaption.base import Caption, CaptionList, CaptionNode as N, CaptionSet
    multinode = r.random() < .3
    styled = r.random() < .2
    nlang = r.choice([1, 1, 1, 2])
    d = {}
    for lg in r.sample(["en-US", "fr", "de", "es-419"], nlang):
        cl, t = CaptionList(), r.choice([1000000, 59999000, 3599000000])
        for _ in range(r.randint(1, most)):
            ls = hostile.lines(r, pipe=fmt != "mdvd")
            ns, op = [], None
            for i, ln in enumerate(ls):
                if i:
                    if styled and r.random() < .3:  # a style begins, ends, or covers nothing, between two breaks
                        if op is not None:
                            ns.append(N.create_style(False, op))
                            op = None
                        else:
                            op = dict(r.choice(SPANS))
                            ns.append(N.create_style(True, op))
                            if r.random() < .3:
                                ns.append(N.create_style(False, op))
                                op = None
                    ns.append(N.create_break())
                if ln == "" and r.random() < .5:
                    continue  # consecutive breaks, no text node
                pcs = [ln]
                if multinode and len(ln) > 1 and r.random() < .8:
                    # cut inside anything that looks like markup
                    cut = r.randrange(1, len(ln))
                    for bait in ("-->", "]]>", "&lt;", "<i>"):
                        if bait in ln and r.random() < .7:
                            cut = ln.index(bait) + r.randrange(1, len(bait))
                    cuts = sorted({cut} | {r.randrange(1, len(ln)) for _ in range(r.choice([0, 0, 1, 2]))} | ({cut + 1} if cut + 1 < len(ln) and r.random() < .2 else set()))
                    pcs = [ln[a:b] for a, b in zip([0] + cuts, cuts + [len(ln)])]
                for pc in pcs:
                    if styled and op is None and r.random() < .4:
                        op = dict(r.choice(SPANS))
                        ns.append(N.create_style(True, op))
                    ns.append(N.create_text(pc))
                    if op is not None and r.random() < .6:
                        ns.append(N.create_style(False, op))
                        op = None
            if op is not None:
                ns.append(N.create_style(False, op))
            if not ns:
                ns = [N.create_text("x")]
            cl.append(Caption(t, t + 2000000, ns))
            t += r.choice([2000000, 3000000])
        d[lg] = cl
    return CaptionSet(d), True


class C03(Check):
    prop = "C03"
    assumptions = ["lines are made of characters for which str.isprintable() holds",
                   "style spans do not nest (the SAMI writer sets flattened nested spans apart by blanks, pinned by its tests)"]

    def scenarios(self):
        n = self.n(500, 8000)
        return [{"fmt": f, "seed": f"C03-{self.seed}-{f}-{i}"}
                for f in ("srt", "vtt", "dfxp", "single", "legacy", "sami", "mdvd") for i in range(n)] + [
                {"fmt": f, "many": True, "seed": f"C03-many-{self.seed}-{f}-{i}"}
                for f in ("srt", "vtt", "dfxp", "single", "legacy", "sami", "mdvd") for i in range(self.n(2, 20))]

    @staticmethod
    def execute(scn):
        fmt, r = scn["fmt"], random.Random(scn["seed"])
        cs, exact = build(r, fmt, r.choice([15, 40, 110]) if scn.get("many") else 3)
        ls = set_basic(cs)
        for x in ls:
            for c in x["caps"]:
                for k in ("s", "e"):
                    del c[k]
        return {"fmt": fmt, "exact": exact, "langs": ls, "out": writers.out(*writers.write(fmt, cs)), "scn": scn}
