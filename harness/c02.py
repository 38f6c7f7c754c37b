"""C02 - writing preserves instants."""
import random

import gensets
import writers
from core import Check, cps
from project import set_basic


def layout_runs(c):
    from pycaption.base import CaptionNode
    n, last = 1, None
    first = True
    for x in c.nodes:
        if x.type_ == CaptionNode.TEXT:
            if not first and x.layout_info != last:
                n += 1
            last, first = x.layout_info, False
    return n


def snapshot(cs):
    langs = set_basic(cs)
    for lg, p in zip(cs.get_languages(), langs):
        for c, q in zip(cs.get_captions(lg), p["caps"]):
            q["ng"] = layout_runs(c)
    return langs


class C02(Check):
    prop = "C02"
    assumptions = ["texts are plain words (C03 covers hostile text)",
                   "float times are kept a microsecond away from the next millisecond, where truncation of the "
                   "nearest and of the exact microsecond could differ",
                   "SAMI: blank syncs demanded for captions that do not overlap a later one of their language"]

    def scenarios(self):
        n = self.n(400, 6000)
        return [{"fmt": f, "seed": f"C02-{self.seed}-{f}-{i}"}
                for f in ("srt", "vtt", "dfxp", "single", "legacy", "sami", "mdvd") for i in range(n)] + [
                {"fmt": f, "many": True, "seed": f"C02-many-{self.seed}-{f}-{i}"}
                for f in ("srt", "vtt", "dfxp", "single", "legacy", "sami", "mdvd") for i in range(self.n(3, 30))]

    @staticmethod
    def execute(scn):
        fmt, r = scn["fmt"], random.Random(scn["seed"])
        mode = r.choice(["any", "seq", "seq"])
        cs = gensets.capset(r, mode="seq" if fmt == "sami" else mode, floats=r.random() < .25,
                            ncap=(11, r.choice([14, 40, 110])) if scn.get("many") else (1, r.choice([2, 4, 6])))
        ls = snapshot(cs)
        wkw, wl = {}, 1
        if fmt == "vtt" and r.random() < .5:
            wl = r.randrange(len(ls)) + 1
            wkw = {"lang": cs.get_languages()[wl - 1]}
        e = {"fmt": fmt, "wl": wl, "langs": ls, "out": writers.out(*writers.write(fmt, cs, {}, wkw))}
        e["scn"] = scn
        return e
