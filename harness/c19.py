"""C19 - timing adjustment and concurrent-caption merging keep all text in order."""
import math
import random

import gensets
import docs
from core import Check, cps, inst, run_op

SKEWS = [500, 1000, 1001, 999, 1125, 1100, 900, 1043, 960, 2000, 250, 24000, 40, 3, 1000, 2500, 1250]


def fine(t):
    """The instant, and its thousandths of a microsecond."""
    d = inst(t)
    d["f"] = round((t - math.floor(t)) * 1000) if d["k"] in ("int", "float") else 0
    return d


class Names:
    """Numbers naming distinct node contents; 0: a plain line break."""
    def __init__(self):
        self.t = {}

    def node(self, n):
        lay = repr(n.layout_info.serialized()) if n.layout_info is not None else "-"
        k = (n.type_, repr(n.content), n.start, lay, repr(n.position))
        if n.type_ == 3 and n.layout_info is None and n.content is None:
            return 0
        return self.t.setdefault(k, len(self.t) + 1)

    def set(self, cs):
        return [{"lang": cps(lg), "caps": [{"s": fine(c.start), "e": fine(c.end), "ns": [self.node(n) for n in c.nodes]}
                                           for c in cs.get_captions(lg)]} for lg in cs.get_languages()]


def built(r, runs):
    """A set whose first language has the given sequence of time spans."""
    from pycaption.base import Caption, CaptionList, CaptionSet
    unit = r.choice([1, 1000, 40000, 10 ** 6, 33367, 3600 * 10 ** 6])
    base = r.choice([0, 0, 0, 5 * unit, 7])
    span = {1: (0, 1), 2: (0, 2), 3: (1, 2), 4: (1, 1)}
    fl = r.random() < .3
    lays = [gensets.layout(r) for _ in range(2)] if r.random() < .5 else []

    def cap(k):
        a, b = (base + unit * x for x in span[k])
        if fl and r.random() < .5:      # equal numbers of another type
            a, b = float(a), float(b)
        ns = gensets.nodes(r, [docs.words(r, 0, 2) or "x" for _ in range(r.choice([1, 1, 2]))], r.random() < .4, lays)
        from pycaption.base import CaptionNode as N
        if r.random() < .15:
            ns.append(N.create_break())
        if r.random() < .1:
            ns.insert(0, N.create_break())
        return Caption(a, b, ns, style=dict(r.choice(gensets.STYLE)) if r.random() < .3 else {},
                       layout_info=r.choice(lays) if lays and r.random() < .5 else None)
    d = {}
    for i, lg in enumerate(r.sample(gensets.LANGS, r.choice([1, 1, 2]))):
        d[lg] = CaptionList([cap(k) for k in (runs if i == 0 else [r.randint(1, 4) for _ in range(docs.count(r, [0, 1, 2, 4]))])],
                            layout_info=r.choice(lays) if lays and r.random() < .3 else None)
    if r.random() < .15:    # captions listed more than once
        same = r.choice(list(d.values()))
        if same and r.random() < .5:
            same.append(r.choice(same))
        else:
            d["x-copy"] = CaptionList(same, layout_info=same.layout_info)
    return CaptionSet(d)


class C19(Check):
    prop = "C19"
    assumptions = ["exact results are compared to the recorded ones within a nanosecond below 10^11 microseconds, within a microsecond above (skews are floating-point numbers)",
                   "with a skew that no floating-point number equals, starts that land exactly on zero are not generated"]

    def model_check(self):
        self.runs = self.generate("MC_Merge", "MC_MergeDeep" if self.thorough else None)

    def scenarios(self):
        n = self.n(700, 12000)
        out = [{"kind": "hist", "seed": f"C19-{self.seed}-{i}"} for i in range(n)]
        out += [{"kind": "runs", "seed": f"C19-{self.seed}-g{i}", "runs": q} for i, q in enumerate(self.runs)]
        out += self.big(30, 400, (12, 30, 60), kind="hist")
        return out

    @staticmethod
    def execute(scn):
        from pycaption.base import merge_concurrent_captions
        r = random.Random(scn["seed"])
        if scn["kind"] == "runs":
            cs, ops = built(r, scn["runs"]), ["merge", "again"]
        else:
            if r.random() < .5:
                few = r.choice([[1, 2, 3, 4], [1, 2, 3, 4], [1, 1, 1, 1, 1, 1, 1, 2]])
                cs = built(r, [r.choice(few) for _ in range(docs.count(r, [1, 2, 3, 5, 8]))])
            else:
                cs = gensets.capset(r, mode=r.choice(["any", "seq", "positive"]), ncap=(1, 6))
            ops = [r.choice(["adjust", "adjust", "merge", "again"]) for _ in range(r.choice([1, 2, 3]))]
        evs, last = [], None
        for op in ops:
            nm = Names()
            before = nm.set(cs)
            ev = {"ev": "adjust" if op == "adjust" else "merge", "scn": scn, "before": before, "n": 0, "off": inst(0), "again": last == "merge",
                  "exact": all(c[k]["f"] == 0 for lg in before for c in lg["caps"] for k in "se")}
            if op == "adjust":
                starts = [c.start for lg in cs.get_languages() for c in cs.get_captions(lg)]
                big = max([0] + [c.end for lg in cs.get_languages() for c in cs.get_captions(lg)])
                if big > 10 ** 12 or any(isinstance(x, float) and x != int(x) for x in starts):
                    break
                n = r.choice(SKEWS) if r.random() < .6 else r.randrange(1, 4001)
                off = r.choice([0, 0, 1, -1, 10 ** 6, -10 ** 6, 3600 * 10 ** 6, r.randrange(-10 ** 7, 10 ** 7), -10 ** 10])
                if starts and r.random() < .6:      # drop some captions, or just not
                    off = -(r.choice(starts) * n // 1000) + r.choice([0, 0, 1, -1, 1000, -1000])
                off = int(off)
                if n % 125 and any(abs(s * n / 1000 + off) < .01 for s in starts):
                    off += 1
                if n % 125 and any(abs(s * n / 1000 + off) < .01 for s in starts):
                    break
                ev.update(n=n, off=inst(off))
                skew = n // 1000 if n % 1000 == 0 and r.random() < .5 else n / 1000
                kw = {"offset": off, "rate_skew": skew}
                if n == 1000 and r.random() < .5:
                    del kw["rate_skew"]
                if off == 0 and r.random() < .5:
                    del kw["offset"]
                ok, val = run_op(cs.adjust_caption_timing, **kw)
                if ok and not all(float(c.start).is_integer() and float(c.end).is_integer()
                                  for lg in cs.get_languages() for c in cs.get_captions(lg)):
                    ops = ops[:1]       # later steps start from whole microseconds
            else:
                ok, val = run_op(merge_concurrent_captions, cs)
                if ok and val is not None:
                    cs = val
            last = ev["ev"]
            ev.update(ok=ok, exc="" if ok else val["exc"], after=nm.set(cs))
            evs.append(ev)
            if len(ops) == 1 or not ok:
                break
        return evs
