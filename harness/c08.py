"""C08 - any chain of conversions preserves the cue timeline and text."""
import random

import gensets
import hostile
import writers
from core import Check, run_op
from project import set_basic

FMTS = ["srt", "vtt", "dfxp", "sami", "mdvd"]


def reader(fmt):
    import pycaption as p
    return {"srt": p.SRTReader, "vtt": p.WebVTTReader, "dfxp": p.DFXPReader, "sami": p.SAMIReader, "mdvd": p.MicroDVDReader}[fmt]()


def timeline(r, n, chain):
    """(start, end) pairs the chain can carry."""
    g = 40000 if "mdvd" in chain else 1000
    if "sami" in chain or r.random() < .6:
        out, t = [], r.choice(gensets.EDGES + [0, 0])
        for _ in range(n):
            if "mdvd" in chain and t % 40000 > 39000 and r.random() < .5:
                t += 1000
            a = t
            b = a + r.choice([g, g + 1, 2 * g + 333, 500000, 999999, 1234567, 2 * 10 ** 6, 61 * 10 ** 6])
            out += [(a, b)] * r.choice([1, 1, 1, 1, 2, 3])
            t = b + r.choice([0, 0, 1, 999, g, 10 ** 6, 4 * 10 ** 6, 7654321])
        out = out[:n]
        if "mdvd" in chain or "srt" in chain or "sami" in chain:
            # distinct stays distinct at the chain's resolution
            res, last = [], None
            for p in out:
                if last and p != last and p[0] // g < -(-last[1] // g):
                    p = (-(-last[1] // g) * g, max(p[1], -(-last[1] // g) * g + g))
                last = p
                res.append(p)
            out = res
    else:
        out = []
        for _ in range(n):
            a = min(r.choice(gensets.EDGES) + r.randrange(10 ** 9), gensets.DAY - 1)
            b = a + r.choice([g, g + 5, 2 * 10 ** 6, r.randrange(g, 10 ** 10)])
            if any((a // g, b // g) == (x // g, y // g) for x, y in out):
                continue
            out.append((a, b))
    # timestamps of a day and more are outside C02 (the writers wrap them around)
    return [p for p in out if p[1] < gensets.DAY - 5 * 10 ** 6] or [(10 ** 6, 2 * 10 ** 6)]


def build(r, chain, langs, many=False):
    from pycaption.base import Caption, CaptionList, CaptionNode, CaptionSet
    pool = [gensets.layout(r) for _ in range(2)] if r.random() < .3 else []
    d = {}
    for lg in langs:
        cl = CaptionList(layout_info=r.choice(pool) if pool and r.random() < .4 else None)
        for a, b in timeline(r, r.choice([12, 30, 105]) if many else r.choice([1, 2, 3, 5]), chain):
            # captions shown at once are one cue of SRT
            ls = hostile.lines(r, pipe="mdvd" not in chain, atoms=hostile.ATOMS if r.random() < .7 else ["a", "b c", "word", "<", "&"])
            ls = [x if x.isprintable() else "x" for x in ls]
            if not any(x.strip() for x in ls):
                ls = ["x"]
            styled = r.random() < .4
            lay = () if "vtt" in chain or not pool else pool
            ns = gensets.nodes(r, ls, styled, lay, maxsplit=2)
            st = dict(r.choice(gensets.STYLE)) if r.random() < .2 else {}
            cl.append(Caption(a, b, ns, style=st, layout_info=r.choice(pool) if pool and r.random() < .5 else None))
        d[lg] = cl
    return CaptionSet(d)


def chain_of(r):
    k = r.choice([1, 1, 2, 2, 2, 3, 4, 5])
    return [r.choice(FMTS) for _ in range(k)]


class C08(Check):
    prop = "C08"
    assumptions = ["captions of a language either share their times exactly or differ at the coarsest resolution of the chain; none is empty or "
                   "shorter than that resolution",
                   "with SAMI on the chain the captions of a language are in order and do not overlap (SAMI cannot express overlaps)",
                   "several languages only on chains of DFXP and SAMI, the formats that carry them",
                   "with WebVTT on the chain a caption has one layout (it splits by layout, C02, C12)",
                   "style spans do not nest"]

    def scenarios(self):
        n = self.n(1800, 25000)
        out = [{"seed": f"C08-{self.seed}-{i}"} for i in range(n)]
        out += [{"many": True, "seed": f"C08-many-{self.seed}-{i}"} for i in range(self.n(10, 150))]
        # every ordered pair and triple of formats
        for a in FMTS:
            for b in FMTS:
                out += [{"chain": [a, b], "seed": f"C08-{self.seed}-{a}-{b}-{i}"} for i in range(self.n(4, 40))]
                out += [{"chain": [a, b, c], "seed": f"C08-{self.seed}-{a}-{b}-{c}-{i}"} for c in FMTS for i in range(self.n(1, 12))]
        return out

    @staticmethod
    def execute(scn):
        r = random.Random(scn["seed"])
        chain = scn.get("chain") or chain_of(r)
        multi = set(chain) <= {"dfxp", "sami"} and r.random() < .7
        langs = r.sample(gensets.LANGS, r.choice([2, 3]) if multi else 1)
        cs = build(r, chain, langs, scn.get("many"))
        ev = {"chain": chain, "set": set_basic(cs), "steps": [], "ok": True, "exc": {"at": "", "exc": "", "msg": ""}, "scn": scn}
        for fmt in chain * 2:
            ok, doc = writers.write(fmt, cs)
            if not ok:
                ev["ok"], ev["exc"] = False, {"at": "write_" + fmt, "exc": doc["exc"], "msg": doc["msg"]}
                break
            kw = {} if fmt in ("dfxp", "sami") else {"lang": langs[0]}
            ok, cs = run_op(lambda: reader(fmt).read(doc, **kw))
            if not ok:
                ev["ok"], ev["exc"] = False, {"at": "read_" + fmt, "exc": cs["exc"], "msg": cs["msg"]}
                break
            ev["steps"].append(set_basic(cs))
        return ev
