"""C09 - writing never alters its input and is deterministic."""
import json
import random

import c11
import c12
import c13
import docs
import gensets
import objs
import sccgen
import writers
from core import Check, run_op

HASHSEEDS = [1, 2]


def breaking(cs, r):
    """The set with absolute layouts late in it: without the video's dimensions a writer stops midway."""
    lg = r.choice(cs.get_languages())
    cl = cs.get_captions(lg)
    for c in cl[len(cl) // 2 if len(cl) > 1 else 0:]:
        lay = c13.make(o=((500, "px"), (500, "px")))
        c.layout_info = lay
        if r.random() < .5:
            for n in c.nodes:
                n.layout_info = lay
    return cs


def bare(cs, r):
    """The set without some of its parts: what it once had must not be found again."""
    k = r.randrange(1, 16)
    if k & 1:
        cs.layout_info = None
    if k & 8:
        cs.set_styles({})
    for lg in cs.get_languages():
        if k & 2 and isinstance(cs.get_captions(lg), list) and hasattr(cs.get_captions(lg), "layout_info"):
            cs.set_layout_info(lg, None)
        for c in cs.get_captions(lg):
            if k & 2 and r.random() < .7:
                c.layout_info = None
            if k & 8 and r.random() < .7:
                c.style = {}
            for n in c.nodes:
                if k & 4:
                    n.layout_info = None
    return cs


def build_set(seed):
    """A caption set, the same for the same seed in every process."""
    if seed.endswith("!"):
        return breaking(build_set(seed[:-1]), random.Random(seed))
    if seed.endswith("~"):
        return bare(build_set(seed[:-1]), random.Random(seed))
    from copy import deepcopy
    from pycaption.base import CaptionList
    r = random.Random(seed)
    k = r.randrange(9)
    if k == 0:
        cs = gensets.capset(r, mode="seq", floats=r.random() < .3, capstyle=.5, styled=.6, layouts=.6)
    elif k == 1:
        cs = c11.api_set(r, r.choice([["dfxp"], ["vtt"]]))
    elif k == 2:
        cs = c12.random_set(r, False)
    elif k == 3:        # units that need the video's dimensions
        w, h = r.choice(c13.DIMS)
        cs = c12.random_set(r, r.random() < .5, [c13.spec(r, w, h, False, True) for _ in range(3)], c13.make)
    elif k == 4:
        cs = c13.sami_set(r, 640, 360)
    else:
        import pycaption as p
        doc, rd = {5: lambda: (docs.styled_dfxp(r, units=r.random() < .3), p.DFXPReader), 6: lambda: (docs.styled_sami(r), p.SAMIReader),
                   7: lambda: (c12.vtt_doc(r), p.WebVTTReader), 8: lambda: (c11.scc_doc(r) if r.random() < .5 else sccgen.simple_doc(r), p.SCCReader)}[k]()
        ok, cs = run_op(lambda: rd().read(doc))
        if not ok:
            cs = gensets.capset(r, mode="seq")
    if r.random() < .25:        # runs of concurrent captions
        for lg in cs.get_languages():
            cl = cs.get_captions(lg)
            for a, b in zip(cl, cl[1:]):
                if r.random() < .5:
                    b.start, b.end = a.start, a.end
    if r.random() < .15:        # things listed twice
        lg = r.choice(cs.get_languages())
        cs.set_captions("x-shared", cs.get_captions(lg) if r.random() < .5 else CaptionList(cs.get_captions(lg)))
    if r.random() < .3:
        cs.add_style(r.choice(["p", "s1", "ENCC"]), {"text-align": r.choice(["left", "center"]), "color": "white"})
        cs.add_style("s2", {"class": "s1", "italics": True, "text-align": "right"})
    if r.random() < .1:
        cs.set_captions("x-none", CaptionList())
    return deepcopy(cs) if r.random() < .1 else cs


def writer_spec(r, fmt):
    ckw, wkw = {}, {}
    if fmt in ("dfxp", "single", "vtt", "sami"):
        if r.random() < .4:
            ckw["relativize"] = r.random() < .3
        if r.random() < .5:
            ckw["video_width"] = r.choice([640, 1000])
        if r.random() < .5:
            ckw["video_height"] = r.choice([360, 1000])
        if r.random() < .4:
            ckw["fit_to_screen"] = r.random() < .5
    if fmt == "dfxp" and r.random() < .5:
        ckw["write_inline_positioning"] = True
    if fmt == "single" and r.random() < .5:
        ckw["default_positioning"] = r.choice([{"h": "left", "v": "top"}, {"o": ((1000, "%"), (2000, "%"))}, {"e": ((5000, "px"), (1000, "px"))}])
    if fmt in ("dfxp", "single", "legacy") and r.random() < .2:
        wkw["force"] = r.choice(gensets.LANGS)
    if fmt == "vtt" and r.random() < .2:
        wkw["lang"] = r.choice(gensets.LANGS)
    return [fmt, ckw, wkw]


def make_writer(spec):
    fmt, ckw, _ = spec
    ckw = dict(ckw)
    if "default_positioning" in ckw:
        ckw["default_positioning"] = c13.make(**ckw["default_positioning"])
    return writers.make(fmt, **ckw)


def pristine(job):
    cs = build_set(job["set"])
    for e in job["edits"]:
        objs.edit(cs, random.Random(e))
    before = objs.digest(cs)
    if not job["spec"]:
        return [before, "", ""]
    ok, v = run_op(lambda: make_writer(job["spec"]).write(cs, **job["spec"][2]))
    return [before, objs.outcome(ok, v), objs.digest(cs)]


class C09(Check):
    prop = "C09"
    assumptions = ["the pristine runs are forks of a process of another hash seed that has only imported pycaption",
                   "of an exception its type is compared"]

    def model_check(self):
        self.hists = self.generate("MC_Writing", "MC_WritingDeep" if self.thorough else None)

    def scenarios(self):
        out = []
        for f in writers.ALL:
            hs = self.hists if self.thorough else self.rng.sample(self.hists, min(120, len(self.hists)))
            out += [{"fmt": f, "hist": h, "seed": f"C09-{self.seed}-{f}-{i}"} for i, h in enumerate(hs)]
            for i in range(self.n(40, 300)):
                r = random.Random(f"{self.seed}-{f}-{i}")
                out.append({"fmt": f, "hist": [r.choice([11, 12, 21, 22, 21, 22, 23, 31, 32, 41, 42]) for _ in range(r.choice([4, 6, 8]))],
                            "seed": f"C09-{self.seed}-{f}-r{i}"})
        return out

    @staticmethod
    def execute(scn):
        r = random.Random(scn["seed"])
        seeds = {s: f"{scn['seed']}-set{s}" for s in (1, 2, 3)}
        if r.random() < .2:
            seeds[2] = seeds[1]     # two equal sets
        elif r.random() < .5:       # a set and another that lacks parts of it
            seeds[2] = seeds[1] + "~"
            if r.random() < .5:
                seeds[3] = seeds[1] + "~~"
        stops = r.random() < .25       # the first set makes writers stop midway
        if stops:
            seeds[1] += "!"
        sets = {s: build_set(seeds[s]) for s in seeds}
        edits = {s: [] for s in sets}
        # the kept writers may be of one format and options or of two
        f2 = scn["fmt"] if r.random() < .7 else r.choice(writers.ALL)
        specs = {1: writer_spec(r, scn["fmt"]), 2: writer_spec(r, f2)}
        if r.random() < .3:
            specs[2] = specs[1]
        if stops:
            for k in specs:
                for o in ("video_width", "video_height", "relativize"):
                    specs[k][1].pop(o, None)
        specs[0] = specs[r.choice([1, 1, 2])]
        kept = {}
        steps, jobs = [], []
        for op in scn["hist"]:
            w, s = op // 10 - 1, op % 10
            ds = {x: objs.digest(sets[x]) for x in sets}
            st = {"op": "write", "w": w, "key": "", "set": f"set{s}", "before": ds[s], "out": "", "ok": True}
            if w == 3:
                es = f"{scn['seed']}-edit{len(steps)}"
                edits[s].append(es)
                objs.edit(sets[s], random.Random(es))
                st.update(op="edit", w=0)
            else:
                sp = specs[w]
                if w and w not in kept:
                    kept[w] = make_writer(sp)
                wr = kept[w] if w else make_writer(sp)
                jobs.append((sp, s, list(edits[s])))
                ok, v = run_op(lambda: wr.write(sets[s], **sp[2]))
                st.update(key=json.dumps(sp, sort_keys=True), out=objs.outcome(ok, v), ok=ok)
            da = {x: objs.digest(sets[x]) for x in sets}
            st.update(after=da[s], others=all(da[x] == ds[x] for x in sets if x != s))
            steps.append(st)
        done = set()
        for sp, s, es in jobs:
            k = json.dumps([sp, s, es])
            if k in done:
                continue
            done.add(k)
            here = pristine({"set": seeds[s], "edits": es, "spec": None})[0]
            for hs in HASHSEEDS:
                res = objs.Server.get(hs).call("c09", {"set": seeds[s], "edits": es, "spec": sp})
                b, o, a = res["v"] if res["ok"] else ["", "!" + res["v"]["exc"], ""]
                steps.append({"op": "pristine", "w": 0, "key": json.dumps(sp, sort_keys=True), "set": f"set{s}", "before": b, "after": a, "out": o,
                              "others": True, "same": b == here, "ok": True})
        return {"fmt": scn["fmt"], "steps": steps, "scn": scn}
