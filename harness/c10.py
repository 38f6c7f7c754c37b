"""C10 - reading is a deterministic, isolated function of document and options."""
import json
import re
import random

import c11
import c12
import c14
import c16
import docs
import gensets
import objs
import sccgen
import writers
from core import Check, run_op

HASHSEEDS = [1, 2, 3]
FMTS = ["srt", "vtt", "dfxp", "sami", "mdvd", "scc"]


def document(seed, fmt, bare=False):
    """[format, reader options, read options, document]"""
    r = random.Random(seed)
    tf = lambda: [docs.words(r)]
    rkw, ckw = {}, {}
    if fmt == "srt":
        d = docs.srt_doc(r, textfn=tf)
    elif fmt == "vtt":
        d = docs.vtt_doc(r, textfn=tf) if r.random() < .5 else c12.vtt_doc(r)
        if r.random() < .4:
            rkw["ignore_timing_errors"] = r.random() < .5
        if r.random() < .5:
            rkw["time_shift_milliseconds"] = r.choice([0, 1000, -500, r.randrange(-5000, 5000)])
    elif fmt == "dfxp":
        d = r.choice([lambda: docs.styled_dfxp(r), lambda: c11.authored_dfxp(r), lambda: c14.multi_dfxp(r), lambda: c12.region_doc(r)])()
        if bare:
            d = re.sub("(?s)<(styling|layout|head).*?</\\1>| style=\"[^\"]*\"", "", d)
        if r.random() < .4:
            rkw["read_invalid_positioning"] = r.random() < .5
    elif fmt == "sami":
        d = r.choice([lambda: docs.styled_sami(r), lambda: c11.authored_sami(r), lambda: c14.multi_sami(r)])()
        if bare or r.random() < .1:     # no style sheet
            d = re.sub("(?s)<STYLE.*?</STYLE>", "", d)
    elif fmt == "mdvd":
        d = docs.mdvd_doc(r, textfn=tf)
    else:
        k = r.random()
        d = c11.scc_doc(r) if k < .45 else sccgen.simple_doc(r) if k < .65 else c16.render(
            {"seed": seed + "-roll", "plan": c16.random_plan(r, r.choice([2, 3, 4]), brief=r.random() < .6)})
        if r.random() < .4:
            ckw["simulate_roll_up"] = r.random() < .6
        if r.random() < .4:
            ckw["offset"] = r.choice([0, 1, 3600, -5])
    if fmt in ("srt", "vtt", "mdvd", "scc") and r.random() < .4:
        ckw["lang"] = r.choice(gensets.LANGS)
    k = r.random()
    if k < .3 and len(d) > 20:       # documents that end, or break off, anywhere
        a = r.randrange(len(d))
        d = d[:a] if k < .2 else d[:a] + d[a + r.randrange(1, 9):]
    elif k < .36:       # another format's document
        d = r.choice([docs.srt_doc(r), "", "x", "{1}{2}x", "WEBVTT"])
    if r.random() < .1:
        d = "\ufeff" + d
    return [fmt, rkw, ckw, d if isinstance(d, str) else str(d)]


def thinned(r, text):
    """A document that lacks parts of another: what that had must not be found again."""
    k = r.randrange(5)
    if k == 0:
        return re.sub(r'\s(style|class|region|lang|xml:lang|tts:\w+)=("[^"]*"|\w+)', lambda m: "" if r.random() < .7 else m.group(), text)
    if k == 1:
        return re.sub(r"(?is)<(head|style|styling|layout)\b.*?</\1>", "", text, count=r.choice([0, 1]))
    lines = text.split("\n")
    if k == 2:
        return "\n".join(lines[:r.randrange(1, len(lines) + 1)])
    if k == 3:
        return "\n".join(x for i, x in enumerate(lines) if i == 0 or r.random() < .75)
    words = re.split("( )", text)
    return "".join(x for i, x in enumerate(words) if i < 3 or r.random() < .9)


def make_reader(doc):
    import pycaption as p
    cls = {"srt": p.SRTReader, "vtt": p.WebVTTReader, "dfxp": p.DFXPReader, "sami": p.SAMIReader, "mdvd": p.MicroDVDReader,
           "scc": p.SCCReader}[doc[0]]
    return cls(**doc[1])


def key(doc):
    return objs.dig(json.dumps(doc))


def pristine(doc):
    ok, cs = run_op(lambda: make_reader(doc).read(doc[3], **doc[2]))
    return objs.digest(cs) if ok else objs.outcome(ok, cs)


class C10(Check):
    prop = "C10"
    assumptions = ["the pristine runs are forks of a process of another hash seed that has only imported pycaption",
                   "of an exception its type is compared"]

    def model_check(self):
        self.hists = self.generate("MC_Reading", "MC_ReadingDeep" if self.thorough else None)

    def scenarios(self):
        out = []
        for f in FMTS:
            hs = self.rng.sample(self.hists, self.n(260, 2500))
            out += [{"fmt": f, "hist": h, "seed": f"C10-{self.seed}-{f}-{i}"} for i, h in enumerate(hs)]
        for f in FMTS:
            out += [dict(s, hist=self.rng.choice(self.hists)) for s in self.big(5, 60, (14, 40), fmt=f)]
        for i in range(self.n(200, 1500)):     # long histories over several formats
            r = random.Random(f"C10-{self.seed}-{i}")
            out.append({"fmt": r.choice(FMTS), "hist": [r.choice([11, 12, 21, 22, 21, 22, 31, 32, 33, 41, 42, 13, 23]) for _ in range(r.choice([6, 9, 14]))],
                        "seed": f"C10-{self.seed}-long-{i}", "long": True})
        return out

    @staticmethod
    def execute(scn):
        r = random.Random(scn["seed"])
        f2 = scn["fmt"] if r.random() < .6 else r.choice(FMTS)
        bare = r.random() < .25     # documents that leave everything to defaults
        ds = {1: document(scn["seed"] + "-d1", scn["fmt"], bare), 2: document(scn["seed"] + "-d2", f2, bare), 3: document(scn["seed"] + "-d3", r.choice(FMTS), bare)}
        for i in (2, 3):        # so that a kept reader can read both
            if ds[i][0] == ds[1][0] and r.random() < .7:
                ds[i][1] = ds[1][1]
                x = r.random()
                if x < .3:
                    ds[i][3] = ds[1][3]
                elif x < .7:
                    ds[i][3] = thinned(r, ds[1][3])
        kept, steps, sets, used = {}, [], [], []

        def digs():
            return [objs.digest(x) for x in sets]
        for op in scn["hist"]:
            k, n = divmod(op, 10)
            if k in (1, 2):
                doc = ds[n]
                kk = json.dumps([doc[0], doc[1]])
                rd = kept.setdefault(kk, None) if k == 2 else None
                if rd is None:
                    rd = make_reader(doc)
                if k == 2:
                    kept[kk] = rd
                ok, cs = run_op(lambda: rd.read(doc[3], **doc[2]))
                if ok:
                    sets.append(cs)
                out = objs.digest(cs) if ok else objs.outcome(ok, cs)
                steps.append({"op": "read", "key": key(doc), "set": len(sets) if ok else 0, "out": out, "ok": ok, "sets": digs()})
                if doc not in used:
                    used.append(doc)
            else:
                if n > len(sets):
                    if not sets:
                        continue
                    n = 1 + r.randrange(len(sets))
                if k == 3:
                    run_op(lambda: objs.edit(sets[n - 1], r))
                else:
                    writers.write(r.choice(writers.ALL), sets[n - 1])
                steps.append({"op": "edit" if k == 3 else "write", "key": "", "set": n, "out": "", "ok": True, "sets": digs()})
        for doc in used:
            for hs in HASHSEEDS:
                res = objs.Server.get(hs).call("c10", doc)
                steps.append({"op": "pristine", "key": key(doc), "set": 0, "out": res["v"] if res["ok"] else "!" + res["v"]["exc"], "ok": True, "sets": []})
        return {"fmts": sorted({d[0] for d in used}), "steps": steps, "scn": scn}
