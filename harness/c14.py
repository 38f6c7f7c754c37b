"""C14 - each language's captions stay under their language, in document order."""
import json
import os
import random
import subprocess

import docs
import gensets
import sccgen
import writers
from core import Check, REPO, PY, VERIF, cps, run_op
from project import read_event, set_basic

LDEF = ["und", "und", "und", "en", "fr-CA", "zh-Hant", "x-klingon"]


def multi_sami(r):
    """Languages through classes, two-letter lang attributes or nothing."""
    cl = [("ENCC", "en-US"), ("FRCC", "fr"), ("ESCC", "es-419"), ("DECC", "de-AT"), ("ENG2", "en")]
    r.shuffle(cl)
    cl = cl[:r.randint(1, 4)]
    mode = r.choice(["class", "class", "class", "attr", "mixed"])
    attrs = r.sample(["en", "fr", "de", "ja", "pt"], len(cl))
    css = "\n".join(f".{c} {{ Name: n; lang: {lc}; SAMI_Type: CC; }}" for c, lc in cl)
    o = [f"<SAMI><HEAD><STYLE TYPE=\"text/css\">\n<!--\n{docs.sheet(r, css)}\n-->\n</STYLE></HEAD><BODY>"]
    t, tok = r.choice([0, 0, 1000, 90000]), 0
    for _ in range(docs.count(r, range(1, 8))):
        sy = f"<SYNC Start={t}>"
        who = [i for i in range(len(cl)) if r.random() < .6] or [r.randrange(len(cl))]
        if r.random() < .6:
            r.shuffle(who)
        if r.random() < .1:
            who.append(who[0])
        for i in who:
            m = mode if mode != "mixed" else r.choice(["class", "attr", "none", "unknown"])
            a = {"class": f" Class={r.choice([cl[i][0], cl[i][0].lower()])}", "attr": f" {r.choice(['lang', 'LANG', 'Lang'])}={attrs[i]}",
                 "none": "", "unknown": " Class=nosuch"}[m]
            tok += 1
            body = "&nbsp;" if r.random() < .2 else f"{i}w{tok} " + docs.xesc(docs.words(r, 0, 2))
            sy += f"<P{a}>{body}" + r.choice(["", "</P>"])
        o.append(sy + r.choice(["", "</SYNC>"]))
        t += r.choice([1, 40, 1000, 2500, 4000, 60000])
    o.append("</BODY></SAMI>")
    return "\n".join(o)


def multi_dfxp(r):
    ns = "xmlns=\"http://www.w3.org/ns/ttml\""
    tl = r.choice([None, None, "en", "fr", "de-AT"])
    ls = r.sample(["en", "fr", "de-AT", "en-US", "es-419", "und", None, None], r.randint(1, 5))
    if r.random() < .4:
        ls = [r.choice(ls) for _ in range(len(ls) + 1)]
    o, tok = [f"<tt {ns}" + (f" xml:lang=\"{tl}\"" if tl else "") + "><body>"], 0
    around = []     # the divs around: a div without a language has none around it that names one
    for lg in ls:
        while around and (r.random() < .85 or (any(around) and not lg)):
            o.append("</div>")
            around.pop()
        o.append("<div" + (f" xml:lang=\"{lg}\"" if lg else "") + ">")
        around.append(lg)
        t = r.choice([0, 1000, 3599000])
        for _ in range(docs.count(r, [0, 1, 1, 2, 3])):
            tok += 1
            e = t + r.choice([1, 1000, 2500])
            body = "" if r.random() < .05 else f"w{tok} " + docs.xesc(docs.words(r, 0, 2))
            o.append(f"<p begin=\"{t}ms\" end=\"{e}ms\">{body}</p>")
            t = e + r.choice([0, 0, 1, 500, 4000])
            if len(around) > 1 and r.random() < .3:
                o.append("</div>")
                around.pop()
    o += ["</div>"] * len(around) + ["</body></tt>"]
    return r.choice(["\n", ""]).join(o)


def reading(fmt, doc, default, lang=None):
    import pycaption as p
    rd = {"dfxp": p.DFXPReader, "sami": p.SAMIReader, "srt": p.SRTReader, "vtt": p.WebVTTReader, "mdvd": p.MicroDVDReader, "scc": p.SCCReader}[fmt]
    kw = {} if lang is None else {"lang": lang}
    ok, val = run_op(lambda: rd().read(doc, **kw))
    res = read_event(ok, val)
    for x in res["langs"]:
        for c in x["caps"]:
            del c["e"]
    return {"ev": "read", "fmt": fmt, "doc": cps(doc), "default": cps(default), "lang": cps(lang or ""), "res": res}


#: languages told apart by case, or by one naming part of the other
CLOSE = [["EN", "en"], ["fr-CA", "fr-ca"], ["pt-BR", "PT-br", "pt"], ["en", "en-US", "EN"], ["zh-Hant", "zh-hant"]]


def slotted(r, close=False):
    """Languages whose cue times interleave, coincide or are disjoint."""
    from pycaption.base import Caption, CaptionList, CaptionNode, CaptionSet
    grid = [0, 1, 2, 3, 4, 5, 6, 8, 11, 3599, 3600] + ([] if not docs.SIZE else list(range(12, 80)))
    unit = r.choice([10 ** 6, 10 ** 6, 1000, 1500, 999999, 33367])
    d, tok = {}, 0
    many = docs.SIZE and r.random() < .3
    langs = r.sample(gensets.MORE, r.randint(9, 14)) if many else r.sample(gensets.LANGS, r.randint(1, 4))
    if close and r.random() < .3:
        pair = r.choice(CLOSE)
        langs = [x for x in langs if x not in pair][:2] + pair
        r.shuffle(langs)
    for lg in langs:
        few = [0, 2, 2, 3, 4, 6, 8]
        pts = sorted(r.sample(grid, r.choice(few) if many else docs.count(r, few)))
        cl, i = CaptionList(), 0
        while i + 1 < len(pts):
            a, b = pts[i] * unit, pts[i + 1] * unit
            for _ in range(r.choice([1, 1, 1, 1, 2])):
                tok += 1
                ns = [CaptionNode.create_text(f"w{tok}")]
                if r.random() < .3:
                    ns += [CaptionNode.create_break(), CaptionNode.create_text(docs.words(r, 1, 2))]
                cl.append(Caption(a, b, ns))
            i += r.choice([1, 1, 2])
        d[lg] = cl
    if not any(d.values()):
        return slotted(r, close)
    styles = {}
    if r.random() < .3:   # classes declaring languages, put on captions of any language
        for k, lg in zip(["cc1", "cc2", "cc3"], r.sample(list(d) + ["ja", "fr-FR"], 2)):
            styles[k] = {"lang": lg}
        for lg in d:
            for c in d[lg]:
                if r.random() < .7:
                    c.style = {"class": r.choice(["cc1", "cc2", "cc3", "nosuch"])}
    return CaptionSet(d, styles=styles)


def ordered(cs):
    for lg in cs.get_languages():
        cl = cs.get_captions(lg)
        if any(b.start < a.end and (a.start, a.end) != (b.start, b.end) for a, b in zip(cl, cl[1:])):
            return False
    return True


def writing(scn):
    fmt, r = scn["fmt"], random.Random(scn["seed"])
    src = r.choice(["api", "api", "slots", "slots", "slots", "sami", "dfxp"])
    if src == "api":
        cs = gensets.capset(r, nlang=(1, 4), mode="seq", layouts=.1, styled=.2, empty_lang=.15)
    elif src == "slots":
        cs = slotted(r, close=fmt != "sami")
    else:
        import pycaption as p
        doc = multi_sami(r) if src == "sami" else multi_dfxp(r)
        ok, cs = run_op(lambda: (p.SAMIReader() if src == "sami" else p.DFXPReader()).read(doc))
        if not ok or not ordered(cs):
            return None
        if r.random() < .4:   # a translation started from a copy
            from copy import deepcopy
            new = r.choice([x for x in gensets.LANGS + ["ja"] if x not in cs.get_languages()])
            cs.set_captions(new, deepcopy(cs.get_captions(r.choice(cs.get_languages()))))
    langs = set_basic(cs)
    for lg in langs:   # WebVTT splits captions by layout; the comparison joins them
        for c in lg["caps"]:
            del c["e"]
    only, ckw, wkw = 0, {}, {}
    if fmt == "vtt":
        only = 1 + r.randrange(len(langs))
        if only > 1 or r.random() < .5:
            wkw = {"lang": cs.get_languages()[only - 1]}
    elif fmt != "sami" and r.random() < .5:
        only = 1 + r.randrange(len(langs))
        wkw = {"force": cs.get_languages()[only - 1]}
    if fmt == "sami" and r.random() < .3:
        # a writer used before
        w = writers.make("sami")
        w.write(slotted(r))
        ok, doc = run_op(lambda: w.write(cs))
    else:
        ok, doc = writers.write(fmt, cs, ckw, wkw)
    return {"ev": "write", "fmt": fmt, "only": only, "langs": langs, "out": writers.out(ok, doc), "scn": scn}


SM = ("<SAMI><HEAD><STYLE TYPE=\"text/css\"><!-- .E {lang: en-US;} .F {lang: en-GB;} --></STYLE></HEAD><BODY>"
      "<SYNC start=0>%s</SYNC></BODY></SAMI>")
PROBES = {
    # known finding
    "sami-inline-region": ("sami", SM % "<P lang=en-US>one</P><P lang=en-GB>two</P>"),
    # regressions
    "sami-prefix-languages": ("sami", SM.replace("en-US", "en") % "<P class=E>one</P><P class=F>two</P>"),
    "sami-language-order": ("sami", SM % "<P class=F>two</P><P class=E>one</P>"),
}


class C14(Check):
    prop = "C14"
    assumptions = ["a SAMI paragraph names its language once: by a class with a lang declaration or by a two-letter lang attribute "
                   "(regional codes in the attribute: known finding)",
                   "the document does not set xml:lang below div; a div inside one that names its language names its own",
                   "the language asked for is one of the caption set's",
                   "captions of a language are in order and do not overlap"]

    def scenarios(self):
        n = self.n(250, 4000)
        out = [{"kind": "write", "fmt": f, "seed": f"C14-{self.seed}-w-{f}-{i}"}
               for f in ("dfxp", "single", "legacy", "sami", "sami", "vtt") for i in range(n)]
        for i, s in enumerate(out):
            s["seed"] += f"-{i}"
        out += [{"kind": "read", "fmt": f, "seed": f"C14-{self.seed}-r-{f}-{i}"} for f in ("dfxp", "sami") for i in range(2 * n)]
        for f in ("dfxp", "single", "legacy", "sami", "vtt"):
            out += self.big(4, 60, (14, 40), kind="write", fmt=f)
        for f in ("dfxp", "sami"):
            out += self.big(6, 80, (14, 40), kind="read", fmt=f)
        out += [{"kind": "opt", "seed": f"C14-{self.seed}-o-{i}"} for i in range(n)]
        out += [{"kind": "env", "seed": f"C14-{self.seed}-e-{i}", "batch": 12} for i in range(self.n(24, 160))]
        out += [{"kind": "probe", "name": k} for k in PROBES]
        return out

    @staticmethod
    def execute(scn):
        r = random.Random(scn.get("seed"))
        if scn["kind"] == "write":
            return writing(scn)
        if scn["kind"] == "probe":
            fmt, doc = PROBES[scn["name"]]
            return dict(reading(fmt, doc, "und"), scn=scn, probe=scn["name"])
        if scn["kind"] == "read":
            doc = multi_dfxp(r) if scn["fmt"] == "dfxp" else multi_sami(r)
            return dict(reading(scn["fmt"], doc, "und"), scn=scn)
        if scn["kind"] == "opt":
            fmt = r.choice(["srt", "vtt", "mdvd", "scc"])
            doc = {"srt": lambda: docs.srt_doc(r, textfn=lambda: [docs.words(r)], maxcues=2), "vtt": lambda: docs.vtt_doc(r, textfn=lambda: [docs.words(r)], maxcues=2, ordered=True),
                   "mdvd": lambda: docs.mdvd_doc(r, textfn=lambda: [docs.words(r)], maxcues=2) + "\n{1}{2}x", "scc": lambda: sccgen.simple_doc(r)}[fmt]()
            lang = r.choice(gensets.LANGS + ["x", "日本", "EN", "fr-CA"])
            e = reading(fmt, doc, "und", lang)
            if not e["res"]["ok"] and e["res"]["exc"] == "CaptionReadNoCaptions":
                return None
            return dict(e, scn=scn)
        default = r.choice(LDEF[3:] + [""])
        batch = [{"fmt": f, "doc": multi_dfxp(r) if f == "dfxp" else multi_sami(r)} for f in (r.choice(["dfxp", "sami"]) for _ in range(scn["batch"]))]
        batch = [b for b in batch if default or b["fmt"] == "dfxp"]
        env = dict(os.environ, PYCAPTION_DEFAULT_LANG=default, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([PY, os.path.join(VERIF, "harness", "c14.py")], input=json.dumps([default, batch]).encode(),
                           stdout=subprocess.PIPE, env=env, timeout=120, check=True)
        return [dict(e, scn=scn) for e in json.loads(p.stdout)]


if __name__ == "__main__":
    import sys
    sys.path.insert(0, REPO)
    _d, _b = json.load(sys.stdin)
    print(json.dumps([reading(x["fmt"], x["doc"], _d) for x in _b]))
