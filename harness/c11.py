"""C11 - italic, bold and underline spans survive conversion and stay balanced."""
import random

import bodies
import docs
import gensets
import hostile
import sccgen
import writers
from c08 import reader
from core import Check, cps, run_op
from project import style_flags

SPANS = [{"italics": True}, {"italics": True}, {"bold": True}, {"underline": True}, {"italics": True, "bold": True},
         {"bold": True, "underline": True}, {"italics": True, "bold": True, "underline": True}, {"color": "red"},
         {"italics": True, "color": "#ff0000"}, {"italics": False, "color": "blue"}, {"italics": False, "bold": True},
         {"bold": False, "italics": True}, {"underline": False}, {},
         {"font-family": "Arial", "underline": True}, {"font-size": "10px", "italics": True}, {"text-align": "left", "bold": True},
         {"font-family": "\"A B\", 'C'", "italics": True}, {"color": "a&b<c>", "bold": True}]
KIND = {2: {"italics": True}, 3: {"bold": True}, 4: {"underline": True}, 5: {"italics": True, "bold": True}}
CHAINS = [["dfxp", "dfxp"], ["sami", "sami"], ["dfxp", "sami"], ["sami", "dfxp"], ["vtt"]]


def style_of(content, styles):
    return sorted(style_flags(content, styles))


def project(cs):
    from pycaption.base import CaptionNode as N
    styles = dict(cs.get_styles())
    out = []
    for lg in cs.get_languages():
        caps = []
        for c in cs.get_captions(lg):
            ns = []
            for n in c.nodes:
                if n.type_ == N.TEXT:
                    ns.append({"k": "t", "c": cps(n.content), "on": False, "st": []})
                elif n.type_ == N.BREAK:
                    ns.append({"k": "b", "c": [], "on": False, "st": []})
                else:
                    ns.append({"k": "s", "c": [], "on": bool(n.start), "st": style_of(n.content, styles)})
            caps.append({"st": style_of(c.style, styles), "ns": ns})
        out.append({"lang": cps(lg), "caps": caps})
    return out


def without_off(st):
    return {k: v for k, v in st.items() if v is not False}


def ordered(cs):
    for lg in cs.get_languages():
        caps = cs.get_captions(lg)
        if any(a.start > b.start for a, b in zip(caps, caps[1:])) or any(c.end >= gensets.DAY for c in caps):
            return False
    return True


def concurrent(cs):
    return any((a.start, a.end) == (b.start, b.end) for lg in cs.get_languages()
               for a, b in zip(cs.get_captions(lg), cs.get_captions(lg)[1:]))


def span_nodes(r, textfn, spans, classes=(), pool=()):
    """Flat spans anywhere: at line starts and ends, across breaks, adjacent, empty."""
    from pycaption.base import CaptionNode as N
    out, op, lay = [], None, r.choice(pool) if pool else None
    for _ in range(docs.count(r, [2, 3, 4, 5, 6, 8])):
        k = r.random()
        if k < .3:
            if op is None:
                op = dict(r.choice(spans))
                if classes and r.random() < .25:
                    op = dict(without_off(op), **{"class": r.choice(classes)})
                out.append(N.create_style(True, op, layout_info=lay))
            else:
                out.append(N.create_style(False, r.choice([op, dict(op)]), layout_info=lay))
                op = None
        elif k < .45:
            out.append(N.create_break(layout_info=lay))
        elif k < .5 and pool and op is None:
            lay = r.choice(pool)
        else:
            out.append(N.create_text(textfn(), layout_info=lay))
    if op is not None:
        out.append(N.create_style(False, op, layout_info=lay))
    if not any(n.type_ == N.TEXT and n.content.strip() for n in out):
        out.append(N.create_text("x", layout_info=lay))
    return out


def api_set(r, chain):
    from pycaption.base import Caption, CaptionList, CaptionSet
    tok = [0]

    def text():
        if r.random() < .2:
            return hostile.line(r, atoms=["&", "<", "a<b", "x&y", "é", "&amp;", "<i>", "</i>", "w"], maxn=2)
        if r.random() < .05:
            return r.choice(["", " "])
        tok[0] += 1
        return r.choice(["", "", " "]) + f"w{tok[0]}" + r.choice(["", "", " ", " " + docs.words(r, 1, 2)])
    names = r.sample(["hi", "lo", "em", "s-1"], r.randint(1, 3)) if r.random() < .4 else []
    styles = {n: dict(r.choice(SPANS[:-1])) for n in names}     # the last one is not CSS
    pool = [gensets.layout(r) for _ in range(2)] + [None] if r.random() < .3 else []
    d = {}
    multi = "vtt" not in chain and r.random() < .25
    for lg in r.sample(gensets.LANGS, 2 if multi else 1):
        cl, t = CaptionList(layout_info=r.choice(pool) if pool else None), r.choice([x for x in gensets.EDGES if x < 86390 * 10 ** 6])
        for _ in range(docs.count(r, [1, 1, 2, 3])):
            st = {}
            if r.random() < .2:
                st = dict(r.choice(SPANS))
                if names and r.random() < .4:
                    st = dict(without_off(st), **{"class": r.choice(names)})
            cl.append(Caption(t, t + 10 ** 6, span_nodes(r, text, SPANS, names, pool), style=st, layout_info=r.choice(pool) if pool else None))
            t += 2 * 10 ** 6
        d[lg] = cl
    return CaptionSet(d, styles=styles)


def built_set(batch):
    """One caption per generated node sequence."""
    from pycaption.base import Caption, CaptionList, CaptionNode as N, CaptionSet
    cl, tok = CaptionList(), 0
    for j, ns in enumerate(batch):
        out, op = [], None
        for k in ns:
            if k == 0:
                tok += 1
                out.append(N.create_text(f"w{tok}"))
            elif k == 1:
                out.append(N.create_break())
            elif k == 9:
                out.append(N.create_style(False, op))
            else:
                op = dict(KIND[k])
                out.append(N.create_style(True, op))
        cl.append(Caption(j * 2000000, j * 2000000 + 1000000, out))
    return CaptionSet({"en-US": cl})


def flat(ls):
    for x in ls:
        for c in x["caps"]:
            d = 0
            for n in c["ns"]:
                if n["k"] == "s":
                    d += 1 if n["on"] else -1
                    if d > 1 or d < 0:
                        return False
    return True


def authored_body(r, opens, depth=1):
    """Text, line breaks and spans, which may hold line breaks or nothing and touch each other."""
    out = ""
    for _ in range(docs.count(r, [1, 2, 3, 4, 5])):
        k = r.random()
        if k < (.4 if not docs.SIZE else .2) and depth:
            o, c = r.choice(opens)
            out += f"<{o}>{authored_body(r, opens, depth - 1)}</{c}>"
        elif k < .55:
            out += r.choice(["<br/>", "<br/>", "<br />\n  "])
        else:
            out += r.choice(["", "", " ", "\n"]) + r.choice([docs.xesc(docs.words(r, 1, 2)), docs.words(r, 1, 1).replace("<", "").replace("&", ""),
                                                             "a&amp;b", "&lt;i&gt;", "x&#160;y", "&#233;"]) + r.choice(["", "", " "])
    return out


def authored_sami(r):
    flags = ["font-style: italic", "font-style:italic", "font-weight: bold", "font-weight:bold", "text-decoration: underline", "TEXT-DECORATION:underline"]

    def decls(n, sep="; "):
        return sep.join(r.sample(flags[:5], n) + r.sample(["color: red", "font-size:12pt", "color:#fff"], r.choice([0, 1])))
    cls = {"Hi": "font-style: italic;", "lo": "font-weight: bold; color: red;", "und": "text-decoration: underline;", "no": "color: #ffffff;"}
    opens = [("i", "i"), ("i", "i"), ("I", "I"), ("b", "b"), ("u", "u"), ("U", "u"), ("span", "span"), ("font color=\"red\"", "font")]
    opens += [(f'span class="{c}"', "span") for c in ("Hi", "hi", "lo", "und", "no", "absent")]
    opens += [(f'span style="{decls(r.choice([0, 1, 1, 2]), r.choice(["; ", ";"]))}{r.choice(["", ";"])}"', "span") for _ in range(4)]
    opens += [('span class="Hi" style="font-weight:bold;"', "span"), ('SPAN Class="und"', "SPAN"), ("div style='font-style:italic'", "div"), ('span class="und lo"', "span"), ('span class="no  Hi"', "span")]
    # values that switch nothing on (there is nothing around them to switch off)
    off = ["font-style: normal", "font-weight: normal", "font-weight:400", "text-decoration: none", "text-decoration:line-through", "font-family: bold italic"]
    cls["plain"] = "; ".join(r.sample(off, 2))
    none = r.random() < .4
    if none:
        opens += [('span class="plain"', "span")] + [(f'span style="{"; ".join(r.sample(off, r.choice([1, 1, 2])))}"', "span") for _ in range(2)]
    css = "\n".join(f".{k} {{ {v} }}" for k, v in cls.items())
    langs = r.sample([("EN", "en-US"), ("FR", "fr"), ("DE", "de-AT")], r.choice([1, 1, 2]))
    css += "\n" + "\n".join(f".{c} {{ Name: x; lang: {v}; }}" for c, v in langs)
    o, t = [f"<SAMI><HEAD><STYLE TYPE=\"text/css\"><!--\n{docs.sheet(r, css)}\n--></STYLE></HEAD><BODY>"], 0
    for _ in range(docs.count(r, [1, 2, 3])):
        s = f"<SYNC start={t}>"
        for c, _v in langs:
            a = r.choice(["", "", "", "", f' style="{decls(1)}"', f' style="{decls(2)};"']) if not none else ""
            s += f"<P class={c}{a}>{authored_body(r, opens)}</P>"
        o.append(s + r.choice(["</SYNC>", ""]))
        t += 1000
    return "\n".join(o) + "</BODY></SAMI>"


def authored_dfxp(r):
    fl = ['tts:fontStyle="italic"', 'tts:fontWeight="bold"', 'tts:textDecoration="underline"']
    opens = [("span", "span"), ('span tts:color="red"', "span"), ('span style="no"', "span"), ('span style="absent"', "span")]
    opens += [("span " + " ".join(r.sample(fl, r.choice([1, 1, 2]))), "span") for _ in range(5)]
    opens += [(f'span style="{s}"', "span") for s in ("it", "bo", "un", "ref", "it", "two")]
    opens += [(f'span style="bo" {fl[0]}', "span"), ('span style="no" ' + fl[2], "span"), ('span style="it bo"', "span"), ('span style="un  aref"', "span")]
    off = ['tts:fontStyle="normal"', 'tts:fontWeight="normal"', 'tts:textDecoration="none"', 'tts:textDecoration="lineThrough"', 'tts:fontFamily="italic"',
           'tts:textDecoration="noUnderline"']
    none = r.random() < .4
    if none:
        opens += [('span style="plain"', "span")] + [(f"span {r.choice(off)}", "span") for _ in range(2)]
    head = "".join(f'<style xml:id="{i}" {a}/>' for i, a in
                   [("plain", " ".join(off[:3])), ("it", fl[0]), ("bo", fl[1]), ("un", fl[2]), ("no", 'tts:color="blue"'), ("ref", 'style="it" tts:color="red"'), ("two", fl[0] + " " + fl[1]), ("aref", 'style="it"')])
    o, t = ['<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><styling>'
            + head + "</styling></head><body>"], 0
    for lg in r.sample(["en", "fr", "de-AT"], r.choice([1, 1, 2])):
        o.append(f'<div xml:lang="{lg}">')
        for _ in range(docs.count(r, [1, 2, 3])):
            a = r.choice(["", "", "", "", " " + r.choice(fl), ' style="it"', ' style="ref"', ' style="bo"']) if not none else ""
            o.append(f'<p begin="{t}s" end="{t + 1}s"{a}>{authored_body(r, opens)}</p>')
            t += 1
        o.append("</div>")
    return "\n".join(o) + "</body></tt>"


def read_doc(r, fmt, sink):
    import pycaption as p
    if fmt == "srt":
        return p.SRTReader().read(docs.srt_doc(r, textfn=lambda: [hostile.line(r) or "x"], maxcues=3))
    if fmt == "vtt":
        return p.WebVTTReader(ignore_timing_errors=True).read(docs.vtt_doc(r, textfn=lambda: bodies.vtt_lines(r), maxcues=3))
    if fmt == "mdvd":
        return p.MicroDVDReader().read(docs.mdvd_doc(r, textfn=lambda: [hostile.line(r).replace("|", "") or "x"], maxcues=3))
    if fmt == "scc":
        return p.SCCReader().read(scc_doc(r))
    if fmt == "dfxp" and r.random() < .6:
        return p.DFXPReader().read(sink(authored_dfxp(r)))
    if fmt == "sami" and r.random() < .6:
        return p.SAMIReader().read(sink(authored_sami(r)))
    if fmt == "dfxp":
        return p.DFXPReader(read_invalid_positioning=r.random() < .3).read(docs.styled_dfxp(r))
    return p.SAMIReader().read(docs.styled_sami(r))


def scc_doc(r):
    """Streams full of italics: mid-row codes, italic preambles, several rows, back-to-back codes."""
    C = sccgen.CTL
    lines, f = [], 300
    for _ in range(docs.count(r, [1, 2, 3, 4])):
        w = sccgen.Words()
        k = r.choice([1, 2])
        mode = r.choice(["RCL", "RCL", "RCL", "RU2", "RU3", "RDC"])
        w.code(C[mode], k)
        if mode[:2] == "RU":
            w.code(C["CR"], k)
        row = r.randrange(1, 13)
        for _ in range(r.choice([1, 2, 2, 3])):
            w.code(sccgen.pac(row, r.choice([0, 0, 4, 8]), italics=r.random() < .35, underline=r.random() < .1, color=r.choice([0, 0, 1, 2])), k)
            if r.random() < .3:
                w.code(sccgen.tab(r.choice([1, 2, 3])), k)
            for _ in range(r.randint(1, 5)):
                x = r.random()
                if x < .3:
                    w.code(sccgen.midrow(italics=True, underline=r.random() < .2), k)
                elif x < .5:
                    w.code(sccgen.midrow(color=r.choice([0, 0, 3]), underline=r.random() < .2), k)
                elif x < .56:
                    w.code(C["BS"], k)
                elif x < .62:
                    w.code(sccgen.special(r.randrange(16)), k)
                else:
                    for ch in sccgen.plain_words(r, 8, 1, 2):
                        w.ch(ord(ch))
            row += r.choice([1, 1, 2, 3])
            if row > 15 or mode[:2] == "RU":
                break
        if mode == "RCL":
            w.code(C["EOC"], k)
        else:
            w.flush()
        lines.append((f, w.w))
        f += len(w.w) + r.choice([60, 90, 200])
        if r.random() < .5:
            lines.append((f, [C["EDM"]] * k))
            f += 30
    return sccgen.doc(lines)


class C11(Check):
    prop = "C11"
    assumptions = ["conversions are judged on flat spans (nested ones only for balance), each within nodes of one layout",
                   "bold and underline are demanded until the first DFXP document of a chain, which may drop but not invent them",
                   "style sheets apply italic, bold and underline through classes, not through element selectors"]

    def scenarios(self):
        seqs = self.generate("GenSpans", "GenSpansDeep" if self.thorough else "GenSpans")
        out = [{"kind": "gen", "chain": ch, "batch": seqs[i:i + 12]} for ch in CHAINS for i in range(0, len(seqs), 12)]
        n = self.n(220, 4000)
        out += [{"kind": "api", "chain": ch, "seed": f"C11-{self.seed}-{'-'.join(ch)}-{i}"}
                for ch in CHAINS + [["single"], ["legacy"], ["sami", "vtt"], ["dfxp", "vtt"], ["sami", "dfxp", "sami"]] for i in range(n)]
        out += [{"kind": "conv", "fmt": f, "seed": f"C11-{self.seed}-conv-{f}-{i}"} for f in ("dfxp", "sami", "scc", "vtt") for i in range(n)]
        out += [{"kind": "read", "fmt": f, "seed": f"C11-{self.seed}-read-{f}-{i}"} for f in ("dfxp", "sami", "scc", "scc") for i in range(n)]
        for ch in CHAINS + [["single"], ["legacy"], ["sami", "vtt"], ["dfxp", "vtt"]]:
            out += self.big(4, 60, (12, 20), kind="api", chain=ch)
        for f in ("dfxp", "sami", "scc"):
            out += self.big(4, 60, (8, 16), kind="conv", fmt=f) + self.big(4, 60, (8, 16), kind="read", fmt=f)
        out += [{"kind": "read", "fmt": f, "seed": f"C11-{self.seed}-read-{f}-{i}"} for f in ("srt", "vtt", "mdvd") for i in range(n // 4)]
        return out

    @staticmethod
    def execute(scn):
        r = random.Random(scn.get("seed"))
        fmt = scn.get("fmt", "api")
        if scn["kind"] in ("read", "conv"):
            src = []
            ok, cs = run_op(lambda: read_doc(r, fmt, lambda d: src.append(d) or d))
            if not ok:
                return None     # C04 and C20 judge refusals
            if scn["kind"] == "read":
                ls = project(cs)
                return {"ev": "read", "fmt": fmt, "ls": ls, "flat": flat(ls), "src": cps("".join(src)), "scn": scn}
            if any(style_flags({"class": n}, dict(cs.get_styles())) for n in ("p", "sync", "span")):
                return None     # element selectors
            if not ordered(cs):
                return None
            if not all(any(c.get_text().strip() for c in cs.get_captions(lg)) for lg in cs.get_languages()):
                return None     # nothing visible in a language
            chain = r.choice(CHAINS + [["single"], ["legacy"]])
        else:
            chain = scn["chain"]
            cs = built_set(scn["batch"]) if scn["kind"] == "gen" else api_set(r, chain)
        ls = project(cs)
        joined = chain[0] in ("single", "legacy") and concurrent(cs)    # which style the joint caption has is not C11's
        e = {"ev": "conv", "fmt": fmt, "built": scn["kind"] != "conv", "ls": ls, "flat": flat(ls) and not joined, "steps": [], "scn": scn}
        for f in chain:
            ok, doc = writers.write(f, cs)
            if not ok and doc["exc"] == "RelativizationError":
                return None     # C13 judges these
            s = {"fmt": f, "ok": ok, "exc": "" if ok else doc["exc"] + doc["msg"], "doc": cps(doc) if ok else [], "back": []}
            e["steps"].append(s)
            if not ok or f == "vtt":
                break
            ok, cs = run_op(lambda: reader("dfxp" if f in ("single", "legacy") else f).read(doc))
            if not ok:
                s["ok"], s["exc"] = False, "read: " + cs["exc"] + cs["msg"]
                break
            s["back"] = project(cs)
            if f in ("single", "legacy"):
                break
        return e
