"""Generators of authored documents (what a user feeds to a reader).  They only
produce inputs; what a document denotes is decided by the TLA+ consumers."""
import re
import random
import string

WORDS = ["Hello", "world", "the", "quick", "brown", "fox", "1984", "12", "Ünïcode", "日本語",
         "it's", "\"quoted\"", "re-do", "e.g.", "50%", "A", "b", "...", "¿Qué?", "[MUSIC]", "♪", "-", "--",
         "𝄞", "naïve", "(laughs)", "10:30", "x=1", "#hash", "/slash", "\\back", "*", "_", "~", "@you"]


def words(r, lo=1, hi=5):
    return " ".join(r.choice(WORDS) for _ in range(r.randint(lo, hi)))


SIZE = 0


def count(r, xs):
    """How many there are: one of xs, but in scenarios of long documents about SIZE."""
    return r.choice(xs) if not SIZE else r.randint(max(SIZE // 2, 1), SIZE)


def eol(r):
    return r.choice(["\n", "\n", "\n", "\r\n", "\r"])


def two(n):
    return f"{n:02d}"


def frac(r, lo=0, hi=9):
    n = r.randint(lo, hi)
    return "".join(r.choice(string.digits) for _ in range(n))


def hours(r, mindig=2):
    h = r.choice([0, 0, 0, 1, 2, 9, 10, 23, 24, 25, 48, 99, 100, 123, 1000, 9999, 12345])
    return str(h).zfill(mindig)


# ------------------------------------------------------------------------ SRT
def srt_stamp(r):
    s = f"{hours(r, r.choice([1, 2, 2, 2, 2, 3]))}:{two(r.randrange(60))}:{two(r.randrange(60))}"
    k = r.random()
    if k < 0.6:
        s += "," + frac(r, 3, 3)
    elif k < 0.85:
        s += "," + frac(r, 1, 9)
    return s


def srt_doc(r, textfn=None, maxcues=5):
    nl = eol(r)
    out = []
    textfn = textfn or (lambda: [words(r) for _ in range(r.randint(1, 3))])
    n = r.randint(1, maxcues)
    num = r.choice([1, 1, 1, 0, 7, 998])
    for i in range(n):
        blk = [str(num + i if r.random() < .9 else r.randint(0, 5000))]
        a = srt_stamp(r)
        blk.append(a + r.choice([" --> ", " --> ", "-->", "  -->  ", " -->", "\t-->\t"]) + (srt_stamp(r) if r.random() < .95 else a)
                   + r.choice(["", "", "", " ", "  "]))
        blk += [] if r.random() < .12 else textfn()
        out.append(nl.join(blk))
    doc = ""
    # known finding C01-srt-empty-cue: a cue without text must be followed by
    # exactly one empty line (none at the end of the file)
    for i, b in enumerate(out):
        doc += b + nl
        notext = "-->" in b.split(nl)[-1]
        if i < len(out) - 1:
            doc += nl + "".join(r.choice(["", " ", "\t"]) + nl
                                for _ in range(0 if notext else r.choice([0, 0, 0, 0, 1, 2])))
    if not notext:
        doc += r.choice(["", "", nl, nl + nl, nl + " " + nl])
    if r.random() < .2 and doc.endswith(nl):
        doc = doc[:-len(nl)]
    return doc


# --------------------------------------------------------------------- WebVTT
def vtt_stamp(r, t=None):
    """t in milliseconds"""
    h, rem = divmod(t, 3600000)
    m, rem = divmod(rem, 60000)
    s, ms = divmod(rem, 1000)
    base = f"{two(m)}:{two(s)}.{ms:03d}"
    if h or r.random() < .4:
        base = f"{str(h).zfill(r.choice([2, 2, 2, 3]))}:{base}"
    return base


def vtt_doc(r, textfn=None, maxcues=5, ordered=False, settings=True):
    nl = eol(r)
    textfn = textfn or (lambda: [words(r) for _ in range(r.randint(1, 3))])
    hdr = r.choice(["WEBVTT", "WEBVTT", "WEBVTT - Some title", "WEBVTT\ttabbed", "\ufeffWEBVTT"])
    if r.random() < .25:
        hdr += nl + nl.join(r.sample(["Kind: captions", "Language: en", "Region: id=fred width=40%", "X-TIMESTAMP-MAP=MPEGTS:900000,LOCAL:00:00:00.000", "NOTE"],
                                     r.choice([1, 1, 2])))
    blocks = [hdr]
    t = r.choice([0, 0, 500, 59999, 3599999, 86399000, 90000000])
    for i in range(count(r, range(1, maxcues + 1))):
        k = r.random()
        if k < .15:
            blocks.append("NOTE " + words(r))
        elif k < .22:
            blocks.append("NOTE" + nl + words(r) + nl + words(r))
        elif k < .26 and i == 0:
            blocks.append("STYLE" + nl + r.choice(["::cue { color: red }", "::cue(b) {" + nl + "  color: red;" + nl + "}", "::cue(#a) { }"]))
        elif k < .30 and i == 0:
            blocks.append(r.choice(["REGION", "REGION "]) + nl + nl.join(r.sample(
                ["id:fred", "width:40%", "lines:3", "regionanchor:0%,100%", "viewportanchor:10%,90%", "scroll:up"], r.randint(1, 6))))
        if ordered:
            a = t + r.choice([0, 1, 999, 1000, 60000, 12345])
            b = a + r.choice([0, 1, 500, 1000, 59000])
            t = a
        else:
            base = r.choice([0, 999, 1000, 59999, 60000, 3599999, 3600000, 86399999, 86400000, 360000000, 3599999999])
            a = base + r.randrange(100000)
            b = base + r.randrange(200000)
        blk = []
        if r.random() < .3:
            blk.append(r.choice(["cue-1", "1", "intro scene", "NOTEs", "00:00"]))
        st = ""
        if settings and r.random() < .3:
            st = " " + r.choice(["align:left", "position:10% line:0", "size:50% align:center", "vertical:rl",
                                 "line:-1", "region:fred"])
        blk.append(vtt_stamp(r, a) + r.choice([" --> ", " --> ", "\t-->\t", "  -->  "]) + vtt_stamp(r, b) + st
                   + r.choice(["", "", " "]))
        blk += [] if r.random() < .12 else textfn()
        blocks.append(nl.join(blk))
    doc = ""
    for i, b in enumerate(blocks):
        doc += b + nl
        if i < len(blocks) - 1:
            doc += nl * r.choice([1, 1, 1, 1, 2, 3])
    doc += r.choice(["", nl, nl + nl])
    if r.random() < .2 and doc.endswith(nl):
        doc = doc[:-len(nl)]
    return doc


# ------------------------------------------------------------------- MicroDVD
def mdvd_doc(r, textfn=None, maxcues=6):
    nl = eol(r)
    textfn = textfn or (lambda: [words(r) for _ in range(r.randint(1, 3))])
    ls = []
    if r.random() < .6:
        ls.append("{0}{0}" + r.choice(["25", "25.0", "23.976", "29.97", "30", "24", "23.98", "59.94", "12.5",
                                       "50", "29.970", "60.00", "15", "14.985", "120", "119.88", "10", "1"]))
    n = count(r, range(1, maxcues + 1))
    for i in range(n):
        a = r.choice([0, 1, 7, 25, 100, 1000, 12345, 90000, 2160000, 9999999]) + r.randrange(1000)
        b = a + r.choice([1, 2, 25, 50, 77, 1000] if a == 0 else [1, 2, 25, 50, 77, 1000, 0])
        k = r.random()
        txt = "" if k < .1 else "|" if k < .14 else "|".join(textfn())
        if r.random() < .08:
            txt = "|" + txt
        if txt and r.random() < .1:
            txt = r.choice(["{0}", "{1}{2}", "{0}{25}{3}", "{y:i}", "{", "{}", "{ 1}{2}", "}{", "{c:$0000FF}", "{12"]) + txt
        ls.append("{%s}{%s}%s" % (str(a).zfill(r.choice([1, 1, 1, 7])), b, txt))
        if r.random() < .1:
            ls.append("")
    return nl.join(ls) + r.choice(["", nl])


# ----------------------------------------------------------------------- DFXP
def ttml_time(r):
    k = r.random()
    if k < .5:
        s = f"{hours(r)}:{two(r.randrange(60))}:{two(r.randrange(60))}"
        k = r.random()
        if k < .35:
            return s + "." + frac(r, 3, 3)
        if k < .65:
            return s + "." + frac(r, 1, 9)
        if k < .85:
            return s + ":" + two(r.randrange(30))
        return s
    m = r.choice(["h", "m", "s", "ms", "f"])
    big = {"h": 40, "m": 3000, "s": 100000, "ms": 10 ** 8, "f": 10 ** 7}[m]
    v = str(r.randrange(r.choice([2, 10, 1000, big]) if m != "h" else big))
    if r.random() < .6:
        v += "." + frac(r, 1, r.choice([1, 3, 3, 12]))
    return v + m


def ttml_dur(r):
    return r.choice([f"00:00:0{r.randrange(10)}.{frac(r, 3, 3)}", f"{r.randrange(1, 9)}.{frac(r, 1, 6)}s",
                     f"{r.randrange(1, 9000)}ms", f"{r.randrange(1, 300)}f", f"00:00:0{r.randrange(1, 9)}:{two(r.randrange(30))}",
                     f"0.{frac(r, 1, 4)}m", f"00:00:0{r.randrange(1, 9)}", f"0.00{frac(r, 1, 6)}h"])


def xesc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def dfxp_doc(r, bodyfn=None, maxps=4, langs=True):
    """bodyfn() -> inner XML of a p"""
    bodyfn = bodyfn or (lambda: xesc(words(r)) + r.choice(["", "<br/>" + xesc(words(r)), "<br/>\n   " + xesc(words(r))]))
    q = r.choice(['"', '"', "'"])
    tt = f"<tt xmlns={q}http://www.w3.org/ns/ttml{q} xmlns:tts={q}http://www.w3.org/ns/ttml#styling{q}"
    if r.random() < .7:
        tt += f" xml:lang={q}{r.choice(['en', 'fr', 'en-US', ''] if langs else ['en'])}{q}".replace(f"{q}{q}", f"{q}de{q}")
    tt += ">"
    out = [r.choice(["<?xml version=\"1.0\" encoding=\"utf-8\"?>\n", ""]) + tt]
    if r.random() < .5:
        out.append("<head><styling><style xml:id=\"s1\" tts:color=\"white\"/></styling></head>")
    if r.random() < .2:
        out.append("<!-- a comment -->")
    out.append("<body>")
    used = ["en", "fr", "de", "es-MX", "pt-BR"]
    r.shuffle(used)
    meta = ["<metadata ttm:desc={q}x{q}/>", "<metadata><ttm:desc>a scene</ttm:desc></metadata>", "<ttm:desc>by <ttm:name>someone</ttm:name></ttm:desc>",
            "<metadata>\n <ttm:title>title</ttm:title>\n</metadata>"] if r.random() < .15 else []
    if meta:
        out[0] = out[0].replace("<tt ", f"<tt xmlns:ttm={q}http://www.w3.org/ns/ttml#metadata{q} ")
    for d in range(r.choice([1, 1, 1, 2, 2, 3])):
        # (a div without a language has none around it that names one)
        lang = lambda p: f" xml:lang={q}{used[d % r.choice([2, 5])]}{q}" if r.random() < p else ""
        out.append("<div" + lang(.8) + ">")
        named = [len(out[-1]) > 5]
        for _ in range(count(r, range(0 if d else 1, maxps + 1))):
            if r.random() < .06:
                out.append("<div" + lang(1 if any(named) else .5) + ">")
                named.append(len(out[-1]) > 5)
            elif len(named) > 1 and r.random() < .4:
                out.append("</div>")
                named.pop()
            attrs = [f"begin={q}{ttml_time(r)}{q}"]
            if r.random() < .7:
                attrs.append(f"end={q}{ttml_time(r)}{q}")
            else:
                attrs.append(f"dur={q}{ttml_dur(r)}{q}")
            if r.random() < .2:
                attrs.append(f"style={q}s1{q}")
            r.shuffle(attrs)
            k = r.random()
            body = "" if k < .06 else "<br/>" if k < .1 else "  \n  " if k < .14 else bodyfn()
            if meta and r.random() < .5:
                m = r.choice(meta).format(q=q)
                body = m + body if r.random() < .5 else body + m
            out.append(f"<p {' '.join(attrs)}>{body}</p>")
            if r.random() < .05:
                out.append("<!-- between -->")
        out += ["</div>"] * len(named)
    out.append("</body></tt>")
    sep = r.choice(["\n", "\n  ", "", "\r\n"])
    doc = sep.join(out) + r.choice(["", "\n"])
    if r.random() < .08:    # the elements written with a prefix
        pre = r.choice(["tt", "t", "ns0"])
        doc = re.sub(r"<(/?)(?=(tt|head|styling|style|layout|region|body|div|p|span|br|metadata)[\s/>])", rf"<\1{pre}:", doc)
        doc = doc.replace("xmlns=", f"xmlns:{pre}=", 1)
    return doc


# ----------------------------------------------------------------------- SAMI
def sheet(r, css):
    """A style sheet of one rule a line, as authors write them: comments, rules split, selectors listed."""
    if r.random() < .6:
        return css
    out = []
    note = lambda: r.choice(["/* a note */", "/* P { color: red; } */", "/**/", "/* it's; {x} * / */"])
    for line in css.split("\n"):
        sel, brace, body = line.partition(" {")
        ds = [d.strip() for d in body.rstrip("} ").split(";") if d.strip()]
        if not brace or not ds:
            out.append(line)
            continue
        if r.random() < .2:
            out.append(note())
        if r.random() < .05:
            out.append("@font-face { font-family: Far; src: url(far.ttf); }")
        if r.random() < .2 and sel.strip().startswith("."):
            sel = r.choice([f"{sel}, .unused", f".unused,{sel}", f".unused , {sel}"])
        cut = r.randrange(1, len(ds)) if len(ds) > 1 and r.random() < .3 else len(ds)
        for part in (ds[:cut], ds[cut:]):
            if part:
                text = "; ".join(part) + r.choice(["", ";", " ;"])
                out.append(f"{sel}{r.choice([' ', ''])}{{ {text} " + (note() + " " if r.random() < .1 else "") + "}")
    return "\n".join(out)


def sami_doc(r, bodyfn=None, maxsync=6, langs=None, case=None):
    bodyfn = bodyfn or (lambda: xesc(words(r)) + r.choice(["", "<br>" + xesc(words(r)), "<BR/>\n" + xesc(words(r))]))
    allc = [("ENCC", "en-US", "English"), ("FRCC", "fr-FR", "French"), ("ESCC", "es", "Spanish"), ("DECC", "de-AT", "German")]
    r.shuffle(allc)
    cl = allc[:langs or r.choice([1, 1, 2, 2, 3])]
    k = case or r.random()
    up = (lambda s: s) if k < .4 else (lambda s: s.upper()) if k < .9 else (lambda s: s.capitalize())
    tag = lambda t: up(t)  # noqa: E731
    css = "P { font-family: Arial; }\n" if r.random() < .5 else ""
    css += "\n".join(f".{c} {{ Name: {n}; lang: {lc}; SAMI_Type: CC; }}" for c, lc, n in cl)
    css = sheet(r, css)
    o = [f"<{tag('sami')}><{tag('head')}><{tag('title')}>t</{tag('title')}>"
         f"<{tag('style')} TYPE=\"text/css\">\n<!--\n{css}\n-->\n</{tag('style')}></{tag('head')}>", f"<{tag('body')}>"]
    t = r.choice([0, 0, 100, 1000, 3599000, r.choice([59999, 86399000, 359999999, 2147483000, 3000000000])])
    closep, closes = r.random() < .6, r.random() < .5
    quoted = r.choice(['"', "", '"', "", "'"])
    eq = "=" if r.random() < .9 else " = "
    shown = set()
    nsync = count(r, range(1, maxsync + 1))
    for i in range(nsync):
        sy = f"<{tag('sync')} {r.choice(['start', 'Start', 'START'])}{eq}{quoted}{t}{quoted}>"
        who = [c for c in cl if r.random() < .75] or [r.choice(cl)]
        if r.random() < .5:
            r.shuffle(who)
        if r.random() < .1:     # several paragraphs of a language together
            who += r.choice([[], who]) + [r.choice(who)] * r.choice([1, 1, 2, 3])
        for c, lc, _n in who:
            blank = r.random() < .25
            body = r.choice(["&nbsp;", "&#160;", "", " ", "\n &nbsp;\n"]) if blank else bodyfn()
            if not closep and body == "":
                body = "&nbsp;"
            shown.add(c)
            pc = c if r.random() < .8 else c.lower()
            sy += f"<{tag('p')} {r.choice(['class', 'Class'])}={quoted}{pc}{quoted}>{body}" + (f"</{tag('p')}>" if closep else "")
            sy += r.choice(["", "\n"])
        sy += f"</{tag('sync')}>" if closes else ""
        o.append(sy)
        t += r.choice([1, 40, 999, 1000, 1500, 4000, 60000, 3600000])
    o.append(f"</{tag('body')}></{tag('sami')}>")
    return "\n".join(o)


# ------------------------------------------------- documents with style and layout
def pctl(r, lo=0, hi=100):
    v = r.choice([r.randrange(lo, hi), r.randrange(lo, hi), round(r.uniform(lo, hi), 2)])
    return f"{v}%"


def tts_layout(r, units=False):
    """Attributes that position something."""
    out = []
    ln = (lambda lo, hi: pctl(r, lo, hi)) if not units else (
        lambda lo, hi: r.choice([pctl(r, lo, hi), f"{r.randrange(1, 200)}px", f"{r.randrange(1, 9)}em", f"{r.randrange(1, 12)}c"]))
    if r.random() < .6:
        out.append(f"tts:origin=\"{ln(5, 60)} {ln(5, 60)}\"")
    if r.random() < .5:
        out.append(f"tts:extent=\"{ln(10, 39)} {ln(5, 35)}\"")
    if r.random() < .3:
        out.append("tts:padding=\"" + " ".join(ln(0, 9) for _ in range(r.randint(1, 4))) + "\"")
    if r.random() < .5:
        out.append(f"tts:textAlign=\"{r.choice(['left', 'center', 'right', 'start', 'end'])}\"")
    if r.random() < .5:
        out.append(f"tts:displayAlign=\"{r.choice(['before', 'center', 'after'])}\"")
    return out


def tts_style(r):
    return r.sample(["tts:fontStyle=\"italic\"", "tts:fontWeight=\"bold\"", "tts:textDecoration=\"underline\"", "tts:color=\"#ff&amp;0\"",
                     "tts:color=\"red\"", "tts:fontFamily=\"A &quot;B&quot;\"", "tts:fontSize=\"12px\"", "tts:fontStyle=\"normal\""], r.choice([0, 1, 1, 2]))


def uniq(attrs):
    seen, out = set(), []
    for a in attrs:
        k = a.split("=")[0]
        if k not in seen:
            seen.add(k)
            out.append(a)
    return out


def styled_dfxp(r, textfn=None, langs=None, units=False, maxps=3):
    textfn = textfn or (lambda: xesc(words(r, 1, 3)))
    sids = r.sample(["s1", "s2", "p", "bottom", "r0", "é", "A.b", "_x"], r.randint(0, 4))
    rids = r.sample(["r1", "r2", "bottom", "top-left", "R.3"], r.randint(0, 3))
    rids = [x for x in rids if x not in sids]
    head = "<styling>"
    for i, k in enumerate(sids):
        at = tts_style(r) + (tts_layout(r, units) if r.random() < .3 else [])
        if i and r.random() < .4:
            at.append(f"style=\"{sids[r.randrange(i)]}\"")
        head += f"<style xml:id=\"{k}\" {' '.join(uniq(at))}/>"
    head += "</styling>"
    if rids or r.random() < .5:
        head += "<layout>"
        for k in rids:
            at = tts_layout(r, units)
            if sids and r.random() < .2:
                at.append(f"style=\"{r.choice(sids)}\"")
            if r.random() < .5:
                head += f"<region xml:id=\"{k}\" {' '.join(at)}/>"
            else:
                head += f"<region xml:id=\"{k}\">" + "".join(f"<style {a}/>" for a in at if not a.startswith("style=")) + "</region>"
        head += "</layout>"

    def at(p):
        out = []
        if rids and r.random() < p:
            out.append(f"region=\"{r.choice(rids)}\"")
        if sids and r.random() < p:
            out.append("style=\"" + r.choice(sids) + "\"")
        if r.random() < p:
            out += tts_style(r)
        if r.random() < p / 2:
            out += tts_layout(r, units)
        return " ".join(uniq(out))

    def seq(depth):
        out = ""
        for i in range(r.choice([1, 1, 2, 3])):
            if i:
                out += r.choice(["", " ", "<br/>", "<br/>\n"])
            out += f"<span {at(.5)}>{seq(depth + 1)}</span>" if depth < 2 and r.random() < .4 else textfn()
        return out
    o = ["<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<tt xmlns=\"http://www.w3.org/ns/ttml\" xmlns:tts=\"http://www.w3.org/ns/ttml#styling\""
         " xml:lang=\"en\"" + (" tts:extent=\"640px 360px\"" if r.random() < .3 else "") + ">",
         f"<head>{head}</head><body {at(.15)}>"]
    for lg in langs or r.choice([["en"], ["en"], ["fr", "en-US"], [None], ["de", "de-AT"]]):
        o.append("<div" + (f" xml:lang=\"{lg}\"" if lg else "") + f" {at(.25)}>")
        t = 0
        for _ in range(count(r, range(1, maxps + 1))):
            t += r.choice([0, 1, 5])
            o.append(f"<p begin=\"{t}s\" end=\"{t + 1}s\" {at(.35)}>{seq(0)}</p>")
        o.append("</div>")
    o.append("</body></tt>")
    return "\n".join(o)


def styled_sami(r, textfn=None, langs=None, maxsync=4):
    textfn = textfn or (lambda: xesc(words(r, 1, 3)))
    allc = [("ENCC", "en-US", "English"), ("FRCC", "fr-FR", "French"), ("ESCC", "es", "Spanish"), ("DECC", "de-AT", "German")]
    r.shuffle(allc)
    cl = allc[:langs or r.choice([1, 1, 2, 3])]

    def decl():
        out = []
        for k in r.sample(["al", "m", "c", "i", "b", "u", "f"], r.choice([0, 1, 2, 3])):
            out.append({"al": f"text-align: {r.choice(['left', 'center', 'right', 'start', 'justify'])};",
                        "m": r.choice(["margin: 1%;", "margin: 1% 2% 3% 4%;", "margin-left: 10%; margin-top: 5%;", "margin-right: 7.5%;",
                                       "margin-bottom: 2%; margin-left: 1%;"]),
                        "c": f"color: {r.choice(['red', '#ffeedd', '#abc', 'white'])};", "i": "font-style: italic;", "b": "font-weight: bold;",
                        "u": "text-decoration: underline;", "f": "font-family: Arial, \"Sans\"; font-size: 12pt;"}[k])
        return " ".join(out)
    extra = [("#Small", decl()), (".hi", decl()), (".Name_1", decl())]
    css = f"P {{ {decl()} }}\n" if r.random() < .5 else ""
    css += "\n".join(f".{c} {{ Name: {n}; lang: {lc}; SAMI_Type: CC; {decl() if r.random() < .4 else ''} }}" for c, lc, n in cl)
    css += "\n" + "\n".join(f"{k} {{ {v} }}" for k, v in extra if r.random() < .6 and v)

    def item(depth):
        if depth < 2 and r.random() < .4:
            o, c = r.choice([("i", "i"), ("b", "b"), ("u", "u"), ("span class=\"hi\"", "span"), (f"span style='{decl().replace(chr(34), '')}'", "span"),
                             ("span style=\"font-style:italic;\"", "span"), ("span class=\"Name_1\" style=\"color:blue;\"", "span")])
            return f"<{o}>{seq(depth + 1)}</{c}>"
        return textfn()

    def seq(depth):
        out = ""
        for i in range(r.choice([1, 1, 2, 3])):
            out += (r.choice(["", " ", "<br>", "<br/>\n"]) if i else "") + item(depth)
        return out
    css = sheet(r, css)
    o = [f"<SAMI><HEAD><TITLE>t</TITLE><STYLE TYPE=\"text/css\">\n<!--\n{css}\n-->\n</STYLE></HEAD><BODY>"]
    t = r.choice([0, 1000])
    for _ in range(count(r, range(1, maxsync + 1))):
        s = f"<SYNC start=\"{t}\">"
        for c, _lc, _n in [x for x in cl if r.random() < .8] or [cl[0]]:
            a = f" style='{decl().replace(chr(34), '')}'" if r.random() < .2 else ""
            a += " ID=\"Small\"" if r.random() < .15 else ""
            s += f"<P Class=\"{c}\"{a}>{seq(0) if r.random() < .85 else '&nbsp;'}</P>"
        o.append(s + "</SYNC>")
        t += r.choice([500, 1000, 4000])
    o.append("</BODY></SAMI>")
    return "\n".join(o)
