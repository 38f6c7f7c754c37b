"""Authored cue texts, per format, with references, inline markup and wrapped lines."""
from docs import words, WORDS

XREF = ["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#60;", "&#38;", "&#x26;", "&#x3c;", "&#233;", "&#xE9;", "&#160;", "&#x1F600;",
        "&amp;lt;", "&amp;amp;", "&amp;#60;", "&#38;lt;", "&#38;amp;", "&amp;nbsp;", "&lt;i&gt;", "&lt;br/&gt;", "&amp;apos;",
        "&lt;!-- x --&gt;", "&#x2028;", "&#34;", "&#39;"]
HREF = ["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#60;", "&#38;", "&#x26;", "&#X3C;", "&#x3c;", "&#233;", "&#xE9;", "&#160;", "&nbsp;",
        "&amp;lt;", "&amp;amp;", "&amp;#60;", "&#38;lt;", "&#38;amp;", "&amp;nbsp;", "&lt;i&gt;", "&lt;br&gt;", "&eacute;", "&copy;",
        "&euro;", "&hellip;", "&rarr;", "&mdash;", "&hearts;", "&unknown;", "&foo;", "AT&T", "a & b", "&", "&;", "x&y;", "&lt;P&gt;",
        "&amp;unknown;", "a;>b", "&#128512;", "&#8217;", "5 < 6", "<3", "&#34;", "&#39;", "\"", "'", ">"]
VREF = ["&amp;", "&lt;", "&gt;", "&lrm;", "&rlm;", "&nbsp;", "&amp;lt;", "&amp;amp;", "&amp;gt;", "&lt;i&gt;", "&amp;nbsp;", "&lt;v Bob&gt;",
        "&amp;lrm;", "&", "a & b", "AT&T", "&foo;", "&;", ">", "a > b", "&quot;", "&apos;", "&#39;", "&#38;lt;", "&#x41;", "&eacute;", "&copy;",
        "&amp;#60;", "&#60;b&#62;", "{x}", "'", "\""]
PLAIN = ["<i>", "</b>", "&amp;", "&lt;", "<", ">", "&", "-->x"[3:], "{y:i}", "[x]", "''", "\"", "<br>", "&#60;", "\u2028", "\x85", "\x0c",
         "<font color=red>", "\\N", "♪"]


def word(r, refs, p=.45):
    if r.random() < p:
        w = r.choice(refs)
        return w if r.random() < .6 else r.choice(["a", "Z", "é"]) + w + r.choice(["b", "", "9"])
    return r.choice(WORDS)


def wrap(r):
    return r.choice([" ", " ", " ", " ", "\n", "\n      ", " \n ", "\r\n\t", "  "])


def run(r, refs, lo=1, hi=4):
    return "".join(word(r, refs) + (wrap(r) if i else "") for i in reversed(range(r.randint(lo, hi))))


def brs(r, kinds):
    return r.choice(["", "", "\n", "\n    "]) + r.choice(kinds) + r.choice(["", "", "\n", "\n      "])


def dfxp_body(r):
    def text():
        t = run(r, XREF)
        k = r.random()
        if k < .08:
            t += r.choice(["<![CDATA[a < b & c]]>", "<![CDATA[&lt;x&apos;]]>", "<![CDATA[<i>]]>"])
        elif k < .16:
            t += r.choice(["<!-- comment -->", "<!-- <p>no</p> -->", "<?pi text?>"])
        return t

    def item(depth):
        k = r.random()
        if depth < 2 and k < .35:
            a = r.choice(["tts:fontStyle=\"italic\"", "tts:fontWeight=\"bold\"", "tts:color=\"red\"", "style=\"s1\"",
                          "tts:textDecoration=\"underline\"", "xml:lang=\"en\"", ""])
            return f"<span {a}>" + r.choice(["", "", "\n    "]) + seq(depth + 1) + r.choice(["", "", " ", "\n   "]) + "</span>"
        return text()

    def seq(depth):
        out = item(depth)
        for _ in range(r.choice([0, 1, 1, 2])):
            out += (brs(r, ["<br/>", "<br/>", "<br />", "<br></br>"]) if r.random() < .5 else r.choice(["", " ", "\n   "])) + item(depth)
        return out
    return r.choice(["", "", "\n    ", " "]) + seq(0) + r.choice(["", "", "\n   ", " "])


def sami_body(r):
    def text():
        t = run(r, HREF)
        if r.random() < .06:
            t += "<!-- comment -->"
        return t

    def item(depth):
        k = r.random()
        if depth < 2 and k < .35:
            o, c = r.choice([("i", "i"), ("b", "b"), ("u", "u"), ("I", "I"), ("span style=\"color:red\"", "span"),
                             ("font color=\"#fff\"", "font"), ("span class='x'", "span"), ("span title=\"a &quot;b&quot; &lt;\"", "span"),
                             ("SPAN STYLE='font-style:italic;'", "SPAN")])
            return f"<{o}>" + r.choice(["", "", "\n  "]) + seq(depth + 1) + r.choice(["", "", " ", "\n  "]) + f"</{c}>"
        return text()

    used = []

    def seq(depth):
        out = item(depth)
        for _ in range(r.choice([0, 1, 1, 2])):
            out += (brs(r, ["<br>", "<BR>", "<br/>", "<Br />"]) if r.random() < .5 else r.choice(["", " ", "\n  "])) + item(depth)
        return out
    del used
    return r.choice(["", "", "\n  ", " "]) + seq(0) + r.choice(["", "", "\n"])


def vtt_lines(r):
    def text():
        return " ".join(word(r, VREF) for _ in range(r.randint(1, 3)))

    def item(depth):
        k = r.random()
        if depth < 2 and k < .5:
            o, c = r.choice([("i", "i"), ("b", "b"), ("u", "u"), ("c", "c"), ("c.yellow.bg_blue", "c"), ("i.foo", "i"), ("b.loud x", "b"),
                             ("v Bob", "v"), ("v Esme Smith", "v"), ("v.first.loud Esme", "v"), ("v Tom &amp; Jerry", "v"), ("v.a-b Zoë", "v"),
                             ("v Dr. Who", "v"), ("v.x O'Neil, Jr. (off)", "v"), ("v (2: a/b) #3", "v"), ("v 3", "v"), ('v "Q" = _', "v"),
                             ("lang en", "lang"), ("lang es-419", "lang"), ("i.x An. note", "i"), ("ruby", "ruby"), ("c.a-b", "c"), ("u.x.y", "u")])
            body = seq(depth + 1)
            if o == "ruby":
                body += "<rt>" + text() + "</rt>"
            return f"<{o}>{body}</{c}>"
        if k < .62:
            return r.choice(["<car>", "</car>", "<img>", "<bold>", "<x>", "<vector>", "<B>", "<under>", "<rtx>", "<language>", "<br>", "<s>",
                             "<font color=red>", "<italic>", "<1>", "<ci>", "</ibis>", "<rubyx>"]) + text()
        if k < .7:
            return r.choice(["<00:00:05.000>", "<01:02:03.456>", "<05:06.789>", "<100:00:00.000>"]) + text()
        return text()

    def seq(depth):
        return r.choice(["", " "]).join(item(depth) for _ in range(r.choice([1, 1, 2])))
    out = []
    for _ in range(r.randint(1, 3)):
        ln = seq(0)
        if r.random() < .05:
            ln += r.choice(["a\u2028b", "x\x85y"])
        out.append(ln.replace("-->", "- ->"))
    if r.random() < .15 and len(out) > 1:
        out[0], out[-1] = "<i>" + out[0], out[-1] + "</i>"
    return out


def plain_lines(r, pipe=True):
    out = []
    for _ in range(r.randint(1, 3)):
        ln = " ".join(r.choice(PLAIN) if r.random() < .4 else r.choice(WORDS) for _ in range(r.randint(1, 4)))
        if not ln.strip():
            ln = "x"
        out.append(ln if pipe else ln.replace("|", "!"))
    return out
