"""Hostile text: lines of printable Unicode that look like markup of any format."""
ATOMS = ["&", "<", ">", "\"", "'", "-->", "--", "->", "<i>", "</i>", "<b>x</b>", "&amp;", "&lt;", "&#60;", "&#x3C;", "&nbsp;",
         "&copy;", "&amp;lt;", "&lt", "&#38;", "]]>", "<!--", "<![CDATA[", "<br/>", "<br>", "</p>", "</tt>", "</sami>",
         "<p begin=\"1s\">", "<v Bob>", "<c.red>", "<00:00:01.000>", "WEBVTT", "NOTE", "NOTE x", "STYLE", "1", "42",
         "00:00:01,000 --> 00:00:02,000", "00:01.000 --> 00:02.000", "{1}{2}", "{0}{0}25", "{y:i}", "<sync start=5>",
         "<?xml ?>", "&apos;", "&quot;", "&unknown;", "&;", "&#;", ";>", "<i/>", "</", "<", "<>", "< ", "a<b", "x&y",
         "#", "%", "\\N", "{", "}", "[", "]", "=", "/", "\\", ";", ":", "{{", "$", "\\1", "\\g<0>", "%s", "{}",
         "é", "日本", "𝄞", "ß", "\u0300", "Ω", "«", "»", "…", "’", "ﬁ", "א", "ع", "😀", "\ufffd", "Scenarist_SCC V1.0"]

#: share of very long lines
LONG = .004


def cp(r):
    while True:
        k = r.random()
        c = chr(r.randrange(32, 127) if k < .4 else r.randrange(160, 0x3000) if k < .7 else r.randrange(0x3000, 0x11000)
                if k < .85 else r.randrange(0x10000, 0x20000))
        if c.isprintable():
            return c


def line(r, atoms=ATOMS, maxn=4):
    n = r.choice([1, 1, 2, 3, maxn]) if r.random() > LONG else r.choice([30, 80, 250])
    out = []
    for _ in range(n):
        out.append(r.choice(atoms) if r.random() < .75 else "".join(cp(r) for _ in range(r.randint(1, 4))))
    s = r.choice(["", "", " "]).join(out)
    if r.random() < .1:
        s = " " + s
    if r.random() < .1:
        s += "  "
    return s


def lines(r, pipe=True, blanks=True, **kw):
    out = [line(r, **kw) for _ in range(r.choice([1, 1, 2, 2, 3]))]
    if blanks:
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            out.insert(r.randrange(len(out) + 1), r.choice(["", "", " ", "  "]))
    if not pipe:
        out = [x.replace("|", "/") for x in out]
    return out
