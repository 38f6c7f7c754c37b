"""Generator of caption sets built through the public API."""
import random

import docs
from docs import words

LANGS = ["en-US", "fr", "es-419", "de", "pt-BR", "en", "zh-Hant", "und"]
#: for sets of many languages
MORE = LANGS + ["it", "nl", "pl", "sv", "da", "ja", "ko", "ar", "he", "ru", "fr-CA", "en-GB"]
DAY = 86400 * 10 ** 6
EDGES = [0, 1, 999, 1000, 39999, 40000, 999000, 999999, 10 ** 6, 59999999, 60 * 10 ** 6, 3599999999, 3600 * 10 ** 6,
         86399 * 10 ** 6, 12345678901, 35999999 * 1000, 61 * 10 ** 6 + 1, 43199999999, 43200 * 10 ** 6, 50000123456, 80000 * 10 ** 6]


def times(r, n, mode):
    """n (start, end) pairs in microseconds, 0 <= start <= end < 24 h."""
    out = []
    if mode == "any":
        for _ in range(n):
            a = min(r.choice(EDGES) + r.choice([0, 0, 1, 7, 1000, 33367, r.randrange(10 ** 9)]), DAY - 1)
            b = min(a + r.choice([0, 1, 999, 1000, 40000, 2 * 10 ** 6, 3600 * 10 ** 6, r.randrange(10 ** 10)]), DAY - 1)
            out.append((a, b))
    else:
        t = r.choice(EDGES + [0, 0])
        t = min(t, DAY - 3 * 10 ** 9)
        for _ in range(n):
            a = t
            b = a + r.choice([1, 500, 1000, 40000, 500000, 10 ** 6, 1234567, 2 * 10 ** 6, 61 * 10 ** 6]
                             + ([0] if mode != "positive" else []))
            out.append((a, b))
            t = b + r.choice([0, 0, 0, 1, 999, 1000, 10 ** 6, 3 * 10 ** 6, 7654321])
    # runs of concurrent captions
    res = []
    for p in out:
        k = r.choice([1, 1, 1, 1, 1, 2, 2, 3])
        res += [p] * k
    res = res[:max(n, 1)]
    return res


def tofloat(r, ps):
    """Some times as floats, never within a microsecond below a millisecond."""
    def f(t, k):
        if t % 1000 >= 998:
            return t
        return t + k / 3
    out = []
    for a, b in ps:
        if r.random() < .5:
            a2, b2 = f(a, 1), f(b, 2)
            if a2 <= b2:
                out.append((a2, b2))
                continue
        out.append((a, b))
    return out


def layout(r, pct=True):
    from pycaption.geometry import (Alignment, HorizontalAlignmentEnum as H, Layout, Padding, Point, Size, Stretch,
                                    UnitEnum, VerticalAlignmentEnum as V)
    def sz(lo=0, hi=100):
        v = r.choice([r.randrange(lo, hi), r.randrange(lo, hi), round(r.uniform(lo, hi), 2)])
        return Size(v, UnitEnum.PERCENT)
    o = e = pad = al = None
    if r.random() < .7:
        o = Point(sz(1, 60), sz(1, 60))
    if r.random() < .5:
        e = Stretch(sz(10, 39), sz(5, 35))
    if r.random() < .3:
        pad = Padding(sz(0, 9), sz(0, 9), sz(0, 9), sz(0, 9))
    if r.random() < .6 or not (o or e or pad):
        al = Alignment(r.choice([H.LEFT, H.CENTER, H.RIGHT, H.START, H.END]), r.choice([V.TOP, V.CENTER, V.BOTTOM]))
    return Layout(o, e, pad, al)


STYLE = [{"italics": True}, {"bold": True}, {"underline": True}, {"italics": True, "bold": True},
         {"color": "red"}, {"font-family": "Arial"}, {"font-size": "10px"}, {"italics": True, "color": "#ff0000"},
         {"bold": True, "underline": True}]


def nodes(r, lines, styled=False, layouts=(), spans=STYLE, maxsplit=3):
    """Caption nodes showing the given lines; spans do not nest."""
    from pycaption.base import CaptionNode as N
    out = []
    lay = r.choice(layouts) if layouts else None
    opened = None
    for i, ln in enumerate(lines):
        if i:
            out.append(N.create_break(layout_info=lay))
            if layouts and r.random() < .3:
                lay = r.choice(layouts)
        pieces = [ln]
        if len(ln) > 2 and r.random() < (.5 if styled or maxsplit > 1 else 0) and maxsplit > 1:
            ks = sorted(r.sample(range(1, len(ln)), min(r.choice([1, 1, 1, 2, 3]), len(ln) - 1)))
            pieces = [ln[a:b] for a, b in zip([0] + ks, ks + [len(ln)])]
        for pc in pieces:
            if styled and opened is None and r.random() < .4:
                opened = dict(r.choice(spans))
                out.append(N.create_style(True, opened, layout_info=lay))
            out.append(N.create_text(pc, layout_info=lay))
            if opened is not None and r.random() < .6:
                out.append(N.create_style(False, dict(opened), layout_info=lay))
                opened = None
    if opened is not None:
        out.append(N.create_style(False, dict(opened), layout_info=lay))
    return out


def capset(r, nlang=(1, 3), ncap=(1, 4), mode="any", floats=False, textfn=None, styled=.3, layouts=.3, langs=None,
           capstyle=.2, maxsplit=1, empty_lang=.05):
    from pycaption.base import Caption, CaptionList, CaptionSet
    many = docs.SIZE and not langs and nlang[1] > 1 and r.random() < .3    # many languages of few captions each
    ls = list(langs or (MORE if many else LANGS))
    r.shuffle(ls)
    d = {}
    tok = [0]
    pool = [layout(r) for _ in range(2)] if r.random() < layouts else []

    def text():
        if textfn:
            return textfn()
        out = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            tok[0] += 1
            out.append(f"w{tok[0]} " + words(r, 0, 2) if r.random() < .6 else f"w{tok[0]}")
        return [x.strip() for x in out]
    nl = r.randint(9, 15) if many else r.randint(*nlang)
    for li, lg in enumerate(ls[:nl]):
        n = r.randint(*ncap) if many else docs.count(r, range(ncap[0], ncap[1] + 1))
        if li and r.random() < empty_lang:
            n = 0
        ps = times(r, n, mode)[:n]
        if floats:
            ps = tofloat(r, ps)
        cl = CaptionList(layout_info=r.choice(pool) if pool and r.random() < .4 else None)
        for a, b in ps:
            st = dict(r.choice(STYLE)) if r.random() < capstyle else {}
            cl.append(Caption(a, b, nodes(r, text(), r.random() < styled, pool if r.random() < .7 else (),
                                          maxsplit=maxsplit),
                              style=st, layout_info=r.choice(pool) if pool and r.random() < .5 else None))
        d[lg] = cl
    return CaptionSet(d, styles={})
