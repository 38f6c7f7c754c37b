"""Pop-on programs as SCC documents, and what the reader makes of a document."""
import sccgen as g
from core import cps, inst, run_op

CH = {c for c in range(0x20, 0x80)}


class Mix:
    """Some codes single, some doubled; those that start a caption mode are doubled."""

    def __init__(self, r):
        self.r = r


def times(k, start=False):
    return k if isinstance(k, int) else 2 if start else k.r.choice([1, 2])


def ctl(a, name, k):
    a.code(g.CTL[name], times(k, name in ("RCL", "RU2", "RU3", "RU4", "RDC")))


def unit(a, pac, tab, k):
    """A preamble with its tab offset; doubled as a unit."""
    for _ in range(times(k)):
        a.code(pac)
        if tab:
            a.code(g.tab(tab))


class Lines(g.Words):
    """Words, possibly spread over several time-coded lines."""

    def __init__(self, split=0):
        super().__init__()
        self.lines, self.split = [], split

    def line(self, r, k):
        self.flush()
        self.lines.append(self.w)
        self.w = []
        if r.random() < .5:
            ctl(self, "RCL", k)

    def nul(self, r):
        self.flush()
        self.w += [g.NUL] * r.choice([1, 1, 2])


class Row:
    """Writes one row's instructions, keeping inside 32 columns."""

    def __init__(self, a, k, r, pool=None):
        self.a, self.k, self.r, self.n, self.pool = a, k, r, 0, pool or g.LETTERS

    def ch(self, c=None):
        self.a.ch(ord(self.r.choice(self.pool)) if c is None else c)

    def special(self, i=None):
        r = self.r
        i = r.choice([x for x in range(16) if x != 9]) if i is None else i
        w = g.special(i)
        if self.a.w and self.a.half is None and self.a.w[-1] == w and self.k != 2:
            self.ch()
            self.a.flush()
        self.a.code(w, times(self.k))

    def ext(self, s=None, i=None, stand=None):
        if stand is None and self.r.random() < .15:
            self.special()
        else:
            self.ch(stand)
        self.a.code(g.ext(self.r.randrange(2) if s is None else s, self.r.randrange(32) if i is None else i), times(self.k))

    def bs(self):
        self.a.code(g.CTL["BS"], times(self.k))

    def mid(self, italics, underline=False, color=0):
        self.a.code(g.midrow(italics, underline, color), times(self.k))


def rows_from(seq, r, k, a, ascending=True):
    """Instruction codes of GenPopOn, from a row high enough on the screen."""
    need = sum({1: 1, 2: 1, 3: 2, 4: 2}.get(c, 0) for c in seq[1:])
    row = r.randint(1, 15 - need)
    first, rw, i = True, None, 0
    while i < len(seq):
        c = seq[i]
        if c in (1, 2, 3, 4):
            if not first:
                row += 1 if c in (1, 2) else 2
            first = False
            ital = c in (2, 4)
            tab = 0
            if i + 1 < len(seq) and seq[i + 1] == 5:
                tab = r.randint(1, 3)
                i += 1
            a.flush()
            unit(a, g.pac(row, 0 if ital else r.choice([0, 0, 4, 8, 12, 16]), italics=ital, underline=r.random() < .15), tab, k)
            rw = Row(a, k, r)
        elif c == 6:
            rw.ch()
            rw.ch()
        elif c == 7:
            rw.ch()
        elif c == 8:
            rw.ch(0x20)
        elif c == 9:
            rw.special()
        elif c == 10:
            rw.ext()
        elif c == 11:
            rw.bs()
        elif c in (12, 13):
            rw.mid(c == 12, underline=r.random() < .15)
        i += 1


def content(r, k, a, room, most=14):
    """Characters of a row from here on: every kind of instruction."""
    rw = Row(a, k, r)
    n, can, last = 0, 0, "pac"
    if room > 1 and r.random() < .2:
        rw.mid(r.random() < .6, r.random() < .2, r.choice([0, 0, 0, 1, 5]))
        room -= 1
        last = "mid"
    want = r.randint(1, min(most, room)) if room > 1 else 1
    while n < want and room > 0:
        if getattr(a, "split", 0) and r.random() < .05 and last != "pac":     # the row goes on in the next line
            a.flush()
            a.lines.append(a.w)
            a.w = []
        x = r.random()
        if x < .6:
            rw.ch(r.choice([None, None, None, r.choice(g.BASIC[1:])]))
            can, n, room, last = can + 1, n + 1, room - 1, "chr"
        elif x < .72 and last not in ("space", "pac") and n < want - 1 and room > 1:
            rw.ch(0x20)
            room, last, n, can = room - 1, "space", n + 1, can + 1
        elif x < .79:
            rw.special()
            can, n, room, last = can + 1, n + 1, room - 1, "chr"
        elif x < .87:
            rw.ext()
            can, n, room, last = can + 1, n + 1, room - 1, "chr"
        elif x < .92 and last in ("chr", "space") + (("bs",) if k == 2 else ()) and can > 1 and n > 1:
            rw.bs()
            can, n, room, last = can - 1, n - 1, room + 1, "bs"
        elif x < .93:
            a.nul(r)
        elif last in ("chr", "space", "bs") and room > 1:
            rw.mid(r.random() < .5, r.random() < .2, r.choice([0, 0, 0, 3]))
            can, room, last = 0, room - 1, "mid"
    if last not in ("chr", "bs"):
        rw.ch()
    a.flush()


def load(r, k, body, a=None, enm="rcl", edm=None):
    a = a or g.Words()
    if enm == "before":
        ctl(a, "ENM", k)
    ctl(a, "RCL", k)
    if enm == "rcl":
        ctl(a, "ENM", k)
    body(a)
    a.flush()
    if edm:
        ctl(a, "EDM", k)
    ctl(a, "EOC", k)
    return a


# ---------------------------------------------------------------- projection
def lay(l):
    if l is None or l.origin is None or l.origin.x.unit.value != "%" or l.origin.y.unit.value != "%":
        return {"ok": False, "x": 0, "y": 0}
    return {"ok": True, "x": round(l.origin.x.value * 1000), "y": round(l.origin.y.value * 1000)}


def node(n):
    from pycaption.base import CaptionNode as N
    if n.type_ == N.TEXT:
        return {"k": "t", "c": cps(n.content), "lay": lay(n.layout_info)}
    if n.type_ == N.BREAK:
        return {"k": "b", "c": [], "lay": lay(n.layout_info)}
    if n.type_ == N.STYLE and isinstance(n.content, dict) and n.content.get("italics"):
        return {"k": "o" if n.start else "c", "c": [], "lay": lay(n.layout_info)}
    return {"k": "?", "c": [], "lay": lay(n.layout_info)}


def read(doc, cut=300, **kw):
    """[ok, exc, msg, caps] of reading the document with a fresh reader."""
    from pycaption import SCCReader

    def go():
        cs = SCCReader().read(doc, **kw)
        return [{"s": inst(c.start), "e": inst(c.end), "lay": lay(c.layout_info), "nodes": [node(n) for n in c.nodes]}
                for c in cs.get_captions(kw.get("lang", "en-US"))]
    ok, v = run_op(go, cut=cut)
    return {"ok": ok, "exc": "" if ok else v["exc"], "caps": v if ok else [], "msg": [] if ok else v["msg"]}
