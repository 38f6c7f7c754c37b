"""Generator of SCC streams.  Only produces inputs: what a stream shows is decided
by the TLA+ CEA-608 decoder.  Code words are built from the standard's bit layout,
not from pycaption's tables."""
import random

HEADER = "Scenarist_SCC V1.0"
# first byte and high bit of the second byte for the preamble address codes of each row
PAC = {1: (0x11, 0x40), 2: (0x11, 0x60), 3: (0x12, 0x40), 4: (0x12, 0x60), 5: (0x15, 0x40), 6: (0x15, 0x60), 7: (0x16, 0x40),
       8: (0x16, 0x60), 9: (0x17, 0x40), 10: (0x17, 0x60), 11: (0x10, 0x40), 12: (0x13, 0x40), 13: (0x13, 0x60),
       14: (0x14, 0x40), 15: (0x14, 0x60)}


def par(b):
    return b | 0x80 if bin(b & 0x7f).count("1") % 2 == 0 else b & 0x7f


def W(a, b):
    return f"{par(a):02x}{par(b):02x}"


CTL = {k: W(0x14, v) for k, v in {"RCL": 0x20, "BS": 0x21, "DER": 0x24, "RU2": 0x25, "RU3": 0x26, "RU4": 0x27, "RDC": 0x29,
                                  "EDM": 0x2C, "CR": 0x2D, "ENM": 0x2E, "EOC": 0x2F}.items()}
NUL = W(0, 0)


def pac(row, indent=0, italics=False, underline=False, color=0):
    hi, lo = PAC[row]
    if italics:
        v = 0x0E
    elif indent:
        v = 0x10 + 2 * (indent // 4)
    else:
        v = 2 * color
    return W(hi, lo + v + (1 if underline else 0))


def tab(n):
    return W(0x17, 0x20 + n)


def midrow(italics=False, underline=False, color=0):
    return W(0x11, 0x20 + (0x0E if italics else 2 * color) + (1 if underline else 0))


def special(i):
    return W(0x11, 0x30 + i)


def ext(s, i):
    return W(0x12 + s, 0x20 + i)


BASIC = [c for c in range(0x20, 0x80)]
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def basic_char(r):
    return ord(r.choice(LETTERS)) if r.random() < .8 else r.choice(BASIC)


class Words:
    """Accumulates code words, pairing basic characters two to a word."""

    def __init__(self):
        self.w, self.half = [], None

    def ch(self, c):
        if self.half is None:
            self.half = c
        else:
            self.w.append(W(self.half, c))
            self.half = None

    def flush(self):
        if self.half is not None:
            self.w.append(W(self.half, 0))
            self.half = None

    def code(self, word, n=1):
        self.flush()
        self.w += [word] * n


def stamp(frames, drop=False):
    """Time code of a frame count (30 labels a second, no labels dropped)."""
    f = frames % 30
    s = frames // 30
    return f"{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}{';' if drop else ':'}{f:02d}"


def doc(lines, drop=False, nl="\n"):
    """lines: (frame count, [words])"""
    out = [HEADER, ""]
    for fr, ws, *kind in lines:
        out += [f"{stamp(fr, kind[0] if kind else drop)}\t{' '.join(ws)}", ""]
    return nl.join(out)


def spell(r, text):
    """The same document, spelled otherwise."""
    if r.random() < .7:
        return text
    head, *lines = text.split("\n")
    lines = [ln for ln in lines if ln.strip()]
    sep, end, blank = r.choice(["\t", "\t", " ", "\t ", "  "]), r.choice(["", "", " ", "  ", "\t"]), r.choice([[], [""], [""], ["", ""], [" "]])
    out = [head] + blank
    for ln in lines:
        out += [ln.replace("\t", sep, 1) + end] + blank
        if r.random() < .05:
            out[-1 - len(blank)] = "  ".join(out[-1 - len(blank)].split(" "))
    if r.random() < .2:
        out = [head] + [ln.upper() for ln in out[1:]]
    return r.choice(["\n", "\n", "\r\n"]).join(out) + r.choice(["", "\n", "\n\n"])


def plain_words(r, width=28, lo=1, hi=5):
    out = ""
    for _ in range(r.randint(lo, hi)):
        w = "".join(r.choice(LETTERS) for _ in range(r.randint(1, 8)))
        if len(out) + 1 + len(w) > width:
            break
        out += (" " if out else "") + w
    return out or "x"


def simple_doc(r):
    """A plain pop-on document."""
    lines, f = [], r.choice([30, 300, 108000])
    for _ in range(r.randint(1, 3)):
        k = r.choice([1, 2, 2])
        a = Words()
        a.code(CTL["ENM"], k)
        a.code(CTL["RCL"], k)
        rows = sorted(r.sample(range(1, 16), r.choice([1, 1, 2])))
        if len(rows) == 2 and r.random() < .6:
            rows[1] = min(15, rows[0] + 1)
            rows[0] = rows[1] - 1
        for row in rows:
            a.code(pac(row, r.choice([0, 4, 8]) , italics=r.random() < .2), k)
            if r.random() < .2:
                a.code(midrow(italics=True), k)
            for c in plain_words(r, 20):
                a.ch(ord(c))
        a.code(CTL["EDM"], k)
        a.code(CTL["EOC"], k)
        lines.append((f, a.w))
        f += len(a.w) + r.choice([30, 90])
        if r.random() < .5:
            lines.append((f, [CTL["EDM"]] * k))
            f += 30
    return doc(lines)
