"""C05 - SCC pop-on decoding reproduces the CEA-608 screen."""
import random

import sccgen as g
import sccprog as P
from core import Check, cps


def timeline(r, loads, drop):
    """Loads (word lists) at feasible times."""
    lines, f = [], r.choice([0, 30, 900, 107000])
    for ws, clear in loads:
        f += r.choice([0, 1, 12, 45])
        for w in ws:
            lines.append((f, w))
            f += len(w) + r.choice([0, 0, 1, 20])
        f += r.choice([2, 10, 40])
        if clear:
            lines.append((f, clear))
            f += len(clear) + r.choice([0, 3, 20])
    return g.doc(lines, drop)


def render(scn):
    """The document of a scenario."""
    r = random.Random(scn["seed"])
    k = scn.get("k") or r.choice([1, 1, 2, 2, P.Mix(r)])
    loads, shown, dirty = [], False, False     # text on display; text left in the non-displayed memory
    for b in scn["bodies"]:
        enm = r.choice(["rcl", "before"]) if dirty else r.choice(["rcl", "before", "none"])
        if b[0] == "seq":
            body = lambda a: P.rows_from(b[1], r, k, a)
        elif b[0] == "cell":      # one preamble, tab and text
            def body(a):
                P.unit(a, g.pac(b[1], b[2], italics=b[4], underline=b[5], color=b[6]), b[3], k)
                a.ch(0x41)
                a.ch(0x42)
        elif b[0] == "char":
            def body(a):
                P.unit(a, g.pac(b[3], 4), 0, k)
                rw = P.Row(a, k, r)
                rw.ch(0x41)
                if b[1] == "basic":
                    rw.ch(b[2])
                elif b[1] == "special":
                    rw.special(b[2])
                elif b[1] == "two":     # twice the same special
                    rw.special(b[2])
                    if k != 2:
                        rw.ch(0x2d)
                        a.flush()
                    rw.special(b[2])
                else:
                    rw.ext(b[1] == "ext2", b[2], b[4])
                rw.ch(0x7a)
        else:
            body = lambda a: free(random.Random(b[1]), k, a)
        edm = r.random() < .5
        a = P.load(r, k, body, P.Lines(r.choice([0, 0, .3])), enm=enm, edm=edm)
        dirty = shown and not edm
        clear = [g.CTL["EDM"]] * P.times(k) if r.random() < .5 else None
        shown = not clear
        loads.append((a.lines + [a.w], clear))
    doc = timeline(r, loads, scn.get("drop", r.random() < .4))
    return g.spell(r, doc)


def free(r, k, a):
    """A random load: rows top to bottom, every kind of instruction."""
    rows = sorted(r.sample(range(1, 16), r.choice([1, 1, 2, 2, 3, 4])))
    if r.random() < .08:
        r.shuffle(rows)     # not top to bottom
    elif r.random() < .5:
        top = r.randint(1, 15 - len(rows) + 1)
        rows = [top + i for i in range(len(rows))]
    for x, row in enumerate(rows):
        if x and r.random() < a.split:
            a.line(r, k)
        elif r.random() < .1:
            a.nul(r)
        ital = r.random() < .25
        ind = 0 if ital else r.choice([0, 0, 4, 8, 12, 16, 20, 24, 28])
        tab = r.choice([0, 0, 0, 1, 2, 3])
        P.unit(a, g.pac(row, ind, italics=ital, underline=r.random() < .1, color=r.choice([0, 0, 0, 1, 2, 6]) if not ind else 0), tab, k)
        if r.random() < .1:
            a.nul(r)
        P.content(r, k, a, 31 - ind - tab)


class C05(Check):
    prop = "C05"
    assumptions = [
        "well-formed: rows addressed once each, with text (consecutive rows that are not sent top to bottom are separate captions); control codes single, doubled, or - the ones that start a load doubled - mixed "
        "(a preamble and its tab offset as a unit); identical codes do not follow each other where they are not all doubled; "
        "an extended character has a stand-in; a backspace erases a character of the row",
        "the blank of a mid-row code is compared as white space: runs containing one may have any positive length, none before .,!?; "
        "blanks at the end of a row are not visible"]

    def model_check(self):
        self.mc("MC_Cea608", "MC_Cea608", "MC_Cea608Deep.cfg" if self.thorough else "MC_Cea608.cfg")
        self.seqs = self.generate("GenPopOn", "GenPopOnDeep" if self.thorough else None)

    def scenarios(self):
        rng, out = self.rng, []
        self.notes["alphabet_programs"] = len(self.seqs)

        def add(bodies, **kw):
            out.append(dict({"bodies": bodies, "seed": f"C05-{self.seed}-{len(out)}"}, **kw))

        def batched(bs, n, **kw):
            for i in range(0, len(bs), n):
                add(bs[i:i + n], **kw)
        seqs = self.seqs if len(self.seqs) < self.n(4000, 120000) else rng.sample(self.seqs, self.n(4000, 120000))
        rng.shuffle(seqs)
        batched([["seq", list(s)] for s in seqs], 4)
        # every cursor address, every tab offset, every kind of preamble
        cells = [["cell", row, ind, tab, False, ul, 0] for row in range(1, 16) for ind in range(0, 32, 4) for tab in range(4) for ul in (False, True)
                 if ind + tab < 30]
        cells += [["cell", row, 0, tab, it, ul, col] for row in range(1, 16) for tab in range(4) for ul in (False, True)
                  for it, col in [(True, 0)] + [(False, c) for c in range(1, 7)]]
        rng.shuffle(cells)
        batched(cells[:len(cells) if self.thorough else 100000], 6)
        # every character
        chars = [["char", "basic", c, rng.randint(1, 15), 0] for c in range(0x20, 0x80)]
        chars += [["char", kind, i, rng.randint(1, 15), 0] for i in range(16) for kind in ("special", "two")]
        for kind in ("ext1", "ext2"):
            for i in range(32):
                stands = rng.sample(range(0x21, 0x80), self.n(4, 94))
                chars += [["char", kind, i, rng.randint(1, 15), st] for st in stands]
        for k in (1, 2):
            rng.shuffle(chars)
            batched(chars, 6, k=k)
        for s in self.big(24, 400, (8, 15, 25)):
            out.append(dict(s, bodies=[["free", f"{s['seed']}-{j}"] if rng.random() < .7 else ["seq", list(rng.choice(self.seqs))] for j in range(s["big"])]))
        for i in range(self.n(700, 12000)):
            add([["free", f"C05f-{self.seed}-{i}-{j}"] for j in range(rng.choice([1, 1, 2, 3]))])
        return out

    @staticmethod
    def execute(scn):
        doc = render(scn)
        return dict({"doc": cps(doc), "scn": scn}, **P.read(doc))
