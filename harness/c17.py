"""C17 - SCC output is structurally valid and re-reads to the same words."""
import random
import textwrap

from core import Check, cps, inst, run_op

FRAME = 1001000 / 30
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
# the basic characters of CEA-608, but the space
BASIC = "!\"#$%&'()\u00e1+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\u00e9]\u00ed\u00f3\u00faabcdefghijklmnopqrstuvwxyz\u00e7\u00f7\u00d1\u00f1\u2588"


def wrap(text):
    """Rows of a line, filled in order; words longer than a row fill what is left of one."""
    return textwrap.wrap(text, 32, break_on_hyphens=False) or [""]


def words_needed(text):
    rows = [r for ln in text.split("\n") for r in wrap(ln)]
    return 8 + sum(2 + (len(r) + 1) // 2 for r in rows), len(rows)


def word(r, n, odd):
    out = [r.choice(LETTERS if r.random() < .7 else BASIC) for _ in range(n)]
    if odd:
        for i in range(n):
            if r.random() < .25:
                out[i] = r.choice("--'.,!?\u00e1\u00f1\u2588\u00f7")
    if n == 1 and out[0] == "\n":
        out = ["x"]
    return "".join(out)


def text_of(r, lens):
    """Words of the lengths; 0 breaks the line."""
    out, odd = "", r.random() < .5
    for n in lens:
        if n == 0:
            out += "\n"
        else:
            sp = " " * (1 if r.random() < .95 else r.choice([2, 3]))
            out += ("" if not out or out.endswith("\n") else sp) + word(r, n, odd)
    return out


def build(scn):
    """[start, end, text] of each caption."""
    r = random.Random(scn["seed"])
    caps, prev = [], None
    for lens, gap in scn["caps"]:
        text = text_of(r, lens)
        need, rows = words_needed(text)
        if rows > 15 or any(len(x) > 80 for x in text.split("\n")):
            return None
        if prev is None:
            start = scn["at"] + need * FRAME
        else:
            start = caps[-1][0] + (need + gap) * FRAME
        start = int(start) + 1 if r.random() < .8 else (int(start) // 1000 + 1) * 1000
        caps.append([start, None, text])
        prev = start
    for i, c in enumerate(caps):
        nxt = caps[i + 1][0] if i + 1 < len(caps) else c[0] + 5000000
        kind = r.random()
        if kind < .4:
            c[1] = nxt
        elif kind < .6:
            c[1] = c[0] + max(60000, int((nxt - c[0]) * r.random()))
        elif kind < .8:     # around where the next caption's code begins
            need = words_needed(caps[i + 1][2])[0] if i + 1 < len(caps) else 30
            c[1] = max(c[0] + 60000, int(nxt - (need + r.choice([0, 1, 2, 3, 4, 5, 6])) * FRAME) + r.choice([-1, 0, 1, 15000]))
        else:
            c[1] = c[0] + r.choice([60000, 100000, 1000000])
        c[1] = max(c[0] + 60000, min(c[1], nxt)) if nxt - c[0] > 60000 else nxt
    return caps


class C17(Check):
    prop = "C17"
    assumptions = [
        "texts of basic characters that take at most 15 rows, each caption with some; starts leave the time to send the caption's words, one a frame, after the caption before is complete (after time zero for the first); durations of 60 ms at least",
        "words longer than a row are compared as the pieces they are split into",
        "three frames: to 10 microseconds; a line of words is sent when the words before are"]

    def model_check(self):
        self.lens = self.generate("GenWrap", "GenWrapDeep" if self.thorough else None)

    def scenarios(self):
        rng, out = self.rng, []

        def fit(lens):
            """Line breaks where a line would go past 80 characters."""
            lens, size = list(lens), -1
            for i, n in enumerate(lens):
                size = -1 if n == 0 else size + 1 + n
                if size > 80:
                    return fit(lens[:i] + [0] + lens[i:])
            return lens

        def add(caps):
            caps = [[fit(c[0]), c[1]] for c in caps]
            at = rng.choice([0, 0, 1000000, 59000000, 3599000000, 35999000000, rng.randrange(10 ** 7), rng.choice([40000, 71999, 86300, 90000, 200000]) * 10 ** 6])
            out.append({"caps": caps, "at": at, "seed": f"C17-{self.seed}-{len(out)}"})
        for s in (self.lens if len(self.lens) < self.n(2600, 40000) else rng.sample(self.lens, self.n(2600, 40000))):
            add([[s, 0]])
        gaps = [0, 0, 1, 2, 3, 4, 5, 6, 30, 300]
        for _ in range(self.n(1200, 15000)):
            add([[rng.choice(self.lens), rng.choice(gaps)] for _ in range(rng.choice([2, 2, 3]))])
        for i in range(self.n(1000, 15000)):
            caps = []
            for _ in range(rng.choice([1, 2, 3]) if i % 40 else rng.choice([8, 15, 25])):
                lens = []
                for i in range(rng.randint(1, 4)):
                    if i:
                        lens.append(0)
                    left = rng.randint(1, 80)
                    while left > 0:
                        n = min(left, rng.choice([1, 2, 3, 4, 5, 7, 10, 16, 40]))
                        lens.append(n)
                        left -= n + 1
                caps.append([lens, rng.choice(gaps)])
            add(caps)
        return out

    @staticmethod
    def execute(scn):
        from pycaption import SCCReader, SCCWriter
        from pycaption.base import Caption, CaptionList, CaptionNode, CaptionSet
        caps = build(scn)
        if caps is None:
            return None
        r = random.Random(scn["seed"] + "n")

        def go():
            cl = CaptionList()
            for s, e, text in caps:
                nodes = []
                for i, ln in enumerate(text.split("\n")):
                    if i:
                        nodes.append(CaptionNode.create_break())
                    if r.random() < .2:
                        nodes.append(CaptionNode.create_style(True, {"italics": True}))
                        nodes.append(CaptionNode.create_text(ln))
                        nodes.append(CaptionNode.create_style(False, {"italics": True}))
                    elif r.random() < .2:
                        k = r.randint(0, len(ln))
                        nodes += [CaptionNode.create_text(x) for x in (ln[:k], ln[k:]) if x]
                    else:
                        nodes.append(CaptionNode.create_text(ln))
                cl.append(Caption(s, e, nodes))
            return SCCWriter().write(CaptionSet({"en-US": cl}))
        ok, out = run_op(go)

        def back():
            cs = SCCReader().read(out)
            return [{"s": inst(c.start), "e": inst(c.end),
                     "text": cps("".join("\n" if n.type_ == CaptionNode.BREAK else n.content if n.type_ == CaptionNode.TEXT else "" for n in c.nodes))}
                    for c in cs.get_captions("en-US")]
        rok, rc = run_op(back) if ok else (False, {"exc": ""})
        return {"caps": [{"s": inst(s), "text": cps(t)} for s, e, t in caps], "ok": ok, "exc": "" if ok else out["exc"], "out": cps(out) if ok else [],
                "rok": rok, "rexc": "" if rok else rc["exc"], "rcaps": rc if rok else [], "scn": scn}
