"""C06 - SCC captions appear and disappear at the frames their commands are sent."""
import random

import sccgen as g
import sccprog as P
from core import Check, cps


def brief(r, k, i, a, edm=1, enm=True, lines=False):
    """A load of little text; edm: where an erase code is sent within it."""
    if edm == 3:
        P.ctl(a, "EDM", k)
    if enm == "before":
        P.ctl(a, "ENM", k)
    P.ctl(a, "RCL", k)
    if enm == "rcl":
        P.ctl(a, "ENM", k)
    row = r.randint(1, 10)
    for j in range(r.choice([1, 1, 1, 2])):
        if j and lines and r.random() < .5:
            a.line(r, k)
        P.unit(a, g.pac(row, r.choice([0, 4]), italics=r.random() < .1), r.choice([0, 0, 2]), k)
        if edm == 4 and not j:
            P.ctl(a, "EDM", k)
        for c in f"{'abcdefghijklmnop'[i % 16]}{j}" + "".join(r.choice(g.LETTERS) for _ in range(r.choice([0, 0, 1, 4, 13]))):
            a.ch(ord(c))
        a.flush()
        if r.random() < .25:       # characters of two bytes, and a code within the text
            rw = P.Row(a, k, r)
            for x in r.choices(["special", "ext", "bs", "mid", "ch"], k=r.choice([1, 1, 2])):
                if x == "bs":
                    rw.ch()
                if x == "mid":
                    rw.mid(False)
                    rw.ch()
                else:
                    getattr(rw, x)()
            a.flush()
        if r.random() < .1:
            a.nul(r)
        row += r.choice([1, 2])
    if edm == 2:
        P.ctl(a, "EDM", k)
    P.ctl(a, "EOC", k)


def render(scn):
    r = random.Random(scn["seed"])
    k = scn.get("k") or r.choice([1, 1, 2, 2, P.Mix(r)])
    drop = scn.get("drop", r.random() < .5)
    f = scn["at"]
    lines, shown, dirty = [], False, False
    sch = scn["schedule"]
    for i in range(0, len(sch), 3):
        edm, clear, idle = sch[i:i + 3]
        a = P.Lines()
        enm = r.choice(["rcl", "before"]) if dirty else r.choice(["rcl", "rcl", "before", "none"])
        brief(r, k, i // 3, a, edm, enm, lines=scn.get("split"))
        dirty = shown and edm == 1
        same = clear and r.random() < .4      # the clear in the line of the load itself, after padding
        if same:
            last = next(x for x in range(len(a.w) - 1, -1, -1) if a.w[x] != g.CTL["EOC"])
            eoc = last + 1
            a.w += [g.NUL] * max(0, eoc + clear - len(a.w))
            P.ctl(a, "EDM", k)
        for w in a.lines + [a.w]:
            lines.append((f, w))
            f0 = f
            f += len(w)
        if clear and not same:
            last = next(x for x in range(len(a.w) - 1, -1, -1) if a.w[x] != g.CTL["EOC"])
            at = max(f, f0 + last + 1 + clear)
            w = [g.CTL["EDM"]] * P.times(k)
            lines.append((at, w))
            f = at + len(w)
        shown = not clear
        if r.random() < .1 and not dirty:      # a load of nothing: end-of-caption as erase code
            w = [g.CTL["RCL"]] * P.times(k, True) + [g.CTL["ENM"]] * P.times(k)
            w += [g.CTL["EOC"]] * P.times(k)
            f += r.choice([0, 3])
            lines.append((f, w))
            f += len(w)
            dirty, shown = shown, False
        f += idle
    if scn.get("mixed"):        # time codes of both kinds
        out, end, late = [], 0, 0
        for f, w in lines:
            kind, f = r.random() < .5, f + late
            while True:
                lab = f if kind else -(-f * 1000 // 1001)
                t = lab * (1000 if kind else 1001)
                if t >= end:
                    break
                f, late = f + 1, late + 1
            end = t + len(w) * (1000 if kind else 1001)
            out.append((lab, w, kind))
        lines = out
    return g.spell(r, g.doc(lines, drop))


class C06(Check):
    prop = "C06"
    assumptions = [
        "a gap of exactly five frames may be closed or not; instants are compared to 2 microseconds",
        "a displayed duration under 0.05 s as sent, but not once the gap to the next caption is closed, may be rejected or not",
        "no caption ends before the offset; lines do not overlap"]

    def model_check(self):
        self.mc("MC_Timing", "MC_Timing", "MC_TimingDeep.cfg" if self.thorough else "MC_Timing.cfg")
        self.scheds = self.generate("GenTiming", "GenTimingDeep" if self.thorough else None)

    def scenarios(self):
        rng, out = self.rng, []

        def add(sch, **kw):
            at = rng.choice([0, 29, 30, 900, 1798, 1800, 17982, 107999, 108000, 1900000])
            out.append(dict({"schedule": list(sch), "at": at, "off": 0, "seed": f"C06-{self.seed}-{len(out)}"}, **kw))
        for s in (self.scheds if len(self.scheds) < self.n(5000, 60000) else rng.sample(self.scheds, self.n(5000, 60000))):
            add(s, drop=len(out) % 2 == 0)
        for i in range(self.n(1500, 20000)):
            sch = []
            for _ in range(rng.randint(1, 6) if i % 40 else rng.choice([10, 20, 40])):
                sch += [rng.choice([1, 2, 3, 4]), rng.choice([0, 0, 1, 2, 3, 4, 8, 30, 100]), rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 30, 300])]
            at = rng.choice([0, 30, 300, 900, 108000, 108000 * 19 + 1801, 108000 * 23 + 107990])
            off = rng.choice([0, 0, 1, -1, 10, 30, 3600, -3600, 0.5, 2.25, at / 30, at / 30 + 0.125])
            off = max(off, -3600)
            if off > 4000:
                off = 30.5
            if off > 0 and at < 30 * off - 10:
                at = int(30 * off) + rng.choice([0, 5, 60])
            add(sch, at=at, off=round(off * 1000), split=rng.random() < .3, mixed=rng.random() < .3)
        for _ in range(self.n(150, 2000)):      # an offset past the start of the first caption
            at = rng.choice([0, 30, 300, 108000])
            sch = [rng.choice([1, 2]), 300, rng.choice([0, 4, 30]), 1, rng.choice([0, 300]), 0]
            add(sch, at=at, off=round((at / 30 + rng.choice([.5, 1, 2, 3, 5, 8, 8.125])) * 1000), mixed=rng.random() < .2)
        return out

    @staticmethod
    def execute(scn):
        doc = render(scn)
        off = scn["off"] / 1000
        if off == int(off) and scn["at"] % 2:
            off = int(off)
        res = P.read(doc, **({"offset": off} if scn["off"] else {}))
        for c in res["caps"]:
            c["text"] = [x for n in c.pop("nodes") if n["k"] == "t" for x in n["c"] if x != 32]
            del c["lay"]
        return dict({"doc": cps(doc), "off": scn["off"] * 30, "scn": scn}, **res)
