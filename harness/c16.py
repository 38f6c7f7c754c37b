"""C16 - roll-up and paint-on SCC text is conserved and ordered."""
import random

import sccgen as g
import sccprog as P
from core import Check, cps


def place(r, st, addr, lo):
    """The row addressed: the one before again, the next, a distant one."""
    prev = st.get("row")
    if addr == 1 and prev:
        return prev
    if addr == 2 and prev and prev < 15:
        return prev + 1
    return r.choice([x for x in range(lo, 16) if not prev or abs(x - prev) > 1] or [15])


def render(scn):
    r = random.Random(scn["seed"])
    k = scn.get("k") or r.choice([1, 1, 2, 2, P.Mix(r)])
    long = scn.get("long") or {}
    drop = scn.get("drop", r.random() < .5)
    f = scn.get("at", 0)
    lines, a = [], P.Lines()
    st = {"used": set()}
    depth = r.choice([2, 3, 4])
    rows = [scn["plan"][i:i + 3] for i in range(0, len(scn["plan"]), 3)]

    def cut(gap=None):
        nonlocal a, f
        a.flush()
        if a.w:
            lines.append((f, a.w))
            f += len(a.w) + (r.choice([0, 0, 1, 4, 5, 6, 30, 150]) if gap is None else gap)
        a = P.Lines()
    for i, (kind, addr, trail) in enumerate(rows):
        if i and r.random() < .85:
            cut()
        if r.random() < .1:
            a.nul(r)
        if kind in (1, 3):
            if r.random() < (.6 if len(rows) > 4 else .3):
                depth = r.choice([2, 3, 4])
            if r.random() < .2:
                P.ctl(a, "EDM", k)
            P.ctl(a, f"RU{depth}", k)
            if st.get("mode") != "roll":
                st["used"] = set()
                st["row"] = st.get("row") if addr == 1 and st.get("row", 0) >= depth else None
            st["mode"] = "roll"
        elif r.random() < .1:
            P.ctl(a, "EDM", k)
            st["used"] = set()
        if kind in (1, 2):
            P.ctl(a, "CR", k)
        row = None
        if kind == 4:
            row = place(r, st, addr, 1)
            if row in st["used"] or r.random() < .3 or st.get("mode") != "paint":
                P.ctl(a, "EDM", k)
                st["used"] = set()
            P.ctl(a, "RDC", k)
            st["mode"] = "paint"
        elif kind == 5:
            row = place(r, st, addr, 1)
            if row in st["used"]:
                P.ctl(a, "EDM", k)
                st["used"] = set()
        elif addr:
            row = place(r, st, addr, depth)
        ital = r.random() < .1
        ind = 0 if ital or row is None else r.choice([0, 0, 4, 8, 12])
        tab = 0 if row is None else r.choice([0, 0, 0, 1, 2, 3])
        if row is not None:
            P.unit(a, g.pac(row, ind, italics=ital, color=0 if ind or ital else r.choice([0, 0, 2])), tab, k)
            st["row"] = row
            st["used"].add(row)
        n = 1 if scn.get("brief") else r.choice([1, 1, 2])
        room = 31 - ind - tab
        for j in range(n):
            if j:
                cut()
            start = len(a.w)
            P.content(r, k, a, room // n, r.choice([2, 6, 14, 30]))
        if trail:
            if r.random() < .4:
                cut()
            P.ctl(a, "CR", k)
    cut()
    if r.random() < .3:
        lines.append((f + r.choice([0, 20, 90]), [g.CTL["EDM"]] * P.times(k)))
    return g.spell(r, g.doc(lines, drop))


def random_plan(r, n, brief=False):
    """A plan of n rows, as those of GenRoll."""
    plan, mode, fresh = [], "none", True
    while len(plan) < 3 * n:
        k = r.choice([1, 2, 2, 2, 2, 3, 6, 6] + ([4, 5] if not brief or r.random() < .2 else []))
        a, t = r.choice([0, 0, 1, 2, 3]), r.choice([0, 0, 0, 1])
        if (k in (2, 6) and mode != "roll") or (k == 3 and mode == "roll" and not fresh) or (k == 6 and not fresh) or \
                (k == 5 and (mode != "paint" or a < 2)) or (k == 4 and (not a or (mode == "none" and a != 1))) or (k in (4, 5) and t):
            continue
        mode = "paint" if k in (4, 5) else "roll"
        fresh = t == 1
        plan += [k, a, t]
    return plan


class C16(Check):
    prop = "C16"
    assumptions = [
        "well-formed: a roll-up or resume-direct-captioning code is not sent in the middle of a row; rows are of at most 32 columns; "
        "paint-on text does not overwrite text on display; lines do not overlap",
        "the blank of a mid-row code is compared as white space, blanks at the end of a row are not visible"]

    def model_check(self):
        self.mc("MC_Cea608 (roll-up)", "MC_Cea608", "MC_Cea608RollDeep.cfg" if self.thorough else "MC_Cea608Roll.cfg")
        self.plans = self.generate("GenRoll", "GenRollDeep" if self.thorough else None)

    def scenarios(self):
        rng, out = self.rng, []

        def add(plan, **kw):
            out.append(dict({"plan": list(plan), "at": rng.choice([0, 0, 30, 900, 1797, 107990]), "seed": f"C16-{self.seed}-{len(out)}"}, **kw))
        several = [p for p in self.plans if 5 in p[0::3]] * self.n(4, 1)
        settled = [p for p in self.plans if 5 not in p[0::3] and all(x < 2 for x in p[4::3])]
        for some, n in ((several, self.n(1500, 20000)), (settled, self.n(1500, 15000)), (self.plans, self.n(2500, 30000))):
            for p in (some if len(some) < n else rng.sample(some, n)):
                add(p)
        for _ in range(self.n(600, 8000)):     # longer programs: the plans, chained
            plan = []
            for _ in range(rng.choice([2, 2, 3])):
                p = rng.choice(self.plans)
                while p[0] not in (1, 3, 4) or (p[0] == 3 and plan):
                    p = rng.choice(self.plans)
                plan += p
            add(plan)
        for i in range(self.n(30, 400)):
            add(random_plan(rng, rng.choice([15, 25, 40]), brief=True))
        for _ in range(self.n(300, 4000)):     # long roll-up runs, whose depth changes
            add(random_plan(rng, rng.choice([5, 7, 9]), brief=True))
        return out

    @staticmethod
    def execute(scn):
        doc = render(scn)
        res = P.read(doc)
        for c in res["caps"]:
            c["nodes"] = [{"k": n["k"], "c": n["c"]} for n in c["nodes"]]
            del c["lay"]
        return dict({"doc": cps(doc), "scn": scn}, **res)
