"""C15 - SCC lines longer than 32 characters are never returned silently."""
import random

import sccgen as g
import sccprog as P
from core import Check, cps

CLASSES = {1: [0], 2: [1, 2, 20, 31], 3: [32], 4: [33, 33, 34], 5: [40, 38, 64]}


def letters(r, k, a, n, fancy):
    """n columns of text that begin and end with something visible."""
    rw = P.Row(a, k, r)
    i = 0
    while i < n:
        edge = i == 0 or i == n - 1
        x = r.random()
        if fancy and x < .06:
            rw.special()
        elif fancy and x < .12:
            rw.ext()
        elif fancy and x < .15 and not edge:
            rw.ch()
            rw.bs()
            rw.ch()
        elif fancy and x < .18 and not edge:
            rw.mid(r.random() < .5)
            rw.ch()
            i += 1
        elif x < .3 and not edge:
            rw.ch(0x20)
            if i + 1 < n:
                rw.ch()
                i += 1
        else:
            rw.ch()
        i += 1
    if fancy and n and r.random() < .1:     # blanks at the end
        for _ in range(r.choice([1, 1, 2, 10])):
            rw.ch(0x20)
    a.flush()


def addresses(r, plan):
    """Rows for the places of a plan, or None."""
    for _ in range(200):
        row, out = r.randint(1, 15), []
        for p in plan:
            if out:
                row = row + 1 if p == 1 else row + r.randint(2, 5) if p == 2 else row - r.randint(1, 8)
            if not 1 <= row <= 15 or row in out:
                break
            out.append(row)
        else:
            return out
    return None


def render(scn):
    r = random.Random(scn["seed"])
    k = r.choice([1, 2, 2, P.Mix(r)])
    fancy = r.random() < .5
    mode = scn["mode"]
    lines, f = [], r.choice([0, 30, 1790])
    first, depth = True, r.choice([2, 3, 4])
    for plan in scn["plans"]:
        a = P.Lines()
        lens = [r.choice(CLASSES[c]) for c in plan[1::2]]
        rows = addresses(r, plan[0::2])
        if mode == "roll":
            per = r.random() < .4
            for n in lens:
                if first or per:
                    P.ctl(a, f"RU{depth}", k)
                first = False
                P.ctl(a, "CR", k)
                P.unit(a, g.pac(r.choice([15, 15, 14, depth]), r.choice([0, 0, 4])), r.choice([0, 0, 1]), k)
                letters(r, k, a, n, fancy)
                if r.random() < .5:
                    a.flush()
                    lines.append((f, a.w))
                    f += len(a.w) + r.choice([0, 1, 20])
                    a = P.Lines()
        else:
            if rows is None:
                return None
            if mode == "pop":
                P.ctl(a, "RCL", k)
                P.ctl(a, "ENM", k)
            else:
                P.ctl(a, "EDM", k)
                P.ctl(a, "RDC", k)
            for row, n in zip(rows, lens):
                P.unit(a, g.pac(row, r.choice([0, 0, 0, 4])), r.choice([0, 0, 1]), k)
                letters(r, k, a, n, fancy)
            if mode == "pop":
                if r.random() < .6:
                    P.ctl(a, "EDM", k)
                P.ctl(a, "EOC", k)
        a.flush()
        if a.w:
            lines.append((f, a.w))
            f += len(a.w) + r.choice([0, 2, 30])
    if r.random() < .5:
        lines.append((f + 20, [g.CTL["EDM"]] * P.times(k)))
    return g.spell(r, g.doc(lines, r.random() < .5))


class C15(Check):
    prop = "C15"
    assumptions = [
        "well-formed streams as for C05 and C16, but for the length of their rows; rows with blanks that may or may not count towards their length may be refused or not",
        "simulate_roll_up is off"]

    def model_check(self):
        self.plans = self.generate("GenLong", "GenLongDeep" if self.thorough else None)

    def scenarios(self):
        rng, out = self.rng, []
        plain = [p for p in self.plans if 1 not in p[1::2]]
        self.notes["arrangements"] = len(self.plans)

        def add(mode, *plans, **kw):
            out.append(dict({"mode": mode, "plans": [list(p) for p in plans], "seed": f"C15-{self.seed}-{len(out)}", "off": 0}, **kw))
        for p in self.plans:
            for mode in ("pop", "paint", "roll"):
                if mode != "roll" or all(x == 1 for x in p[0::2]):
                    add(mode, p)
        for _ in range(self.n(1500, 20000)):
            ps = [rng.choice(plain) for _ in range(rng.choice([2, 2, 3]))]
            mode = rng.choice(["pop", "pop", "paint", "roll"])
            add(mode, *ps, off=rng.choice([0, 0, 0, 7200]))    # an offset that floors every start
        for s in self.big(60, 600, (6, 12, 25)):
            mode = rng.choice(["pop", "pop", "paint", "roll"])
            ps = [rng.choice([p for p in plain if mode != "roll" or all(x == 1 for x in p[0::2])]) for _ in range(s["big"])]
            fine = [p for p in ps if not {4, 5} & set(p[1::2])] or [[2, 2]]
            add(mode, *(ps if rng.random() < .3 else fine + ([rng.choice(ps)] if rng.random() < .5 else [])))
        return out if len(out) < self.n(7000, 60000) else rng.sample(out, self.n(7000, 60000))

    @staticmethod
    def execute(scn):
        doc = render(scn)
        if doc is None:
            return None
        res = P.read(doc, cut=20000, **({"offset": scn["off"]} if scn["off"] else {}))
        caps = []
        for c in res["caps"]:
            t = []
            for n in c["nodes"]:
                if n["k"] == "t":
                    t += n["c"]
                elif n["k"] == "b":
                    caps.append(t)
                    t = []
            caps.append(t)
        return {"doc": cps(doc), "scn": scn, "ok": res["ok"], "exc": res["exc"], "msg": cps(res["msg"]) if res["msg"] else [], "caps": caps}
