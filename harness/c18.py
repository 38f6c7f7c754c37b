"""C18 - geometry values compare, hash, parse and print consistently."""
import random
from decimal import Decimal

import c12
import c13
from core import Check, cps, run_op

PIECES = ["0", "1", "12", "9", ".", "p", "px", "t", "em", "m", "c", "%", "pt", "-", "+", " ", "\n", "\u0663", "e", "PX"]
UNITS = ["px", "em", "%", "c", "pt"]


def dec(v, places=None):
    """Decimal digits of a float: the shortest that denote it, or exact ones cut off."""
    d = Decimal(repr(v)) if places is None else Decimal(v)
    s = format(d, "f")
    if places is not None and "." in s:
        i, f = s.split(".")
        s = i + "." + f[:places]
    return s


def parse_item(txt):
    from pycaption.geometry import Size
    ok, v = run_op(Size.from_string, txt)
    return {"txt": cps(txt), "ok": ok, "exc": "" if ok else v["exc"], "num": cps(dec(v.value)) if ok else [], "u": v.unit.value if ok else ""}


def print_item(v, u):
    from pycaption.geometry import Size, UnitEnum
    s = Size(v, UnitEnum(u))
    out = str(s)
    ok, b = run_op(Size.from_string, out)
    return {"num": cps(dec(float(v))), "u": u, "out": cps(out), "again": ok and str(b) == out and s.to_xml_attribute() == out, "same": ok and b == s}


def number(r):
    k = r.random()
    if k < .3:
        return r.randrange(0, 20000) / 100
    if k < .5:
        return r.uniform(0, 200)
    if k < .7:
        return r.randrange(0, 100000) / 1000
    if k < .8:
        return r.randrange(0, 500)
    return r.choice([0, 0.001, 0.004, 0.005, 0.006, 0.01, 0.1, 0.125, 2.675, 1.005, 9.995, 9.994, 99.999, 99.995, 100, 0.995, 1e-9, 12345.678, 100000.25,
                     999999.99, 33.333333333333336, 66.66666666666667, 7 / 3, 1 / 3, 0.30000000000000004, 100.10, 10.0, 50.50])


def sizetxt(r):
    """A valid spelling and the size [n, u] it denotes."""
    n = r.choice([0, 100, 150, 105, 1000, 9999, 10000, 12345, r.randrange(0, 50000)])
    u = r.choice(UNITS)
    if n == 0 and r.random() < .5:
        return "0", {"n": 0, "u": "px"}
    i, f = divmod(n, 100)
    s = str(i) if r.random() < .85 else f"0{i}"
    if f or r.random() < .2:
        fs = f"{f:02d}"
        if fs[1] == "0" and r.random() < .5:
            fs = fs[0]
        elif r.random() < .2:
            fs += "0"
        s += "." + fs
    return s + u, {"n": n, "u": u}


def size(s):
    n = round(s.value * 100)
    return {"n": n, "u": s.unit.value}


# ------------------------------------------------------------ descriptions
POOL = [(1000, "%"), (2000, "%"), (1000, "px"), (0, "%"), (0, "px"), (1001, "%"), (1000, "em"), (1000, "c"), (1000, "pt"), (1050, "%")]
# values that differ by less than the printed precision, or by rounding noise
NEAR = [0.3, 0.1 + 0.2, 33.33, 33.333333333333336, 33.3333, 10.000000000000002, 9.999999999999998, 1e-12, 1 / 3 * 100, 10.004, 10.001]
HS = ["left", "center", "right", "start", "end", ""]
VS = ["top", "center", "bottom", ""]


def dz(x):
    return {"n": x[0], "u": x[1]}


NOSZ = {"n": 0, "u": ""}


def describe(r, t=None, depth=1, near=()):
    """A description of a geometry object."""
    t = t or r.choice(["size", "point", "stretch", "padding", "align", "layout", "layout", "layout"])
    def sz():
        if near and r.random() < .5:
            return {"n": 10 ** 9 + NEAR.index(r.choice(near)), "u": "%"}
        return dz(r.choice(POOL[:r.choice([2, 3, 10])]))
    d = {"t": t, "o": [], "e": [], "p": [], "a": [], "inh": []}
    if t == "size":
        d["o"] = [sz()]
    elif t in ("point", "stretch"):
        d["o"] = [sz(), sz()]
    elif t == "padding":
        d["p"] = [sz() if r.random() < .8 else NOSZ for _ in range(4)]
    elif t == "align":
        d["a"] = [r.choice(HS), r.choice(VS)]
    else:
        if r.random() < .6:
            d["o"] = [sz(), sz()]
        if r.random() < .6:
            d["e"] = [sz(), sz()]
        if r.random() < .4:
            d["p"] = [sz() if r.random() < .8 else NOSZ for _ in range(4)]
        if r.random() < .5:
            d["a"] = [r.choice(HS), r.choice(VS)]
        if depth and r.random() < .3:
            d["inh"] = [describe(r, "layout", 0, near)]
    return d


def build(d, r):
    """A new object of the description, built in one of several ways."""
    from pycaption.geometry import (Alignment, HorizontalAlignmentEnum as H, Layout, Padding, Point, Size, Stretch, UnitEnum,
                                    VerticalAlignmentEnum as V)
    def sz(x):
        if not x["u"]:
            return None
        if x["n"] >= 10 ** 9:
            return Size(NEAR[x["n"] - 10 ** 9], UnitEnum(x["u"]))
        v = x["n"] / 100
        k = r.random()
        if k < .3:
            return Size.from_string(f"{v:.2f}{x['u']}")
        if k < .5 and v == int(v):
            v = int(v)
        elif k < .7:
            v = f"{v:.3f}"
        return Size(v, UnitEnum(x["u"]))
    t = d["t"]
    two = lambda c, q: c(sz(q[0]), sz(q[1]))
    pad = lambda q: Padding(*map(sz, q))
    al = lambda a: Alignment(H(a[0]) if a[0] else None, V(a[1]) if a[1] else None)
    if t == "size":
        return sz(d["o"][0])
    if t == "point":
        return two(Point, d["o"])
    if t == "stretch":
        return two(Stretch, d["o"])
    if t == "padding":
        return pad(d["p"])
    if t == "align":
        return al(d["a"])
    return Layout(two(Point, d["o"]) if d["o"] else None, two(Stretch, d["e"]) if d["e"] else None, pad(d["p"]) if d["p"] else None,
                  al(d["a"]) if d["a"] else None, inherit_from=build(d["inh"][0], r) if d["inh"] else None)


def eq_event(descs, r):
    objs = [build(d, r) for d in descs]
    hs = [run_op(hash, o) for o in objs]
    same = lambda a, b: a[0] and b[0] and a[1] == b[1]
    return {"ev": "eq", "objs": descs, "eq": [[bool(a == b) for b in objs] for a in objs], "ne": [[bool(a != b) for b in objs] for a in objs],
            "hash": [[same(a, b) for b in hs] for a in hs]}


PUBLIC = ["value", "unit", "x", "y", "horizontal", "vertical", "before", "after", "start", "end", "origin", "extent", "padding", "alignment",
          "webvtt_positioning"]


def deep(o, depth=0):
    """Everything a value publishes."""
    import enum
    if o is None or isinstance(o, (int, float, str, bool, enum.Enum)):
        return repr(o)
    if isinstance(o, (list, tuple)):
        return [deep(x, depth + 1) for x in o]
    return [type(o).__name__, [(k, deep(getattr(o, k), depth + 1)) for k in PUBLIC if hasattr(o, k)]]


def lay(l):
    out = {"o": [], "e": [], "p": [], "h": "", "v": "", "vtt": []}
    if l.origin:
        out["o"] = [size(l.origin.x), size(l.origin.y)]
    if l.extent:
        out["e"] = [size(l.extent.horizontal), size(l.extent.vertical)]
    if l.padding:
        out["p"] = [size(x) for x in (l.padding.before, l.padding.after, l.padding.start, l.padding.end)]
    if l.alignment:
        out["h"] = l.alignment.horizontal.value if l.alignment.horizontal else ""
        if l.alignment.vertical:
            out["v"] = {"top": "before", "bottom": "after"}.get(l.alignment.vertical.value, "center")
    return out


class C18(Check):
    prop = "C18"
    assumptions = ["sizes without a digit before or after the point, or with a sign, are not judged beyond the kind of error",
                   "printing is judged on non-negative values (a size is one)"]

    def model_check(self):
        self.txts = self.generate("GenSizes", "GenSizesDeep" if self.thorough else None)
        self.lays = self.generate("MC_Geom")

    def scenarios(self):
        out, B = [], 60
        out += [{"kind": "parse", "seqs": self.txts[i:i + B]} for i in range(0, len(self.txts), B)]
        q = [tuple(x) for x in self.lays]
        r = random.Random(self.seed)
        r.shuffle(q)
        for rep in range(self.n(1, 10)):
            out += [{"kind": "lays", "idx": q[i:i + 10], "seed": f"{self.seed}-{rep}-{i}"} for i in range(0, len(q), 10)]
        for k, n in (("print", 40), ("spell", 40), ("eq", 250), ("short", 200), ("pure", 400)):
            out += [{"kind": k, "seed": f"C18-{self.seed}-{k}-{i}"} for i in range(n * self.n(1, 15))]
        return out

    @staticmethod
    def execute(scn):
        from pycaption.geometry import Padding, Point, Stretch
        k = scn["kind"]
        r = random.Random(scn.get("seed"))
        if k == "parse":
            return {"ev": "parse", "items": [parse_item("".join(PIECES[i - 1] for i in q)) for q in scn["seqs"]], "scn": scn}
        if k == "spell":
            def sp():
                s = sizetxt(r)[0]
                x = r.random()
                if x < .4:
                    i = r.randrange(len(s) + 1)
                    c = r.choice(PIECES + ["\r", "\t", "\u00a0", "x", "P", "\u0966", "\uff11", "0", "00", "pxpx", "\x00", ","])
                    s = s[:i] + c + s[i:] if x < .25 else s[:i] + s[i + 1:]
                elif x < .5:
                    s = str(r.randrange(10 ** 15)) + r.choice(["", f".{r.randrange(10 ** 6)}"])[:15] + r.choice(UNITS + [""])
                return s
            txts = [sp() for _ in range(50)]
            return {"ev": "parse", "items": [parse_item(t) for t in txts if len([c for c in t if c.isdigit()]) <= 15], "scn": scn}
        if k == "print":
            return {"ev": "print", "items": [print_item(number(r), r.choice(UNITS)) for _ in range(50)], "scn": scn}
        if k == "lays":
            A, B, D, Z = {"n": 1000, "u": "%"}, {"n": 2000, "u": "%"}, {"n": 1000, "u": "px"}, {"n": 0, "u": "%"}
            prs = [[], [A, B], [B, A], [A, D], [Z, A]]
            pds = [[], [A, A, A, A], [A, B, A, A], [A, A, B, A]]
            als = [[], ["left", "top"], ["left", ""], ["", "top"]]
            ds = [{"t": "layout", "o": prs[o - 1], "e": prs[e - 1], "p": pds[p - 1], "a": als[a - 1], "inh": []} for o, e, p, a in scn["idx"]]
            return dict(eq_event(ds + ds, r), scn=scn)
        if k == "eq":
            t = r.choice(["layout", "layout", "padding", "point", None, None])
            near = r.choice([(), (), NEAR[:2], NEAR[2:5] + NEAR[8:9], NEAR[5:7] + NEAR[9:], NEAR[7:8]])
            if near and r.random() < .4:
                t = "size"
            ds = [describe(r, t, 1, near) for _ in range(6)]
            for _ in range(4):      # the same, or all but the same
                d = dict(r.choice(ds))
                if r.random() < .6:
                    f = r.choice(["o", "e", "p", "a"])
                    if d[f]:
                        q = list(d[f])
                        i = r.randrange(len(q))
                        q[i] = {"n": 10 ** 9 + NEAR.index(r.choice(near)), "u": "%"} if near and f != "a" else dz(r.choice(POOL)) if f != "a" else r.choice([HS, VS][i])
                        d[f] = q
                ds.append(d)
            return dict(eq_event(ds, r), scn=scn)
        if k == "short":
            kind = r.choice(["padding", "padding", "point", "stretch"])
            n = r.choice([1, 2, 3, 4]) if kind == "padding" else 2
            v = [sizetxt(r) for _ in range(n)]
            cls = {"padding": Padding, "point": Point, "stretch": Stretch}[kind]
            ok, o = run_op(cls.from_xml_attribute, " ".join(x for x, _ in v))
            ev = {"ev": "short", "kind": kind, "sizes": [s for _, s in v], "ok": ok, "out": [], "again": False, "scn": scn}
            if ok:
                ev["out"] = [size(x) for x in ((o.before, o.after, o.start, o.end) if kind == "padding" else
                                               (o.x, o.y) if kind == "point" else (o.horizontal, o.vertical))]
                ok2, o2 = run_op(lambda: cls.from_xml_attribute(o.to_xml_attribute()))
                ev["again"] = ok2 and o2 == o and hash(o2) == hash(o)
            return ev
        # relativizing and fitting
        w, h = r.choice(c13.DIMS)
        fit = r.random() < .5
        s = c13.spec(r, w, h, fit, True)
        l = c13.make(**s)
        evs = []
        gw, gh = (w if r.random() < .9 else None), (h if r.random() < .9 else None)
        before = deep(l)
        comps = [x for x in (l.origin, l.extent, l.padding) if x]
        hb = hash(l)
        ok, q = run_op(lambda: l.as_percentage_of(gw, gh))
        for c in comps:
            run_op(lambda: c.as_percentage_of(gw, gh))
        run_op(l.is_relative)
        evs.append({"ev": "pure", "op": "relativize", "kept": deep(l) == before and hash(l) == hb, "lay": lay(l), "w": gw or 0, "h": gh or 0,
                    "ok": ok, "exc": "" if ok else q["exc"], "res": lay(q) if ok else lay(c13.make())})
        if ok and fit and w == gw and h == gh:
            before, hb = deep(q), hash(q)
            ok2, f = run_op(q.fit_to_screen)
            evs.append({"ev": "pure", "op": "fit", "kept": deep(q) == before and hash(q) == hb, "lay": lay(l), "w": gw, "h": gh,
                        "ok": ok2, "exc": "" if ok2 else f["exc"], "res": lay(f) if ok2 else lay(c13.make())})
        for e in evs:
            e["scn"] = scn
        return evs
