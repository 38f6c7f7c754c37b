"""Canonical dumps of caption sets; random edits; operations in pristine processes."""
import hashlib
import json
import os
import random
import subprocess
import sys

from core import PY, REPO, run_op

HERE = os.path.dirname(os.path.abspath(__file__))


def layd(l):
    if l is None:
        return None
    sz = lambda s: None if s is None else [repr(float(s.value)), s.unit.value]
    two = lambda o, a, b: None if o is None else [sz(getattr(o, a)), sz(getattr(o, b))]
    p, a = l.padding, l.alignment
    return [two(l.origin, "x", "y"), two(l.extent, "horizontal", "vertical"),
            None if p is None else [sz(p.before), sz(p.after), sz(p.start), sz(p.end)],
            None if a is None else [a.horizontal and a.horizontal.value, a.vertical and a.vertical.value], l.webvtt_positioning]


def val(x):
    if isinstance(x, dict):
        return {"d": sorted([repr(k), val(v)] for k, v in x.items())}
    if isinstance(x, (list, tuple)):
        return [val(v) for v in x]
    return repr(x)


def dump(cs):
    """Everything observable in a caption set."""
    ls = []
    for lg in cs.get_languages():
        cl = cs.get_captions(lg)
        ls.append([lg, layd(getattr(cl, "layout_info", None)), layd(cs.get_layout_info(lg)),
                   [[repr(float(c.start)), repr(float(c.end)), val(c.style), layd(c.layout_info),
                     [[n.type_, val(n.content), repr(n.start), layd(n.layout_info), val(n.position)] for n in c.nodes]] for c in cl]])
    return json.dumps([ls, val([list(x) for x in cs.get_styles()]), layd(cs.layout_info)])


def dig(s):
    return hashlib.sha1(s.encode("utf-8", "surrogatepass")).hexdigest()[:16]


def digest(cs):
    return dig(dump(cs))


def outcome(ok, v):
    return dig(v) if ok and isinstance(v, str) else "!" + (v["exc"] if not ok else type(v).__name__)


def edit(cs, r):
    """One change through the public API."""
    import gensets
    from pycaption.base import Caption, CaptionNode as N
    langs = [x for x in cs.get_languages() if cs.get_captions(x)]
    k = r.randrange(12) if langs else r.choice([0, 1])
    if langs:
        cl = cs.get_captions(r.choice(langs))
        c = cl[r.randrange(len(cl))]
        n = c.nodes[r.randrange(len(c.nodes))] if c.nodes else None
    if k == 0:
        cs.add_style(r.choice(["p", "x", "ENCC", "default", "s1"]), dict(r.choice(gensets.STYLE), **{"font-size": f"{r.randrange(5, 99)}px"}))
    elif k == 1:
        sts = cs.get_styles()
        if sts:         # edit rules in place
            cs.get_style(r.choice(sts)[0])["color"] = f"#{r.randrange(10 ** 5):06d}"
        else:
            cs.add_style("y", {"color": f"#{r.randrange(10 ** 5):06d}"})
    elif k == 2:
        c.style["font-size"] = f"{r.randrange(5, 99)}px"
    elif k == 3:
        c.style["class"] = r.choice(["p", "x", "s1"])
    elif k == 4:
        c.end += r.choice([1000000, 2000000])
    elif k == 5:
        c.nodes.append(N.create_text(f" more{r.randrange(99)}"))
    elif k == 6:
        if n.type_ == N.TEXT:
            n.content += f"+{r.randrange(99)}"
        elif n.type_ == N.STYLE and isinstance(n.content, dict):
            n.content["color"] = f"#{r.randrange(10 ** 5):06d}"
        else:
            n.layout_info = gensets.layout(r)
    elif k == 7:
        c.layout_info = gensets.layout(r)
    elif k == 8:
        n.layout_info = gensets.layout(r)
    elif k == 9:
        last = max(x.end for x in cl)
        cl.append(Caption(last + 10 ** 6, last + 2 * 10 ** 6, [N.create_text(f"added{r.randrange(99)}")]))
    elif k == 10 and len(cl) > 1:
        cl.pop()
    elif k == 11:
        cs.set_layout_info(r.choice(langs), gensets.layout(r))
    else:
        cs.layout_info = gensets.layout(r)


class Server:
    """A process of another hash seed, which runs every job in a fork of its pristine self."""
    cache = {}

    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([PY, os.path.join(HERE, "objs.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    @classmethod
    def get(cls, hashseed):
        k = (os.getpid(), hashseed)
        if k not in cls.cache:
            cls.cache[k] = cls(hashseed)
        return cls.cache[k]

    def call(self, module, job):
        self.p.stdin.write((json.dumps([module, job]) + "\n").encode())
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())


def serve():
    sys.path.insert(0, REPO)
    import importlib
    mods = {m: importlib.import_module(m) for m in ("c09", "c10")}
    import pycaption  # noqa: F401
    import pycaption.dfxp.extras  # noqa: F401
    for ln in sys.stdin.buffer:
        module, job = json.loads(ln)
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            ok, v = run_op(mods[module].pristine, job, limit=60)
            with os.fdopen(wr, "w") as f:
                f.write(json.dumps({"ok": ok, "v": v}))
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as f:
            out = f.read()
        os.waitpid(pid, 0)
        sys.stdout.write((out or json.dumps({"ok": False, "v": {"exc": "died", "msg": ""}})) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    serve()
