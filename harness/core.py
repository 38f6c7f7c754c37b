"""Shared machinery of the checks: running the real code and recording what it
did, handing the recorded trace to TLC, collecting verdicts, known findings,
evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import docs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")
#: the quick tier runs so many times the numbers the checks name
QUICK = 2
FAST = int(os.environ.get("VERIF_FAST", "0"))    # when trying out changes: only one scenario in so many
NCPU = min(8, os.cpu_count() or 1)


# --------------------------------------------------------------- running code
class OpTimeout(Exception):
    pass


def _alarm(_sig, _frm):
    raise OpTimeout("operation did not finish")


def run_op(fn, *args, limit=20, cut=300, **kw):
    """Call fn; returns (True, value) or (False, {'exc':..., 'msg':...})."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return True, fn(*args, **kw)
    except Exception as e:  # noqa: BLE001 - the exception is the observation
        mod = type(e).__module__ or ""
        return False, {"exc": type(e).__name__,
                       "pc": mod.startswith("pycaption"),
                       "msg": str(e)[:cut]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ------------------------------------------------------------------ projection
def cps(s):
    return [ord(c) for c in s]


def inst(t):
    """A number of microseconds as a JSON instant TLC can hold."""
    if isinstance(t, bool) or not isinstance(t, (int, float)):
        return {"k": "bad", "s": 0, "u": 0, "rs": 0, "ru": 0}
    kind = "int" if isinstance(t, int) else "float"
    if isinstance(t, float) and (t != t or t in (float("inf"), float("-inf"))):
        return {"k": "bad", "s": 0, "u": 0, "rs": 0, "ru": 0}
    import math
    fl = math.floor(t)
    rd = round(t)
    s, u = divmod(fl, 1000000)
    rs, ru = divmod(rd, 1000000)
    if abs(s) > 2000000000:
        return {"k": "huge", "s": 0, "u": 0, "rs": 0, "ru": 0}
    return {"k": kind, "s": s, "u": u, "rs": rs, "ru": ru}


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, env=None, workers=1, timeout=800, extra=(), heap="3g",
        cwd=SPEC, java=()):
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-Xss256m", f"-Xmx{heap}", *java, "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("utf-8", "replace"), -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    st = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct", out, re.M)
    gen, dis = (int(x.replace(",", "")) for x in st[-1]) if st else (0, 0)
    return {"rc": rc, "out": out, "generated": gen, "distinct": dis,
            "wall": time.time() - t0}


class JudgeError(Exception):
    pass


def _judge_chunk(a):
    module, cfgpath, path, ids, timeout = a
    rejects, tags, errors, states = [], {}, [], 0
    remaining = list(ids)
    lines = {}
    with open(path) as f:
        for ln in f:
            lines[json.loads(ln)["id"]] = ln
    for _ in range(8):
        r = tlc(module + ".tla", cfgpath, env={"TRACE": path}, timeout=timeout)
        states += r["generated"]
        seen = []
        for ln in r["out"].splitlines():
            ln = ln.strip().strip('"')
            if ln.startswith("E|"):
                seen.append(int(ln[2:]))
            elif ln.startswith("REJECT|"):
                _, i, cl = ln.split("|", 2)
                rejects.append((int(i), re.findall(r'\\?"([^"\\]*)\\?"', cl)))
            elif ln.startswith("TAGS|"):
                for k, v in re.findall(r'(\w+) \|-> (\d+)', ln[5:]):
                    tags[k] = tags.get(k, 0) + int(v)
                for k, v in re.findall(r'\\?"([^"\\]*)\\?" :> (\d+)', ln[5:]):
                    tags[k] = tags.get(k, 0) + int(v)
        if r["rc"] == 0 and seen == remaining:
            break
        if r["rc"] == -9 or not seen:
            errors.append((seen[-1] if seen else -1, r["out"][-3000:]))
            break
        if re.search(r"Attempted|Overflow|evaluating|Error: ", r["out"]):
            # the specification cannot make sense of the last event at all
            rejects.append((seen[-1], ["uninterpretable"]))
            if os.environ.get("VERIF_DEBUG"):
                print(r["out"][-2500:])
        else:
            errors.append((seen[-1], r["out"][-3000:]))
        remaining = remaining[len(seen):]
        if not remaining:
            break
        path = path + "r"
        with open(path, "w") as f:
            for i in remaining:
                f.write(lines[i])
    return rejects, tags, errors, states


def judge(prop, events, workdir, module=None, timeout=700, chunks=None):
    """Hand the events to TLC. Returns dict(rejects, tags, errors, states)."""
    module = module or f"Judge{prop}"
    cfg = os.path.join(SPEC, module + ".cfg")
    n = chunks or min(NCPU, max(1, len(events) // 4))
    size = sorted(range(len(events)),
                  key=lambda i: -len(json.dumps(events[i])))
    buckets = [[] for _ in range(n)]
    load = [0] * n
    for i in size:
        b = load.index(min(load))
        buckets[b].append(i)
        load[b] += len(json.dumps(events[i])) + 200
    jobs = []
    for b, idx in enumerate(buckets):
        if not idx:
            continue
        idx.sort()
        path = os.path.join(workdir, f"{module}-{b}.ndjson")
        with open(path, "w") as f:
            for i in idx:
                f.write(json.dumps(events[i]) + "\n")
        jobs.append((module, cfg, path, [events[i]["id"] for i in idx], timeout))
    rejects, tags, errors, states = [], {}, [], 0
    with mp.pool.ThreadPool(NCPU) as pool:
        for rj, tg, er, st in pool.map(_judge_chunk, jobs, chunksize=1):
            rejects += rj
            errors += er
            states += st
            for k, v in tg.items():
                tags[k] = tags.get(k, 0) + v
    return {"rejects": sorted(rejects), "tags": tags, "errors": errors,
            "states": states}


# ------------------------------------------------------------------ findings
def known_findings(prop):
    """Lines of known_findings.txt: "known: {json}" or "fixed: property=.."; only
    the former suppress anything, and only for the named probe and clauses."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith("known: "):
                    d = json.loads(ln[7:])
                    if d["property"] == prop:
                        out.append(d)
    return out


# ------------------------------------------------------------------ driver run
def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(5000)


def _exec(a):
    fn, scn = a
    docs.SIZE = scn.get("big", 0)
    try:
        return fn(scn)
    except Exception:  # a bug of the driver, not of the code under test
        return {"driver_error": traceback.format_exc(), "scn": scn}


def execute_all(fn, scns, chunksize=None):
    """Run the scenario executor over all scenarios in worker processes."""
    if not scns:
        return []
    ctx = mp.get_context("fork")
    with ctx.Pool(NCPU, initializer=_init_worker) as pool:
        res = pool.map(_exec, [(fn, s) for s in scns],
                       chunksize=chunksize or max(1, len(scns) // (NCPU * 8)))
    return res


def flatten(results):
    """Executor results (event, list of events or None) -> numbered events."""
    events, errs = [], []
    for r in results:
        if r is None:
            continue
        for e in (r if isinstance(r, list) else [r]):
            if "driver_error" in e:
                errs.append(e)
                continue
            e["id"] = len(events) + 1
            events.append(e)
    return events, errs


class Check:
    """One property's check: scenarios -> recorded events -> TLC verdicts."""
    prop = None
    level = "model_checking"
    module = None       # judge module
    assumptions = []

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.rng = random.Random(f"{self.prop}-{seed}-{tier}")
        self.thorough = tier == "thorough"
        self.mc_runs = []      # (name, distinct, generated)
        self.notes = {}

    # ---- to be supplied
    def scenarios(self):
        raise NotImplementedError

    @staticmethod
    def execute(scn):
        raise NotImplementedError

    def model_check(self):
        """Design-level TLC runs; append to self.mc_runs."""

    def n(self, quick, thorough):
        return max(thorough, quick * QUICK) if self.thorough else quick * QUICK

    def big(self, quick, thorough, sizes=(12, 30, 60), **kw):
        """Scenarios of long documents and sets."""
        return [dict(kw, big=sizes[i % len(sizes)], seed=f"{self.prop}-{self.seed}-big-{'-'.join(map(str, kw.values()))}-{i}")
                for i in range(self.n(quick, thorough))]

    # ---- helpers
    def mc(self, name, module, cfg, env=None, workers=NCPU, timeout=600, extra=(), must=True):
        if FAST and "generator" not in name:
            return None
        r = tlc(module + ".tla", cfg, env=env, workers=workers, timeout=timeout, extra=extra, heap="8g")
        ok = r["rc"] == 0
        self.mc_runs.append({"model": name, "distinct": r["distinct"],
                             "generated": r["generated"], "ok": ok,
                             "wall": round(r["wall"], 1)})
        if must and not ok:
            raise JudgeError(f"model {name}: TLC rc={r['rc']}\n{r['out'][-3000:]}")
        return r

    def generate(self, module, cfg=None, **kw):
        """Behaviours TLC enumerates: the tuples of integers it prints as G|<<..>>."""
        r = self.mc(f"{cfg or module} (generator)", module, (cfg or module) + ".cfg", workers=1, **kw)
        out = [[int(x) for x in re.findall(r"-?\d+", ln)] for ln in re.findall(r'^"?G\|(.*)$', r["out"], re.M)]
        self.notes["generated_behaviours"] = self.notes.get("generated_behaviours", 0) + len(out)
        return sorted(out)

    def describe(self, ev):
        """Human-readable form of an event for a replay file / sample."""
        d = {}
        for k, v in ev.items():
            if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
                try:
                    d[k] = "".join(map(chr, v))
                    continue
                except (ValueError, OverflowError):
                    pass
            d[k] = v
        return d

    def run(self, replay=None):
        t0 = time.time()
        work = tempfile.mkdtemp(prefix=f"verif-{self.prop}-")
        try:
            return self._run(work, t0, replay)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def _run(self, work, t0, replay):
        self.work = work
        if replay:
            with open(replay) as f:
                scns = [json.load(f)["scn"]]
        else:
            self.model_check()
            scns = self.scenarios()
            if any("big" in s or "many" in s for s in scns):    # spread them
                random.Random(len(scns)).shuffle(scns)
            if FAST:
                scns = self.rng.sample(scns, max(1, len(scns) // FAST))
        t1 = time.time()
        events, errs = flatten(execute_all(type(self).execute, scns))
        t2 = time.time()
        if errs:
            print(f"driver errors: {len(errs)}\n{errs[0]['driver_error']}"
                  f"\n{json.dumps(errs[0]['scn'])[:2000]}")
        if os.environ.get("VERIF_DUMP"):
            with open(os.environ["VERIF_DUMP"], "w") as f:
                for e in events:
                    f.write(json.dumps(e) + "\n")
        slim = [{k: v for k, v in e.items() if k != "scn"} for e in events]
        j = judge(self.prop, slim, work, module=self.module)
        t3 = time.time()
        byid = {e["id"]: e for e in events}
        kf = known_findings(self.prop)
        hit, bad, gen = {}, [], []
        for i, clauses in j["rejects"]:
            e = byid[i]
            if "GENERATOR" in clauses:  # the input is outside the domain: our fault
                gen.append((e, clauses))
                continue
            k = next((k for k in kf if k["probe"] == e.get("probe")
                      and set(clauses) <= set(k["clauses"])), None) if e.get("probe") else None
            if k:
                hit[k["probe"]] = k
            else:
                bad.append((e, clauses))
        for k in hit.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for fn in os.listdir(rdir):
            if fn.startswith(self.prop + "-"):
                os.unlink(os.path.join(rdir, fn))
        shown = {}
        for e, clauses in bad:
            key = tuple(sorted(clauses)) + (e.get("fmt"),)
            shown.setdefault(key, []).append(e)
        nrep = 0
        for key, evs in sorted(shown.items(), key=lambda kv: str(kv[0])):
            for e in evs[:int(os.environ.get("VERIF_SHOW", "3"))]:
                h = hashlib.sha1(json.dumps(e.get("scn"), sort_keys=True).encode()).hexdigest()[:8]
                path = os.path.join(rdir, f"{self.prop}-{h}-{e['id']}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "clauses": list(key[:-1]),
                               "scn": e.get("scn"), "event": self.describe(
                                   {k: v for k, v in e.items() if k != "scn"})}, f, indent=1)
                nrep += 1
                if nrep <= 25:
                    print(f"VIOLATION property={self.prop} replay={path} "
                          f"clauses={','.join(x for x in key[:-1])} n={len(evs)}")
        if j["errors"]:
            print(f"judge errors: {len(j['errors'])}")
            print(j["errors"][0][1])
        self.write_evidence(events, j, len(bad), time.time() - t0, replay)
        print(f"{self.prop} {self.tier}: {len(events)} events, {len(bad)} rejected, "
              f"{len(hit)} known; model {t1-t0:.1f}s run {t2-t1:.1f}s judge {t3-t2:.1f}s")
        if bad:
            return 1
        if gen:
            print(f"generator produced {len(gen)} inputs outside the domain, e.g. {json.dumps(gen[0][0].get('scn'))[:1500]}")
        if errs or j["errors"] or gen:
            return 2
        return 0

    def write_evidence(self, events, j, nviol, wall, replay):
        if replay:
            return
        rng = random.Random(self.seed)
        good = [e for e in events]
        samples = []
        for e in rng.sample(good, min(3, len(good))):
            d = self.describe({k: v for k, v in e.items() if k not in ("scn",)})
            txt = json.dumps(d)
            samples.append(d if len(txt) < 4000 else txt[:4000])
        cov = {
            "states": j["states"] + sum(m["distinct"] for m in self.mc_runs),
            "transitions": (j["states"] - min(j["states"], NCPU)) + sum(m["generated"] for m in self.mc_runs),
            "traces_validated_against_impl": len(events),
            "samples": samples,
            "events_by_kind": {k: sum(1 for e in events if e.get("fmt", e.get("ev")) == k)
                               for k in sorted({str(e.get("fmt", e.get("ev"))) for e in events})},
            "behaviours_exercised": dict(sorted(j["tags"].items())),
            "design_models": self.mc_runs,
            **self.notes,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov,
              "assumptions": list(self.assumptions),
              "wall_s": round(wall, 2), "violations": nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
