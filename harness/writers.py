"""Uniform access to the eight writers, and the recorded result of a write."""
from core import cps, run_op


def make(fmt, **kw):
    import pycaption as p
    from pycaption.dfxp.extras import LegacyDFXPWriter, SinglePositioningDFXPWriter
    cls = {"srt": p.SRTWriter, "vtt": p.WebVTTWriter, "dfxp": p.DFXPWriter, "single": SinglePositioningDFXPWriter,
           "legacy": LegacyDFXPWriter, "sami": p.SAMIWriter, "mdvd": p.MicroDVDWriter, "scc": p.SCCWriter}[fmt]
    return cls(**kw)


ALL = ["srt", "vtt", "dfxp", "single", "legacy", "sami", "mdvd", "scc"]


def write(fmt, cs, ckw=None, wkw=None, limit=20):
    """(ok, doc or exception record) of one fresh write."""
    return run_op(lambda: make(fmt, **(ckw or {})).write(cs, **(wkw or {})), limit=limit)


def out(ok, val):
    if ok and isinstance(val, str):
        return {"ok": True, "exc": "", "doc": cps(val)}
    if ok:
        return {"ok": False, "exc": "not_a_string", "doc": []}
    return {"ok": False, "exc": val["exc"], "doc": [], "msg": cps(val["msg"][:120])}
