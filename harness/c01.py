"""C01 - reading preserves instants (text formats)."""
import random
import re

import docs
from core import Check, cps, run_op
from project import read_event


def do_read(fmt, doc, opts):
    import pycaption as p
    if fmt == "srt":
        return run_op(lambda: p.SRTReader().read(doc, lang=opts["lang"]))
    if fmt == "vtt":
        return run_op(lambda: p.WebVTTReader(ignore_timing_errors=opts.get("ignore", True),
                                             time_shift_milliseconds=opts.get("shift", 0)).read(doc, lang=opts["lang"]))
    if fmt == "mdvd":
        return run_op(lambda: p.MicroDVDReader().read(doc, lang=opts["lang"]))
    if fmt == "dfxp":
        return run_op(lambda: p.DFXPReader().read(doc))
    if fmt == "sami":
        return run_op(lambda: p.SAMIReader().read(doc))
    raise ValueError(fmt)


def read_doc_event(fmt, doc, opts):
    ok, val = do_read(fmt, doc, opts)
    s, ms = divmod(opts.get("shift", 0), 1000)
    return {"fmt": fmt, "doc": cps(doc),
            "opts": {"lang": cps(opts["lang"]), "shs": s, "shu": ms * 1000},
            "res": read_event(ok, val)}


PROBES = {
    # known findings (see known_findings.jsonl)
    "srt-empty-cue-two-blanks": ("srt", "1\n00:00:01,000 --> 00:00:02,000\n\n\n2\n00:00:03,000 --> 00:00:04,000\nhi\n"),
    "srt-empty-cue-at-eof": ("srt", "1\n00:00:01,000 --> 00:00:02,000\nhi\n\n2\n00:00:03,000 --> 00:00:04,000\n\n"),
    "dfxp-declared-frame-rate": ("dfxp", "<tt xmlns=\"http://www.w3.org/ns/ttml\" xmlns:ttp=\"http://www.w3.org/ns/ttml#parameter\" "
                                 "ttp:frameRate=\"25\"><body><div><p begin=\"00:00:01:05\" end=\"00:00:02:10\">hi</p></div></body></tt>"),
    # regressions of repaired defects
    "srt-short-fraction": ("srt", "1\n00:00:01,5 --> 00:00:02,1234567\nhi\n"),
    "vtt-empty-cue-then-id": ("vtt", "WEBVTT\n\n00:01.000 --> 00:02.000\n\nid\n00:03.000 --> 00:04.000\nhi\n"),
    "vtt-empty-cue-then-note": ("vtt", "WEBVTT\n\n00:01.000 --> 00:02.000\n\nNOTE x\n\n00:03.000 --> 00:04.000\nhi\n"),
    "dfxp-same-language-divs": ("dfxp", "<tt xmlns=\"http://www.w3.org/ns/ttml\" xml:lang=\"en\"><body><div><p begin=\"1s\" end=\"2s\">a</p></div>"
                                "<div xml:lang=\"en\"><p begin=\"3s\" end=\"4s\">b</p></div></body></tt>"),
    "dfxp-nested-divs": ("dfxp", "<tt xmlns=\"http://www.w3.org/ns/ttml\" xml:lang=\"en\"><body><div><p begin=\"1s\" end=\"2s\">a</p>"
                         "<div><p begin=\"3s\" end=\"4s\">b</p></div></div></body></tt>"),
    "sami-two-last": ("sami", "<SAMI><HEAD><STYLE TYPE=\"text/css\"><!-- .E {lang: en;} --></STYLE></HEAD><BODY>"
                      "<SYNC start=5000><P class=E>a</P><P class=E>b</P></SYNC></BODY></SAMI>"),
    "mdvd-float": ("mdvd", "{0}{0}23.976\n{29}{57}a\n{1439}{9999}b\n"),
}


class C01(Check):
    prop = "C01"
    assumptions = ["documents come from the grammar-based generators in harness/docs.py",
                   "ttp:frameRate / div timing containment are outside the generated domain"]

    def scenarios(self):
        n = self.n(260, 2600)
        scns = []
        for fmt in ("srt", "vtt", "mdvd", "dfxp", "sami"):
            for i in range(n):
                scns.append({"kind": "rand", "fmt": fmt, "seed": f"C01-{self.seed}-{fmt}-{i}"})
            scns += [{"kind": "rand", "fmt": fmt, "many": True, "seed": f"C01-many-{self.seed}-{fmt}-{i}"} for i in range(self.n(4, 30))]
        scns += [{"kind": "probe", "name": k, "fmt": v[0], "doc": v[1]} for k, v in PROBES.items()]
        return scns

    @staticmethod
    def execute(scn):
        fmt = scn["fmt"]
        if scn["kind"] == "probe":
            e = read_doc_event(fmt, scn["doc"], {"lang": "en-US" if fmt in ("srt", "vtt") else "und"})
            e["scn"], e["probe"] = scn, scn["name"]
            return e
        r = random.Random(scn["seed"])
        opts = {"lang": "en-US" if fmt in ("srt", "vtt") else "und"}
        if fmt in ("srt", "vtt", "mdvd") and r.random() < .3:
            opts["lang"] = r.choice(["fr", "xx-YY"])
        many = {"maxps" if fmt == "dfxp" else "maxsync" if fmt == "sami" else "maxcues": r.choice([15, 40, 130])} if scn.get("many") else {}
        if fmt == "vtt":
            ordered = r.random() < .4
            opts["ignore"] = not ordered or r.random() < .5
            opts["shift"] = r.choice([0, 0, 1, 999, 1500, 3600000, 12345678])
            doc = docs.vtt_doc(r, ordered=ordered, **many)
            if r.random() < .3:
                # backwards, at most as far as the earliest cue time
                ms = [(int(h or 0) * 3600 + int(m) * 60 + int(s)) * 1000 + int(f) for line in doc.replace("\r", "\n").split("\n") if "-->" in line
                      for h, m, s, f in re.findall(r"(?:(\d+):)?(\d\d):(\d\d)\.(\d{3})", line)]
                opts["shift"] = -r.choice([min(ms, default=0), min(ms, default=0), min(ms, default=0) // 2, min(1, min(ms, default=0))])
        else:
            doc = getattr(docs, fmt + "_doc")(r, **many)
        e = read_doc_event(fmt, doc, opts)
        e["scn"] = scn
        return e
