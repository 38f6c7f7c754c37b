"""C04 - read text equals authored text."""
import random

import bodies
import docs
from c01 import read_doc_event
from core import Check


def document(r, fmt, n=None):
    if fmt == "srt":
        return docs.srt_doc(r, textfn=lambda: bodies.plain_lines(r), maxcues=n or 3)
    if fmt == "vtt":
        return docs.vtt_doc(r, textfn=lambda: bodies.vtt_lines(r), maxcues=n or 3, ordered=True)
    if fmt == "mdvd":
        return docs.mdvd_doc(r, textfn=lambda: bodies.plain_lines(r, pipe=False), maxcues=n or 4)
    if fmt == "dfxp":
        return docs.dfxp_doc(r, bodyfn=lambda: bodies.dfxp_body(r), maxps=n or 3)
    return docs.sami_doc(r, bodyfn=lambda: bodies.sami_body(r), maxsync=n or 3)


TT = "<tt xmlns=\"http://www.w3.org/ns/ttml\" xmlns:tts=\"http://www.w3.org/ns/ttml#styling\" xml:lang=\"en\"><body><div><p begin=\"1s\" end=\"2s\">%s</p></div></body></tt>"
SM = ("<SAMI><HEAD><STYLE TYPE=\"text/css\"><!-- .E {lang: en;} --></STYLE></HEAD><BODY>"
      "<SYNC start=5000><P class=E>%s</P></SYNC></BODY></SAMI>")
PROBES = {
    # known findings
    "dfxp-c1-reference": ("dfxp", TT % "a&#133;b"),
    "sami-html5-reference": ("sami", SM % "&starf;_&starf;"),
    # regressions of repaired defects
    "srt-u2028": ("srt", "1\n00:00:01,000 --> 00:00:02,000\na\u2028b\x0cc\x85d\n"),
    "mdvd-u2028": ("mdvd", "{1}{2}a\u2028b|c\n"),
    "vtt-double-escape": ("vtt", "WEBVTT\n\n00:01.000 --> 00:02.000\n&amp;lt; &amp;amp; &quot;&#65; <car> <v.loud Bob>x</v> <bold>\n"),
    "dfxp-wrapped": ("dfxp", TT % "one\ntwo\n three<br/>\nfour <span tts:color=\"red\">five\nsix</span>\nseven<!-- no -->"),
    "dfxp-cdata-apos": ("dfxp", TT % "<![CDATA[&apos;<&]]>"),
    "sami-double-escape": ("sami", SM % "&amp;lt; &amp;amp;lt; &#38;lt; &amp;nbsp; one\ntwo\nthree AT&T"),
    "sami-ampersand-at-end": ("sami", SM.replace("</P></SYNC></BODY></SAMI>", "") % "a & b"),
}


class C04(Check):
    prop = "C04"
    assumptions = ["SRT and MicroDVD text is literal: neither base format defines inline markup",
                   "DFXP elements are all of the default namespace, or all of one prefix the root binds; metadata and foreign elements only inside paragraphs",
                   "documents do not contain '<html' or 'no closed captioning available', which SAMIReader rejects by design"]

    def scenarios(self):
        n = self.n(900, 12000)
        return [{"fmt": f, "seed": f"C04-{self.seed}-{f}-{i}"} for f in ("srt", "vtt", "mdvd", "dfxp", "sami") for i in range(n)] + [
            {"fmt": f, "many": True, "seed": f"C04-many-{self.seed}-{f}-{i}"} for f in ("srt", "vtt", "mdvd", "dfxp", "sami") for i in range(self.n(3, 30))] + [
            {"kind": "probe", "name": k, "fmt": v[0], "doc": v[1]} for k, v in PROBES.items()]

    @staticmethod
    def execute(scn):
        fmt = scn["fmt"]
        r = random.Random(scn.get("seed"))
        doc = scn["doc"] if "doc" in scn else document(r, fmt, r.choice([14, 30, 110]) if scn.get("many") else None)
        e = read_doc_event(fmt, doc, {"lang": "en-US" if fmt in ("srt", "vtt") else "und"})
        for x in e["res"]["langs"]:
            for c in x["caps"]:
                for k in ("s", "e"):
                    del c[k]
        e["scn"] = scn
        if "name" in scn:
            e["probe"] = scn["name"]
        return e
