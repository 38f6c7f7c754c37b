------------------------------ MODULE JudgeC07 ------------------------------
(***************************************************************************)
(* C07: DFXP output is well-formed XML and internally consistent.          *)
(* Event: [fmt (dfxp | single | legacy), langs: the languages written,     *)
(*         with the instants of their captions, out, lxml: did a strict    *)
(*         XML parser accept the document].                                *)
(***************************************************************************)
EXTENDS JudgeCore, Ttml

TtNs == S("http://www.w3.org/ns/ttml")
Ms(t) == [s |-> t.s, u |-> MsOf(t)]
\* consecutive captions with identical times count once (legacy, single)
RunCount(caps) ==
  FoldLeft(LAMBDA a, c : [n |-> IF a.n > 0 /\ a.s = c.s /\ a.e = c.e THEN a.n ELSE a.n + 1, s |-> c.s, e |-> c.e],
           [n |-> 0, s |-> T0, e |-> T0], caps).n
\* a language code as an attribute value can hold it
AsAttr(c) == Force([i \in 1..Len(c) |-> IF IsXmlWs(c[i]) THEN 32 ELSE c[i]])
XmlOnly(c) == SelectSeq(c, LAMBDA x : XmlChar(x))

Counts(xs, v) == Cardinality({i \in 1..Len(xs) : xs[i] = v})
RefWhole(z, k) == MapSeq(SelectSeq(z.refs, LAMBDA r : r.k = k), LAMBDA r : r.v)

V_C07(e) ==
  LET p == TtmlParse(e.out.doc)
      z == p.z
      headstyles == SelectSeq(z.styles, LAMBDA s : ~ s.inreg)
      sids == MapSeq(headstyles, LAMBDA s : s.id)
      rids == MapSeq(z.regions, LAMBDA r : r.id)
      srefs == RefWhole(z, "style")
      rrefs == RefWhole(z, "region")
      want(i) == IF e.fmt = "dfxp" THEN Len(e.langs[i].caps) ELSE RunCount(e.langs[i].caps)
      nd == Len(z.divs)
      caps == Concat(Force([i \in 1..Len(e.langs) |-> e.langs[i].caps]))
      bad == IF ~ e.out.ok THEN {"raised"}
             ELSE IF ~ p.wf \/ ~ e.lxml THEN {"malformed"}
             ELSE (IF z.tt # 1 \/ z.ns # TtNs THEN {"root"} ELSE {})
               \cup (IF nd # Len(e.langs) \/ z.nested THEN {"divs"}
                     ELSE (IF \E i \in 1..nd : AsAttr(z.divs[i].lang) # AsAttr(XmlOnly(e.langs[i].lang)) THEN {"div_lang"} ELSE {})
                       \cup (IF \E i \in 1..nd : Len(z.divs[i].ps) # want(i) THEN {"ps"} ELSE {})
                       \cup (IF \E i \in 1..nd : \E k \in 1..Len(z.divs[i].ps) :
                               LET q == z.divs[i].ps[k] IN ~ (q.hb /\ q.he /\ TtCue(q).ok) THEN {"times"} ELSE {}))
               \cup (IF z.stray THEN {"stray"} ELSE {})
               \cup (IF \E i \in 1..Len(z.ids) : Counts(z.ids, z.ids[i]) # 1 THEN {"ids"} ELSE {})
               \cup (IF \E i \in 1..Len(srefs) : Counts(sids, srefs[i]) # 1 THEN {"style_ref"} ELSE {})
               \cup (IF \E i \in 1..Len(rrefs) : Counts(rids, rrefs[i]) # 1 THEN {"region_ref"} ELSE {})
               \cup (IF \E i \in 1..Len(rids) : Counts(rrefs, rids[i]) = 0 THEN {"region_unused"} ELSE {})
      T(name, b) == IF b THEN {name} ELSE {}
      tags == {e.fmt, e.src}
              \cup T("several_regions", Len(rids) > 1)
              \cup T("style_references", Len(srefs) > 0)
              \cup T("spans", Len(z.divs) > 0 /\ \E i \in 1..nd : \E k \in 1..Len(z.divs[i].ps) : z.divs[i].ps[k].spans # <<>>)
              \cup T("multi_language", Len(e.langs) > 1)
              \cup T("no_captions", caps = <<>>)
              \cup T("concurrent", \E i \in 1..(Len(caps) - 1) : caps[i].s = caps[i + 1].s /\ caps[i].e = caps[i + 1].e)
  IN [bad |-> bad, tags |-> tags]
=============================================================================
