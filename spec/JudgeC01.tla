------------------------------ MODULE JudgeC01 ------------------------------
(***************************************************************************)
(* C01: reading preserves every cue's start and end instant.               *)
(* Event: [fmt, doc, opts, res].  The document is parsed by the conformant *)
(* consumer of its format; the captions must be exactly its non-empty cues *)
(* in order, with the instants it denotes as integer microseconds.         *)
(***************************************************************************)
EXTENDS JudgeCore, Srt, Vtt, Mdvd, Ttml, Sami

HasText(lines) == \E i \in 1..Len(lines) : Norm(lines[i]) # <<>>
NonEmpty(cues) == SelectSeq(cues, LAMBDA c : HasText(c.lines))

\* expected: sequence of [lang, cues]
Expect(e) ==
  CASE e.fmt = "srt" ->
         LET p == SrtParse(e.doc) IN [wf |-> p.wf, ls |-> <<[lang |-> e.opts.lang, cues |-> NonEmpty(p.cues)]>>]
    [] e.fmt = "vtt" ->
         LET p == VttParse(e.doc)
             sh == [s |-> e.opts.shs, u |-> e.opts.shu]
             cs == NonEmpty(p.cues)
         IN [wf |-> p.wf, ls |-> <<[lang |-> e.opts.lang,
               cues |-> Force([i \in 1..Len(cs) |-> [s |-> AddT(cs[i].s, sh), e |-> AddT(cs[i].e, sh), lines |-> cs[i].lines]])]>>]
    [] e.fmt = "mdvd" ->
         LET p == MdvdParse(e.doc) IN [wf |-> p.wf, ls |-> <<[lang |-> e.opts.lang, cues |-> NonEmpty(p.cues)]>>]
    [] e.fmt = "dfxp" ->
         LET p == TtmlParse(e.doc)
             LangOf(d) == IF d.has THEN d.lang ELSE IF p.z.hasTtLang THEN p.z.ttlang ELSE e.opts.lang
             order == FoldLeft(LAMBDA a, d : IF LangOf(d) \in SeqRange(a) THEN a ELSE Append(a, LangOf(d)), <<>>, p.z.divs)
             Of(lg) == Concat(Force([i \in 1..Len(p.z.divs) |-> IF LangOf(p.z.divs[i]) = lg THEN p.z.divs[i].ps ELSE <<>>]))
             Cues(lg) == LET ps == Of(lg) IN NonEmpty(Force([i \in 1..Len(ps) |-> TtCueF(ps[i], FpsOf(p.z.ttattrs))]))
         IN [wf |-> p.wf /\ ~ p.z.stray /\ (\A i \in 1..Len(p.z.divs) : \A k \in 1..Len(p.z.divs[i].ps) : TtCueF(p.z.divs[i].ps[k], FpsOf(p.z.ttattrs)).ok),
             ls |-> Force([i \in 1..Len(order) |-> [lang |-> order[i], cues |-> Cues(order[i])]])]
    [] e.fmt = "sami" ->
         LET p == SamiParse(e.doc, e.opts.lang)
             ls == SamiLangs(p.ps)
         IN [wf |-> p.wf, ls |-> Force([i \in 1..Len(ls) |-> [lang |-> ls[i], cues |-> SamiCues(p.ps, ls[i])]])]

SameInst(got, t) == got.k = "int" /\ got.s = t.s /\ got.u = t.u

LangVerdict(exp, got) ==
  IF Len(exp) # Len(got) THEN {"count"}
  ELSE (IF \E i \in 1..Len(exp) : ~ SameInst(got[i].s, exp[i].s) THEN {"start"} ELSE {})
       \cup (IF \E i \in 1..Len(exp) : ~ SameInst(got[i].e, exp[i].e) THEN {"end"} ELSE {})
       \cup (IF \E i \in 1..Len(exp) : FlattenLines(NormLines(got[i].lines)) = <<>> THEN {"empty_caption"} ELSE {})

V_C01(e) ==
  LET x == Expect(e)
      exp == SelectSeq(x.ls, LAMBDA q : q.cues # <<>>)
      got == SelectSeq(e.res.langs, LAMBDA q : q.caps # <<>>)
      GotOf(lg) == LET I == {i \in 1..Len(got) : got[i].lang = lg}
                   IN IF I = {} THEN <<>> ELSE got[CHOOSE i \in I : TRUE].caps
      bad == IF ~ x.wf THEN {"GENERATOR"}
             ELSE IF exp = <<>>
                  THEN IF e.res.ok THEN {"captions_from_nothing"}
                       ELSE IF e.res.exc = "CaptionReadNoCaptions" THEN {} ELSE {"wrong_exception"}
             ELSE IF ~ e.res.ok THEN {"raised"}
             ELSE (UNION {LangVerdict(exp[i].cues, GotOf(exp[i].lang)) : i \in 1..Len(exp)})
                  \cup (IF {exp[i].lang : i \in 1..Len(exp)} # {got[i].lang : i \in 1..Len(got)} THEN {"languages"} ELSE {})
      ncues == FoldLeft(LAMBDA a, q : a + Len(q.cues), 0, x.ls)
      cues == Concat(Force([i \in 1..Len(exp) |-> exp[i].cues]))
      tags == {e.fmt}
              \cup (IF ncues = 0 THEN {e.fmt \o "_no_cue"} ELSE {})
              \cup (IF ncues > 1 THEN {e.fmt \o "_many_cues"} ELSE {})
              \cup (IF \E i \in 1..Len(cues) : cues[i].s.s >= 86400 THEN {e.fmt \o "_beyond_24h"} ELSE {})
              \cup (IF \E i \in 1..Len(cues) : cues[i].s.u % 1000 # 0 THEN {e.fmt \o "_submillisecond"} ELSE {})
              \cup (IF Len(exp) > 1 THEN {e.fmt \o "_multi_language"} ELSE {})
  IN [bad |-> bad, tags |-> tags]
=============================================================================
