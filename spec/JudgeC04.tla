------------------------------ MODULE JudgeC04 ------------------------------
(***************************************************************************)
(* C04: read text equals authored text.  Event: [fmt, doc, opts, res].     *)
(* The lines of each caption are the lines a conformant consumer of the    *)
(* format displays, up to trimming and collapsing of white space.          *)
(***************************************************************************)
EXTENDS JudgeCore, Consume

\* marks before which a source line break next to a tag may be no blank
Closing == SeqRange(S(".,:;!?%)]}>")) \cup {8230, 8221, 8217, 187}
\* white-space runs collapsed, to WRAPC where one is part of them
NormWrap(s) ==
  LET st == FoldLeft(LAMBDA a, c :
              IF IsWs(c) THEN [a EXCEPT !.sp = IF a.out = <<>> THEN 0 ELSE IF c = WRAPC \/ a.sp = WRAPC THEN WRAPC ELSE SP]
              ELSE [out |-> IF a.sp # 0 THEN a.out \o <<a.sp, c>> ELSE Append(a.out, c), sp |-> 0],
              [out |-> <<>>, sp |-> 0], s)
  IN st.out
LineEq(exp, got) ==
  LET e == NormWrap(exp)
      g == Norm(got)
      G(j) == IF j <= Len(g) THEN g[j] ELSE 0
      J == FoldLeft(LAMBDA j, i :
             IF j = 0 THEN 0
             ELSE IF e[i] = WRAPC
                  THEN IF G(j) = SP THEN j + 1 ELSE IF e[i + 1] \in Closing THEN j ELSE 0
                  ELSE IF G(j) = e[i] THEN j + 1 ELSE 0, 1, Force([i \in 1..Len(e) |-> i]))
  IN J = Len(g) + 1
Solid(ls) == SelectSeq(ls, LAMBDA x : ~ IsBlank(x))
LinesEq(exp, got) ==
  LET a == Solid(exp)
      b == Solid(got)
  IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : LineEq(a[i], b[i])

HasText(lines) == NormLines(lines) # <<>>
\* a cue of nothing but no-break spaces (&nbsp;) may be kept or left out
SoftBlank(lines) == ~ HasText(lines) /\ \E i \in 1..Len(lines) : 160 \in SeqRange(lines[i])
Expect(e) ==
  CASE e.fmt = "vtt" ->   \* unknown tags stay literal: pycaption's documented reading
         LET p == VttParse(e.doc)
             t == Force([i \in 1..Len(p.cues) |-> VttText(JoinLF(p.cues[i].lines))])
         IN [wf |-> p.wf /\ \A i \in 1..Len(t) : t[i].wf /\ t[i].bal,
             ls |-> <<[lang |-> e.opts.lang,
                       cues |-> Force([i \in 1..Len(t) |-> [lines |-> SplitC(Plain(t[i].chars), LF)]])]>>]
    [] e.fmt = "srt" ->
         LET p == SrtParse(e.doc) IN [wf |-> p.wf, ls |-> <<[lang |-> e.opts.lang, cues |-> p.cues]>>]
    [] e.fmt = "dfxp" ->
         LET p == TtmlParse(e.doc)
             LangOf(d) == IF d.has THEN d.lang ELSE IF p.z.hasTtLang THEN p.z.ttlang ELSE e.opts.lang
             order == FoldLeft(LAMBDA a, d : IF LangOf(d) \in SeqRange(a) THEN a ELSE Append(a, LangOf(d)), <<>>, p.z.divs)
             Of(lg) == Concat(Force([i \in 1..Len(p.z.divs) |-> IF LangOf(p.z.divs[i]) = lg THEN p.z.divs[i].ps ELSE <<>>]))
         IN [wf |-> p.wf /\ ~ p.z.stray,
             ls |-> Force([i \in 1..Len(order) |->
                      [lang |-> order[i], cues |-> MapSeq(Of(order[i]), LAMBDA q : [lines |-> LinesOf(q.chars)])]])]
    [] OTHER -> ConsumeDoc(e.fmt, e.doc, FALSE, e.opts.lang)

V_C04(e) ==
  LET x == Expect(e)
      ne == Force([i \in 1..Len(x.ls) |-> [lang |-> x.ls[i].lang, cues |-> SelectSeq(x.ls[i].cues, LAMBDA c : HasText(c.lines))]])
      exp == SelectSeq(ne, LAMBDA q : q.cues # <<>>)
      GotOf(lg) == LET I == {i \in 1..Len(e.res.langs) : e.res.langs[i].lang = lg}
                   IN IF I = {} THEN <<>> ELSE e.res.langs[CHOOSE i \in I : TRUE].caps
      LangV(q) ==
        LET had == {i \in 1..Len(x.ls) : x.ls[i].lang = q.lang /\ \E c \in SeqRange(x.ls[i].cues) : SoftBlank(c.lines)}
            got == IF had = {} THEN GotOf(q.lang) ELSE SelectSeq(GotOf(q.lang), LAMBDA c : HasText(c.lines))
        IN IF Len(got) # Len(q.cues) THEN {"count"}
           ELSE IF \A i \in 1..Len(got) : LinesEq(q.cues[i].lines, got[i].lines) THEN {}
           ELSE IF \A i \in 1..Len(got) : Squeeze(FlattenLines(got[i].lines)) = Squeeze(FlattenLines(q.cues[i].lines))
                THEN {"line_breaks"} ELSE {"text"}
      bad == IF ~ x.wf THEN {"GENERATOR"}
             ELSE IF exp = <<>> THEN {}
             ELSE IF ~ e.res.ok THEN {"raised"}
             ELSE UNION {LangV(exp[i]) : i \in 1..Len(exp)}
      T(name, b) == IF b THEN {e.fmt \o "_" \o name} ELSE {}
      tags == {e.fmt} \cup T("reference", AMP \in SeqRange(e.doc)) \cup T("double_escaped", Has(e.doc, S("&amp;lt;")) \/ Has(e.doc, S("&#38;")))
              \cup T("span", Has(e.doc, S("span"))) \cup T("cdata", Has(e.doc, S("<![CDATA"))) \cup T("comment", Has(e.doc, S("<!-- c")))
              \cup T("voice", Has(e.doc, S("<v"))) \cup T("timestamp_tag", Has(e.doc, S("<0")))
  IN [bad |-> bad, tags |-> tags]
=============================================================================
