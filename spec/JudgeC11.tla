------------------------------ MODULE JudgeC11 ------------------------------
(***************************************************************************)
(* C11: italic, bold and underline spans survive and stay balanced.        *)
(*                                                                         *)
(* The state of a caption is the sequence of its visible characters, each  *)
(* with the set of styles (subset of {"i","b","u"}) in force; STYLE nodes  *)
(* are the transitions of a stack.                                         *)
(*  read: [fmt, ls, flat, src]     a caption set some reader returned; src *)
(*        is the document if it is DFXP or SAMI and empty otherwise          *)
(*  conv: [ls, steps: <<[fmt, ok, exc, doc, back]>>, flat]                 *)
(*        ls: the set; each step wrote the current set as doc and, for     *)
(*        DFXP and SAMI, read it back (ls of back), which is the next set  *)
(*  ls: per language [lang, caps: [st, ns]]; st: styles of the caption as  *)
(*  a whole; ns: nodes [k: "t" | "b" | "s", c: text, on, st]               *)
(***************************************************************************)
EXTENDS JudgeCore, Vtt, Ttml, Sami

\* ------------------------------------------------------------ the model
Flags(st) == SeqRange(st)
\* a run of the style stack over the nodes
RunNodes(cap) ==
  LET Step(a, n) ==
        CASE n.k = "s" /\ n.on -> [a EXCEPT !.stack = Append(@, Flags(n.st))]
          [] n.k = "s" -> IF a.stack = <<>> THEN [a EXCEPT !.bal = FALSE]
                          ELSE [a EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1),
                                         !.match = @ /\ a.stack[Len(a.stack)] = Flags(n.st)]
          [] n.k = "t" -> LET cur == Flags(cap.st) \cup UNION SeqRange(a.stack)
                              cs == SelectSeq(n.c, LAMBDA x : ~ IsWs(x))
                          IN [a EXCEPT !.out = @ \o Force([i \in 1..Len(cs) |-> [c |-> cs[i], st |-> cur]])]
          [] OTHER -> a
  IN FoldLeft(Step, [stack |-> <<>>, bal |-> TRUE, match |-> TRUE, out |-> <<>>], cap.ns)
Balanced(cap) == LET r == RunNodes(cap) IN r.bal /\ r.stack = <<>> /\ r.match
Marks(caps) == Concat(Force([i \in 1..Len(caps) |-> RunNodes(caps[i]).out]))
SetMarks(ls) == Force([i \in 1..Len(ls) |-> [lang |-> ls[i].lang, m |-> Marks(ls[i].caps)]])

\* ------------------------------------------------------------ documents
Vis(chars) == LET v == SelectSeq(chars, LAMBDA x : x.c > 0 /\ x.c # WRAPC /\ ~ IsWs(x.c))
              IN Force([i \in 1..Len(v) |-> [c |-> v[i].c, st |-> v[i].st]])
DocMarks(fmt, doc) ==   \* [wf, ls]
  CASE fmt = "vtt" ->
         LET p == VttParse(doc)
             t == Force([i \in 1..Len(p.cues) |-> VttText(JoinLF(p.cues[i].lines))])
         IN [wf |-> p.wf /\ \A i \in 1..Len(t) : t[i].wf /\ t[i].bal /\ ~ t[i].unk,
             ls |-> <<[lang |-> <<>>, m |-> Concat(Force([i \in 1..Len(t) |-> Vis(t[i].chars)]))]>>]
    [] fmt = "sami" ->
         LET p == SamiParse(doc, S("und"))
             lg == SamiLangs(p.ps)
             Of(x) == SelectSeq(p.ps, LAMBDA q : q.lang = x)
         IN [wf |-> p.wf /\ p.bal,
             ls |-> Force([i \in 1..Len(lg) |-> [lang |-> lg[i],
                      m |-> Concat(MapSeq(Of(lg[i]), LAMBDA q : Vis(q.chars)))]])]
    [] OTHER ->
         LET p == TtmlParse(doc)
         IN [wf |-> p.wf /\ ~ p.z.stray,
             ls |-> Force([i \in 1..Len(p.z.divs) |-> [lang |-> p.z.divs[i].lang,
                      m |-> Concat(MapSeq(p.z.divs[i].ps, LAMBDA q : Vis(q.chars)))]])]

\* ------------------------------------------------------------ comparison
Carries(fmt) == IF fmt \in {"vtt", "sami"} THEN {"i", "b", "u"} ELSE {"i"}
Only(m, k) == Force([i \in 1..Len(m) |-> [c |-> m[i].c, st |-> m[i].st \cap k]])
Letters(m) == Force([i \in 1..Len(m) |-> m[i].c])
MOf(ls, lang) == LET I == {i \in 1..Len(ls) : ls[i].lang = lang} IN IF I = {} THEN <<>> ELSE ls[CHOOSE i \in I : TRUE].m
\* want, got: marks; keep: the styles that must be the same; the others may only have got lost
Cmp(want, got, keep) ==
  IF Letters(want) # Letters(got) THEN {"text"}
  ELSE (IF \E i \in 1..Len(want) : "i" \in (want[i].st \cap keep) \ got[i].st THEN {"italic_lost"} ELSE {})
       \cup (IF \E i \in 1..Len(want) : "i" \in got[i].st \ want[i].st THEN {"italic_invented"} ELSE {})
       \cup (IF \E i \in 1..Len(want) : (want[i].st \cap keep \cap {"b", "u"}) \ got[i].st # {} THEN {"bold_underline_lost"} ELSE {})
       \cup (IF \E i \in 1..Len(want) : {"b", "u"} \cap (got[i].st \ want[i].st) # {} THEN {"bold_underline_invented"} ELSE {})
CmpAll(want, got, keep) == UNION {Cmp(want[i].m, MOf(got, want[i].lang), keep) : i \in 1..Len(want)}

StepV(want, s, flat, keep) ==
  IF ~ s.ok THEN {"raised"}
  ELSE LET d == DocMarks(s.fmt, s.doc)
           k == keep \cap Carries(s.fmt)
       IN IF ~ d.wf THEN {"unbalanced_output"}
          ELSE IF ~ flat THEN {}
          ELSE IF s.fmt = "vtt" THEN Cmp(want[1].m, d.ls[1].m, k)
          ELSE CmpAll(want, d.ls, k)
               \cup (IF s.back = <<>> THEN {} ELSE CmpAll(want, SetMarks(s.back), k))
AllBalanced(ls) == \A i \in 1..Len(ls) : \A k \in 1..Len(ls[i].caps) : Balanced(ls[i].caps[k])

\* the steps in turn; want: what the current set marks, keep: what still has to be there
Chain(e) ==
  FoldLeft(LAMBDA a, s :
             LET v == StepV(a.want, s, e.flat, a.keep)
             IN IF a.bad # {} THEN a
                ELSE [bad |-> v \cup (IF s.ok /\ ~ AllBalanced(s.back) THEN {"unbalanced_reader"} ELSE {}),
                      keep |-> a.keep \cap Carries(s.fmt),
                      want |-> a.want],
           [bad |-> {}, keep |-> {"i", "b", "u"}, want |-> SetMarks(e.ls)], e.steps).bad

\* what a reader returns marks what the document marks
ReadV(e) ==
  IF ~ AllBalanced(e.ls) THEN {"unbalanced_reader"}
  ELSE IF e.src = <<>> THEN {}
  ELSE LET d == DocMarks(e.fmt, e.src)
       IN IF ~ d.wf THEN {}        \* spans that are not properly nested
          ELSE CmpAll(d.ls, SetMarks(e.ls), {"i", "b", "u"})

V_C11(e) ==
  LET bad == IF e.ev = "read" THEN ReadV(e)
             ELSE IF ~ AllBalanced(e.ls) THEN (IF e.built THEN {"GENERATOR"} ELSE {"unbalanced_reader"})
             ELSE Chain(e)
      caps == Concat(Force([i \in 1..Len(e.ls) |-> e.ls[i].caps]))
      AnyN(P(_)) == \E i \in 1..Len(caps) : \E k \in 1..Len(caps[i].ns) : P(caps[i].ns[k])
      Adj(P(_, _)) == \E i \in 1..Len(caps) : \E k \in 1..(Len(caps[i].ns) - 1) : P(caps[i].ns[k], caps[i].ns[k + 1])
      T(name, b) == IF b THEN {name} ELSE {}
      tags == {e.ev \o "_" \o e.fmt}
              \cup (IF e.ev = "conv" THEN {"write_" \o e.steps[i].fmt : i \in 1..Len(e.steps)} ELSE {})
              \cup T("styled", AnyN(LAMBDA n : n.k = "s" /\ n.st # <<>>))
              \cup T("empty_span", Adj(LAMBDA a, b : a.k = "s" /\ a.on /\ b.k = "s" /\ ~ b.on))
              \cup T("adjacent_spans", Adj(LAMBDA a, b : a.k = "s" /\ ~ a.on /\ b.k = "s" /\ b.on))
              \cup T("break_after_open", Adj(LAMBDA a, b : a.k = "s" /\ a.on /\ b.k = "b"))
              \cup T("break_before_close", Adj(LAMBDA a, b : a.k = "b" /\ b.k = "s" /\ ~ b.on))
  IN [bad |-> bad, tags |-> tags]
=============================================================================
