------------------------------ MODULE JudgeC08 ------------------------------
(***************************************************************************)
(* C08: conversion chains.  Event: [set: the caption set before the chain, *)
(* chain: formats, steps: the set read back after each step (twice as many *)
(* as there are formats: the chain runs two times), ok, exc].              *)
(***************************************************************************)
EXTENDS JudgeCore, Convert

View(ls) == MapSeq(ls, LAMBDA l : [lang |-> l.lang,
              caps |-> MapSeq(l.caps, LAMBDA c : [s |-> Instant(c.s), e |-> Instant(c.e), lines |-> NormLines(c.lines)])])
TimesOf(caps) == MapSeq(caps, LAMBDA c : <<c.s, c.e>>)
TextOf(caps) == MapSeq(caps, LAMBDA c : c.lines)
FlatOf(caps) == MapSeq(caps, LAMBDA c : FlattenLines(c.lines))

\* (a SAMI document lists the languages in the order of their first cues: C14)
StepV(exp, got) ==
  IF \/ Len(exp) # Len(got)
     \/ {exp[i].lang : i \in 1..Len(exp)} # {got[i].lang : i \in 1..Len(got)}
  THEN {"languages"}
  ELSE UNION {LET x == exp[i].caps
                  y == got[CHOOSE k \in 1..Len(got) : got[k].lang = exp[i].lang].caps
              IN IF Len(x) # Len(y) THEN {"count"}
                 ELSE (IF TimesOf(x) # TimesOf(y) THEN {"times"} ELSE {})
                   \cup (IF TextOf(x) = TextOf(y) THEN {}
                         ELSE IF FlatOf(x) = FlatOf(y) THEN {"line_breaks"} ELSE {"text"})
              : i \in 1..Len(exp)}
\* numbers a reader returns are whole microseconds
AllInts(ls) == \A i \in 1..Len(ls) : \A k \in 1..Len(ls[i].caps) : ls[i].caps[k].s.k = "int" /\ ls[i].caps[k].e.k = "int"

V_C08(e) ==
  LET n == Len(e.chain)
      m == Len(e.steps)
      fmts == e.chain \o e.chain
      exp == FoldLeft(LAMBDA a, f : Append(a, Apply(f, a[Len(a)])), <<View(e.set)>>, fmts)
      got == MapSeq(e.steps, View)
      wrong == {k \in 1..m : StepV(exp[k + 1], got[k]) # {}}
      first == IF wrong = {} THEN 0 ELSE MinOf(wrong)
      bad == (IF e.ok THEN {} ELSE {"raised_" \o e.exc.at})
             \cup (IF first = 0 THEN {} ELSE {c \o "_" \o fmts[first] : c \in StepV(exp[first + 1], got[first])})
             \cup (IF \E k \in 1..m : ~ AllInts(e.steps[k]) THEN {"not_integer"} ELSE {})
             \cup (IF first = 0 /\ e.ok /\ exp[n + 1] # exp[2 * n + 1] THEN {"SPEC"} ELSE {})
             \cup (IF e.ok /\ m = 2 * n /\ got[n] # got[2 * n] THEN {"drift"} ELSE {})
      T(name, b) == IF b THEN {name} ELSE {}
      tags == {fmts[k] : k \in 1..n} \cup T("long_chain", n >= 4) \cup T("multi_language", Len(e.set) > 1)
              \cup T("srt_merge", \E k \in 1..m : \E i \in 1..Len(got[k]) : k > 1 /\ i <= Len(got[k - 1]) /\ Len(got[k][i].caps) < Len(got[k - 1][i].caps))
              \cup {fmts[k] \o "_" \o fmts[k + 1] : k \in 1..(n - 1)}
  IN [bad |-> bad, tags |-> tags]
=============================================================================
