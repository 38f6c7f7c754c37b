------------------------------ MODULE JudgeC19 ------------------------------
(***************************************************************************)
(* C19: timing adjustment and concurrent-caption merging.                  *)
(*  [ev: "adjust", n, off, before, after]   skew n/1000, offset            *)
(*  [ev: "merge", before, after]                                           *)
(*  before, after: per language [lang, caps: [s, e, ns]], nodes as numbers *)
(*  naming distinct contents (type, text, style, layout), 0: a plain break *)
(***************************************************************************)
EXTENDS JudgeCore, Num
BRK == 0
R == INSTANCE Retime

T(i) == [s |-> i.s, u |-> i.u]
Lift(caps) == Force([i \in 1..Len(caps) |-> [s |-> T(caps[i].s), e |-> T(caps[i].e), ns |-> caps[i].ns]])
Langs(ls) == Force([i \in 1..Len(ls) |-> ls[i].lang])
\* a recorded number of microseconds within a thousandth of the exact result w + wf/1000
\* (within one microsecond where floating-point numbers are coarser than that)
Within(w, wf, exact, g) ==
  g.k # "bad" /\
  LET d == SubT(T(g), w)
      k == IF d.s = 0 /\ d.u <= 1 THEN d.u ELSE IF d.s = 0 - 1 /\ d.u = MICRO - 1 THEN 0 - 1 ELSE 9
      x == k * 1000 + g.f - wf
  IN k # 9 /\ (exact /\ w.s < 100000 /\ w.s > 0 - 100000 => x >= 0 - 1 /\ x <= 1)
Eq(a, b) == \A i \in 1..Len(a) : a[i].s = b[i].s /\ a[i].e = b[i].e

AdjustV(e) ==
  LET per(i) ==
        LET want == R!Retimed(Lift(e.before[i].caps), e.n, T(e.off))
            got == e.after[i].caps
        IN (IF Len(want) # Len(got) THEN {"dropped"}
            ELSE (IF \E k \in 1..Len(got) : want[k].ns # got[k].ns THEN {"nodes"} ELSE {})
                 \cup (IF \E k \in 1..Len(got) : ~ Within(want[k].s, want[k].sf, e.exact, got[k].s) THEN {"start"} ELSE {})
                 \cup (IF \E k \in 1..Len(got) : ~ Within(want[k].e, want[k].ef, e.exact, got[k].e) THEN {"end"} ELSE {}))
  IN UNION {per(i) : i \in 1..Len(e.before)}
MergeV(e) ==
  LET per(i) ==
        LET want == R!Merged(Lift(e.before[i].caps))
            got == Lift(e.after[i].caps)
        IN (IF Len(want) # Len(got) THEN {"count"}
            ELSE (IF Force([k \in 1..Len(got) |-> want[k].ns]) # Force([k \in 1..Len(got) |-> got[k].ns]) THEN {"nodes"} ELSE {})
                 \cup (IF ~ Eq(want, got) THEN {"times"} ELSE {}))
           \cup (IF e.again /\ got # Lift(e.before[i].caps) THEN {"idempotence"} ELSE {})
  IN UNION {per(i) : i \in 1..Len(e.before)}

V_C19(e) ==
  LET bad == IF ~ e.ok THEN {"raised"}
             ELSE IF Langs(e.before) # Langs(e.after) THEN {"languages"}
             ELSE IF e.ev = "adjust" THEN AdjustV(e) ELSE MergeV(e)
      Tg(name, b) == IF b THEN {name} ELSE {}
      L(ls) == FoldLeft(LAMBDA a, q : a + Len(q.caps), 0, ls)
  IN [bad |-> bad,
      tags |-> {e.ev} \cup Tg("fewer_captions", L(e.after) < L(e.before)) \cup Tg("all_dropped", L(e.after) = 0 /\ L(e.before) > 0)
               \cup Tg("languages", Len(e.before) > 1)
               \cup Tg("same_start_other_end", \E i \in 1..Len(e.before) : \E k \in 2..Len(e.before[i].caps) :
                         e.before[i].caps[k].s = e.before[i].caps[k - 1].s /\ e.before[i].caps[k].e # e.before[i].caps[k - 1].e)]
=============================================================================
