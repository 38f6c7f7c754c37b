------------------------------ MODULE CeaTiming -----------------------------
(***************************************************************************)
(* When pop-on captions are shown.  A display log is a sequence of [t, v]: *)
(* at t (ticks of 1/30000 s) the display changes to v, 0 for a blank one.  *)
(* Screens(log) says what was on display from when to when; Timed applies  *)
(* the reader's conventions: the offset, instants before 0, gaps of fewer  *)
(* than five frames, the four seconds of a last caption never cleared.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

NEVER == -1
FourSeconds == 120000
FiveFrames == 5005      \* of the longer, non-drop frames; 5000 of the others
Floor0(x) == IF x < 0 THEN 0 ELSE x
Screens(log) ==
  LET I == SelectSeq([i \in 1..Len(log) |-> i], LAMBDA i : log[i].v # 0)
  IN [k \in 1..Len(I) |-> [s |-> log[I[k]].t, e |-> IF I[k] < Len(log) THEN log[I[k] + 1].t ELSE NEVER, v |-> log[I[k]].v]]
\* [s, raw: end as sent, e: end as returned, either: both are the specification's]
\* zero: the tick of time zero
TimedFrom(log, off, zero) ==
  LET q == Screens(log)
      n == Len(q)
      at(x) == IF x < zero THEN zero ELSE x
      s(k) == at(q[k].s - off)
      raw(k) == IF q[k].e = NEVER THEN s(k) + FourSeconds ELSE at(q[k].e - off)
      gap(k) == s(k + 1) - raw(k)
  IN [k \in 1..n |-> [s |-> s(k), raw |-> raw(k), v |-> q[k].v,
                      e |-> IF k < n /\ q[k].e # NEVER /\ gap(k) < FiveFrames THEN s(k + 1) ELSE raw(k),
                      either |-> k < n /\ gap(k) >= 5000 /\ gap(k) <= FiveFrames]]
Timed(log, off) == TimedFrom(log, off, 0)
\* a displayed duration under 0.05 s
Flash == 1500
=============================================================================
