------------------------------ MODULE MC_Timing -----------------------------
(***************************************************************************)
(* The queue of displayed pop-on cues: a cue waits, without an end, until  *)
(* the next end-of-caption or erase code ends it; a stored caption's end   *)
(* moves up to the start of the next when that is near.  Checked to give   *)
(* what CeaTiming says, for every history of codes up to MaxLen.           *)
(***************************************************************************)
EXTENDS CeaTiming
CONSTANTS MaxLen, Gaps, Offsets
VARIABLES log, t, queue, stored, off
vars == <<log, t, queue, stored, off>>

Init == log = <<>> /\ t = 0 /\ queue = <<>> /\ stored = <<>> /\ off \in Offsets
At(x) == Floor0(x - off)
\* storing a caption ends, or extends, the one before
Store(st, c) ==
  LET n == Len(st)
      joined == IF n > 0 /\ (st[n].e = NEVER \/ c.s - st[n].e < FiveFrames) THEN [st EXCEPT ![n].e = c.s] ELSE st
  IN Append(joined, c)
PopOn(st, e) == IF queue = <<>> THEN st ELSE Store(st, [s |-> queue[1].s, e |-> e, v |-> queue[1].v])
Eoc(v) == /\ stored' = PopOn(stored, At(t'))
          /\ queue' = IF v = 0 THEN <<>> ELSE <<[s |-> At(t'), v |-> v]>>
          /\ log' = Append(log, [t |-> t', v |-> v])
Edm == /\ stored' = PopOn(stored, At(t')) /\ queue' = <<>> /\ log' = Append(log, [t |-> t', v |-> 0])
Next == Len(log) < MaxLen /\ (\E g \in Gaps : t' = t + g * 1001) /\ UNCHANGED off /\ (Edm \/ \E v \in {0, 1} : Eoc(IF v = 0 THEN 0 ELSE Len(log) + 1))
Spec == Init /\ [][Next]_vars
\* the end of the document
Result == LET st == PopOn(stored, NEVER)
          IN [k \in 1..Len(st) |-> [s |-> st[k].s, e |-> IF st[k].e = NEVER THEN st[k].s + FourSeconds ELSE st[k].e, v |-> st[k].v]]
Agrees == LET w == Timed(log, off)
              r == Result
          IN Len(w) = Len(r) /\ \A k \in 1..Len(w) : r[k].s = w[k].s /\ r[k].v = w[k].v /\ (r[k].e = w[k].e \/ (w[k].either /\ r[k].e \in {w[k].raw, w[k + 1].s}))
Ordered == LET r == Result IN \A k \in 1..Len(r) : r[k].s <= r[k].e /\ (k > 1 => r[k - 1].s <= r[k].s)
=============================================================================
