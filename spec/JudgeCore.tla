------------------------------ MODULE JudgeCore -----------------------------
(***************************************************************************)
(* Trace validation.  A trace is a sequence of events recorded from real   *)
(* executions of pycaption (one JSON object per line, file named by the    *)
(* environment variable TRACE).  Each event is consumed by one step.  The  *)
(* property module supplies Verdict(event), the set of clauses of the      *)
(* specification the event violates ("bad") and the set of behaviours it   *)
(* exercises ("tags", counted for the evidence).  The step is always       *)
(* enabled, so one bad event never hides the events after it; acceptance   *)
(* is: every event consumed, none rejected.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pos, cov, nrej
jvars == <<pos, cov, nrej>>

Bump(f, ts) == [t \in (DOMAIN f) \cup ts |->
                  (IF t \in DOMAIN f THEN f[t] ELSE 0) + (IF t \in ts THEN 1 ELSE 0)]
JInit == pos = 0 /\ cov = [t \in {} |-> 0] /\ nrej = 0
Consume ==
  /\ pos < Len(Trace)
  /\ PrintT("E|" \o ToString(Trace[pos + 1].id))
  /\ LET v == Verdict(Trace[pos + 1])
     IN /\ (IF v.bad = {} THEN TRUE ELSE PrintT("REJECT|" \o ToString(Trace[pos + 1].id) \o "|" \o ToString(v.bad)))
        /\ cov' = Bump(cov, v.tags)
        /\ nrej' = nrej + (IF v.bad = {} THEN 0 ELSE 1)
        /\ pos' = pos + 1
        /\ (IF pos' < Len(Trace) THEN TRUE ELSE PrintT("TAGS|" \o ToString(cov')))
JSpec == JInit /\ [][Consume]_jvars
\* every event was consumed
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
