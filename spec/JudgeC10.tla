------------------------------ MODULE JudgeC10 ------------------------------
(***************************************************************************)
(* C10: reading is a deterministic, isolated function of document and      *)
(* options.                                                                *)
(*  [steps: [op: "read" | "edit" | "write" | "pristine", key, set, out,    *)
(*           sets]]                                                        *)
(*  key: reader, options and document; out: digest of the set read (or of  *)
(*  the exception); sets: digests of all sets after the step; set: the     *)
(*  number of the set read, edited or written.                             *)
(* The specification's state: what each key reads as, and the content of   *)
(* every set, which only an edit of that set changes.                      *)
(***************************************************************************)
EXTENDS JudgeCore, Txt

Step(st, x) ==
  LET unknown == x.key \notin DOMAIN st.memo
      reads == x.op \in {"read", "pristine"}
      kept == x.op = "pristine" \/ \A i \in 1..Len(st.sets) : (x.op = "edit" /\ i = x.set) \/ x.sets[i] = st.sets[i]
  IN [memo |-> IF reads /\ unknown THEN [q \in (DOMAIN st.memo) \cup {x.key} |-> IF q = x.key THEN x.out ELSE st.memo[q]] ELSE st.memo,
      sets |-> IF x.op = "pristine" THEN st.sets ELSE x.sets,
      bad |-> st.bad \cup (IF ~ kept THEN {IF x.op = "edit" THEN "not_isolated" ELSE "altered"} ELSE {})
              \cup (IF reads /\ ~ unknown /\ st.memo[x.key] # x.out THEN {IF x.op = "pristine" THEN "other_process" ELSE "nondeterministic"} ELSE {})
              \cup (IF x.op = "read" /\ x.ok /\ x.sets[Len(x.sets)] # x.out THEN {"GENERATOR"} ELSE {})]
V_C10(e) ==
  LET st == FoldLeft(Step, [memo |-> [q \in {} |-> ""], sets |-> <<>>, bad |-> {}], e.steps)
      T(name, b) == IF b THEN {name} ELSE {}
      I == 1..Len(e.steps)
  IN [bad |-> st.bad,
      tags |-> {"history"} \cup {"fmt_" \o e.fmts[i] : i \in 1..Len(e.fmts)}
               \cup T("raises", \E i \in I : e.steps[i].op = "read" /\ ~ e.steps[i].ok)
               \cup T("edit", \E i \in I : e.steps[i].op = "edit") \cup T("write", \E i \in I : e.steps[i].op = "write")
               \cup T("read_after_edit", \E i, j \in I : i < j /\ e.steps[i].op = "edit" /\ e.steps[j].op = "read")]
=============================================================================
