------------------------------ MODULE JudgeC09 ------------------------------
(***************************************************************************)
(* C09: writing never alters its input and is deterministic.               *)
(*  [steps: [op: "write" | "edit", key, set, before, after, others, out]]  *)
(*  key: the writer's class and options; set: which set; before, after:    *)
(*  digests of its content around the call; out: digest of the document or *)
(*  of the exception; others: all other sets kept their digests.           *)
(* The specification's state is a memory of what each (key, content) has   *)
(* been rendered to, and the content every set has.  Steps "pristine" were *)
(* taken in new processes with other hash seeds.                           *)
(***************************************************************************)
EXTENDS JudgeCore, Txt

Step(st, x) ==
  LET k == x.key \o "|" \o x.before
      unknown == k \notin DOMAIN st.memo
      changed == x.op # "edit" /\ x.after # x.before
      moved == x.op # "pristine" /\ x.set \in DOMAIN st.content /\ st.content[x.set] # x.before
      memo2 == IF x.op # "edit" /\ unknown THEN [q \in (DOMAIN st.memo) \cup {k} |-> IF q = k THEN x.out ELSE st.memo[q]] ELSE st.memo
  IN [memo |-> memo2,
      content |-> IF x.op = "pristine" THEN st.content
                  ELSE [q \in (DOMAIN st.content) \cup {x.set} |-> IF q = x.set THEN x.after ELSE st.content[q]],
      bad |-> st.bad \cup (IF changed THEN {"altered"} ELSE {}) \cup (IF moved \/ ~ x.others THEN {"altered_other"} ELSE {})
              \cup (IF x.op # "edit" /\ ~ unknown /\ st.memo[k] # x.out
                    THEN {IF x.op = "pristine" THEN "other_process" ELSE "nondeterministic"} ELSE {})]
V_C09(e) ==
  LET st == FoldLeft(Step, [memo |-> [q \in {} |-> ""], content |-> [q \in {} |-> ""], bad |-> {}], e.steps)
      T(name, b) == IF b THEN {name} ELSE {}
      I == 1..Len(e.steps)
  IN [bad |-> st.bad \cup (IF \E i \in I : e.steps[i].op = "pristine" /\ ~ e.steps[i].same THEN {"GENERATOR"} ELSE {}),
      tags |-> {"history"} \cup T("raises", \E i \in I : e.steps[i].op # "edit" /\ ~ e.steps[i].ok)
               \cup T("raise_then_write", \E i, j \in I : i < j /\ e.steps[i].op = "write" /\ e.steps[j].op = "write" /\ ~ e.steps[i].ok /\ e.steps[j].ok)
               \cup T("kept_writer_again", \E i, j \in I : i < j /\ e.steps[i].op = "write" /\ e.steps[j].op = "write" /\ e.steps[i].w # 0 /\ e.steps[i].w = e.steps[j].w)
               \cup T("edited_between", \E i \in I : e.steps[i].op = "edit")
               \cup {"fmt_" \o e.fmt}]
=============================================================================
