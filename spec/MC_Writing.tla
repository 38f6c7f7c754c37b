----------------------------- MODULE MC_Writing -----------------------------
(***************************************************************************)
(* Histories of writes.  Sets are containers of cells; a writer keeps a    *)
(* scratch store between calls.  Writing copies the set, transforms the    *)
(* copy and renders it, then clears the scratch - also when it fails.      *)
(* Checked: the sets' cells change only by edits, and what is rendered is  *)
(* a function of the set's content.  Every history up to MaxOps steps is   *)
(* printed for replay:                                                     *)
(*   10+s: write set s with a new writer; 20+s, 30+s: with the first /     *)
(*   second kept writer; 40+s: edit set s                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxOps, Sets
VARIABLES hist, cells, scratch, outs
vars == <<hist, cells, scratch, outs>>
Init == hist = <<>> /\ cells = [s \in Sets |-> 0] /\ scratch = [w \in 1..2 |-> 0] /\ outs = <<>>
Render(content, left) == <<content, left>>
Write(w, s) ==
  /\ hist' = Append(hist, 10 * (w + 1) + s)
  /\ outs' = Append(outs, [s |-> s, c |-> cells[s], out |-> Render(cells[s], IF w = 0 THEN 0 ELSE scratch[w])])
  /\ scratch' = [x \in 1..2 |-> IF x = w THEN 0 ELSE scratch[x]]     \* used during the call, cleared at its end
  /\ UNCHANGED cells
Edit(s) == hist' = Append(hist, 40 + s) /\ cells' = [cells EXCEPT ![s] = @ + 1] /\ UNCHANGED <<scratch, outs>>
Next == Len(hist) < MaxOps /\ \E s \in Sets : Edit(s) \/ \E w \in 0..2 : Write(w, s)
Spec == Init /\ [][Next]_vars
Edits(s) == LET e == SelectSeq(hist, LAMBDA x : x = 40 + s) IN Len(e)
Unaltered == \A s \in Sets : cells[s] = Edits(s)
Function == \A i, j \in 1..Len(outs) : outs[i].c = outs[j].c => outs[i].out = outs[j].out
\* (the first use of the second writer presupposes the first's, of the second set the first's)
Canonical == /\ \A i \in 1..Len(hist) : hist[i] \div 10 = 3 => \E j \in 1..(i - 1) : hist[j] \div 10 = 2
Emit == IF hist # <<>> /\ Canonical /\ hist[Len(hist)] < 40 THEN PrintT("G|" \o ToString(hist)) ELSE TRUE
=============================================================================
