----------------------------- MODULE MC_Reading -----------------------------
(***************************************************************************)
(* Histories of reads, edits and writes.  A read allocates new cells for   *)
(* everything it returns and clears the reader's scratch before and after. *)
(* Checked: no cell belongs to two sets, an edit changes one set only, and *)
(* every read returns the document's content.  Histories are printed:      *)
(*   10+d: read document d with a new reader; 20+d: with the kept one;     *)
(*   30+k: edit the k-th set read; 40+k: write it                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxOps, Docs
VARIABLES hist, heap, sets, scratch
vars == <<hist, heap, sets, scratch>>
\* a set: [d, cells]; heap: content of every cell allocated so far
Init == hist = <<>> /\ heap = <<>> /\ sets = <<>> /\ scratch = 0
Read(kept, d) ==
  /\ hist' = Append(hist, 10 * (kept + 1) + d)
  /\ heap' = heap \o <<<<d, 0>>, <<d, 0>>>>                    \* a caption and a style sheet
  /\ sets' = Append(sets, [d |-> d, cells |-> {Len(heap) + 1, Len(heap) + 2}, edits |-> 0])
  /\ scratch' = 0
Edit(k) ==
  /\ hist' = Append(hist, 30 + k)
  /\ heap' = [c \in 1..Len(heap) |-> IF c \in sets[k].cells THEN <<heap[c][1], heap[c][2] + 1>> ELSE heap[c]]
  /\ sets' = [sets EXCEPT ![k].edits = @ + 1]
  /\ UNCHANGED scratch
Write(k) == hist' = Append(hist, 40 + k) /\ UNCHANGED <<heap, sets, scratch>>
Next == Len(hist) < MaxOps /\ \/ \E d \in Docs, kept \in 0..1 : Read(kept, d)
                              \/ \E k \in 1..Len(sets) : Edit(k) \/ Write(k)
Spec == Init /\ [][Next]_vars
Isolated == \A i, j \in 1..Len(sets) : i # j => sets[i].cells \cap sets[j].cells = {}
Content == \A i \in 1..Len(sets) : \A c \in sets[i].cells : heap[c] = <<sets[i].d, sets[i].edits>>
\* worth replaying: ends in a read, or in an edit with another set around
Emit == IF hist # <<>> /\ (LET l == hist[Len(hist)] IN (l < 30 /\ Len(hist) > 1) \/ (l \in 31..39 /\ Len(sets) > 1))
        THEN PrintT("G|" \o ToString(hist)) ELSE TRUE
=============================================================================
