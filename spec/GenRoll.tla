------------------------------ MODULE GenRoll -------------------------------
(***************************************************************************)
(* Every plan of up to MaxRows rows of roll-up or paint-on text: for each  *)
(* row, how it is begun and where it is addressed.                         *)
(*  1 roll-up code, carriage return     2 carriage return                  *)
(*  3 roll-up code, no carriage return (the window is empty, or its bottom *)
(*    row is)                                                              *)
(*  4 resume direct captioning          5 preamble only (paint-on)         *)
(*  6 nothing: the text follows a carriage return sent at the end of the   *)
(*    row before                                                           *)
(* trail: 1 if a carriage return ends the row.                             *)
(* address: 0 none sent, 1 the row before again, 2 the next row, 3 a       *)
(* distant one                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxRows
VARIABLES seq, mode, fresh
Init == seq = <<>> /\ mode = "none" /\ fresh = TRUE
Row(k, a, t) ==
  /\ k \in {2, 6} => mode = "roll"
  /\ k = 3 => mode # "roll" \/ fresh
  /\ k = 6 => fresh
  /\ k = 5 => mode = "paint" /\ a \in {2, 3}
  /\ k = 4 => a # 0
  /\ a = 0 => k \in {1, 2, 3, 6}
  /\ (k = 4 /\ mode = "none") => a = 1
  /\ k \in {4, 5} => t = 0
  /\ mode' = IF k \in {4, 5} THEN "paint" ELSE "roll"
  /\ fresh' = (t = 1)
  /\ seq' = seq \o <<k, a, t>>
Next == Len(seq) < 3 * MaxRows /\ \E k \in 1..6, a \in 0..3, t \in 0..1 : Row(k, a, t)
Spec == Init /\ [][Next]_<<seq, mode, fresh>>
Emit == IF seq # <<>> THEN PrintT("G|" \o ToString(seq)) ELSE TRUE
=============================================================================
