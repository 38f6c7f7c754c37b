------------------------------ MODULE GenLong -------------------------------
(***************************************************************************)
(* Every arrangement of up to MaxRows rows of a caption: where each row is *)
(* (1 the row below the one before, 2 further down, 3 above) and which     *)
(* class of length it has (1 none, 2 short, 3 at the limit, 4 just over, 5 *)
(* far over).                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxRows
VARIABLES seq
Init == seq = <<>>
Next == Len(seq) < 2 * MaxRows /\ \E p \in 1..3, n \in 1..5 : (seq = <<>> => p = 1) /\ seq' = seq \o <<p, n>>
Spec == Init /\ [][Next]_seq
Emit == IF seq # <<>> THEN PrintT("G|" \o ToString(seq)) ELSE TRUE
=============================================================================
