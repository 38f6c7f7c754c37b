------------------------------ MODULE GenWrap -------------------------------
(***************************************************************************)
(* Every sequence of up to MaxWords word lengths (0: a line break) around  *)
(* the width of a row.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxWords, Lengths
VARIABLES seq
Init == seq = <<>>
Next == Len(seq) < MaxWords /\ \E n \in Lengths : (n = 0 => IF seq = <<>> THEN FALSE ELSE seq[Len(seq)] # 0) /\ seq' = Append(seq, n)
Spec == Init /\ [][Next]_seq
Emit == IF seq = <<>> THEN TRUE ELSE IF seq[Len(seq)] = 0 THEN TRUE ELSE PrintT("G|" \o ToString(seq))
=============================================================================
