------------------------------ MODULE GenSizes ------------------------------
(***************************************************************************)
(* Every string over an alphabet of size spellings, up to MaxLen pieces.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxLen, Pieces
VARIABLE txt
Init == txt = <<>>
Next == Len(txt) < MaxLen /\ \E k \in 1..Pieces : txt' = Append(txt, k)
Spec == Init /\ [][Next]_txt
Emit == PrintT("G|" \o ToString(txt))
=============================================================================
