------------------------------ MODULE GenPopOn ------------------------------
(***************************************************************************)
(* All well-formed pop-on loads of up to MaxLen instructions after the     *)
(* first preamble, over an alphabet with one representative of each kind   *)
(* of instruction.  Codes:                                                 *)
(*  1 preamble of the next row   2 the same, italic   3 preamble two rows  *)
(*  on   4 the same, italic   5 tab   6 two characters   7 one character   *)
(*  8 space   9 special character   10 stand-in and extended character     *)
(*  11 backspace   12 italics on mid-row   13 plain mid-row                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxLen
VARIABLES seq, n, prev    \* n: characters in the row that a backspace could take

Init == seq \in {<<1>>, <<2>>} /\ n = 0 /\ prev = "pac"
Pre(c) == n > 0 /\ seq' = Append(seq, c) /\ n' = 0 /\ prev' = "pac"
Tab == prev = "pac" /\ seq' = Append(seq, 5) /\ prev' = "tab" /\ UNCHANGED n
Char(c, k) == seq' = Append(seq, c) /\ n' = n + k /\ prev' = "chr"
Space == prev # "space" /\ seq' = Append(seq, 8) /\ prev' = "space" /\ UNCHANGED n
Bs == prev = "chr" /\ n > 1 /\ seq' = Append(seq, 11) /\ n' = n - 1 /\ prev' = "bs"
Mid(c) == prev # "mid" /\ seq' = Append(seq, c) /\ prev' = "mid" /\ UNCHANGED n
Next == Len(seq) < MaxLen + 1 /\
  ((\E c \in 1..4 : Pre(c)) \/ Tab \/ Char(6, 2) \/ Char(7, 1) \/ Char(9, 1) \/ Char(10, 1) \/ Space \/ Bs \/ Mid(12) \/ Mid(13))
Spec == Init /\ [][Next]_<<seq, n, prev>>
Emit == IF n > 0 THEN PrintT("G|" \o ToString(seq)) ELSE TRUE
=============================================================================
