------------------------------ MODULE GenTiming -----------------------------
(***************************************************************************)
(* Every schedule of up to MaxLoads pop-on loads: for each load where an   *)
(* erase code is sent within it (1 nowhere, 2 before end-of-caption, 3     *)
(* first, 4 after the preamble), how many frames after end-of-caption a    *)
(* separate erase follows (0 none), and the idle frames before the next    *)
(* load.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxLoads, Inline, Clears, Idle
VARIABLES seq
Init == seq = <<>>
Next == Len(seq) < 3 * MaxLoads /\ \E a \in Inline, c \in Clears, g \in Idle : seq' = seq \o <<a, c, g>>
Spec == Init /\ [][Next]_seq
Emit == IF seq # <<>> THEN PrintT("G|" \o ToString(seq)) ELSE TRUE
=============================================================================
