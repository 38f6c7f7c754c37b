----------------------------- MODULE GenLevels -----------------------------
(***************************************************************************)
(* Which of two layouts (1, 2) or none (0) is given at every level:        *)
(* the set, the language, the caption, a span (3: no span) and the texts   *)
(* before, inside and after it.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Layouts
VARIABLE lv
Levels == 7
Init == lv = <<>>
Next == Len(lv) < Levels /\ \E x \in Layouts \cup (IF Len(lv) = 3 THEN {3} ELSE {}) : lv' = Append(lv, x)
Spec == Init /\ [][Next]_lv
\* the text inside a span says nothing, or what the span says
Agree(s) == s[4] = 3 \/ s[6] = 0 \/ s[6] = s[4]
Emit == IF Len(lv) = Levels /\ Agree(lv) THEN PrintT("G|" \o ToString(lv)) ELSE TRUE
=============================================================================
