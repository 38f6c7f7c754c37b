------------------------------ MODULE MC_Detect ------------------------------
(***************************************************************************)
(* The probe as a machine, over every combination of the six sniffers'     *)
(* verdicts: it terminates with the first accepting reader or none.  And   *)
(* every sequence of up to MaxLen pieces of text, printed for replay.      *)
(***************************************************************************)
EXTENDS Detect
CONSTANTS MaxLen, Pieces
VARIABLES own, i, res, txt
vars == <<own, i, res, txt>>
Init == \/ own \in [1..6 -> {"T", "F", "X"}] /\ i = 1 /\ res = "?" /\ txt = <<>>
        \/ own = <<>> /\ i = 0 /\ res = "-" /\ txt = <<>>
Probe == own # <<>> /\ res = "?" /\ i <= 6
         /\ (IF own[i] = "T" THEN res' = Order[i] /\ i' = i ELSE i' = i + 1 /\ res' = IF i = 6 THEN "" ELSE "?")
         /\ UNCHANGED <<own, txt>>
Grow == own = <<>> /\ Len(txt) < MaxLen /\ \E k \in 1..Pieces : txt' = Append(txt, k) /\ UNCHANGED <<own, i, res>>
Next == Probe \/ Grow
Spec == Init /\ [][Next]_vars /\ WF_vars(Probe)
Right == res \notin {"?", "-"} => res = First(own)
Total == own # <<>> ~> res # "?"
Emit == IF own = <<>> /\ txt # <<>> THEN PrintT("G|" \o ToString(txt)) ELSE TRUE
=============================================================================
