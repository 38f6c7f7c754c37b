------------------------------ MODULE GenSpans ------------------------------
(***************************************************************************)
(* Every flat, balanced sequence of caption nodes up to MaxLen:            *)
(* 0 text, 1 break, 2.. open a span (of each kind), 9 close it.            *)
(* Printed for the conformance driver to replay into the real writers.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxLen, Kinds
VARIABLES ns, open
Init == ns = <<>> /\ open = FALSE
Text == ns' = Append(ns, 0) /\ UNCHANGED open
Break == ns' = Append(ns, 1) /\ UNCHANGED open
Open(k) == ~ open /\ ns' = Append(ns, k) /\ open' = TRUE
Close == open /\ ns' = Append(ns, 9) /\ open' = FALSE
Next == Len(ns) < MaxLen /\ (Text \/ Break \/ (\E k \in Kinds : Open(k)) \/ Close)
Spec == Init /\ [][Next]_<<ns, open>>
\* flat: a close always closes the only open span
Flat == \A i \in 1..Len(ns) : ns[i] = 9 => \E j \in 1..(i - 1) : ns[j] \in Kinds /\ \A k \in (j + 1)..(i - 1) : ns[k] \in {0, 1}
Emit == IF ~ open /\ ns # <<>> /\ (\E i \in 1..Len(ns) : ns[i] = 0) /\ (\E i \in 1..Len(ns) : ns[i] = 9)
        THEN PrintT("G|" \o ToString(ns)) ELSE TRUE
=============================================================================
