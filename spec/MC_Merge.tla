------------------------------ MODULE MC_Merge ------------------------------
(***************************************************************************)
(* Every sequence of up to MaxLen captions over four time spans: what      *)
(* merging must conserve, and that it is idempotent.  Each sequence is     *)
(* printed for replay into the real code.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen
BRK == 0
R == INSTANCE Retime
VARIABLE seq
Spans == <<<<0, 1>>, <<0, 2>>, <<1, 2>>, <<1, 1>>>>
Init == seq = <<>>
Next == Len(seq) < MaxLen /\ \E k \in 1..Len(Spans) : seq' = Append(seq, k)
Spec == Init /\ [][Next]_seq
Caps == [i \in 1..Len(seq) |-> [s |-> Spans[seq[i]][1], e |-> Spans[seq[i]][2], ns |-> <<i>>]]
M == R!Merged(R!Force(Caps))
All(caps) == R!Concat([i \in 1..Len(caps) |-> caps[i].ns])
NoBrk(ns) == SelectSeq(ns, LAMBDA x : x # BRK)
Idempotent == R!Merged(M) = M
Conserves == NoBrk(All(M)) = [i \in 1..Len(seq) |-> i]
Maximal == \A i \in 1..(Len(M) - 1) : ~ R!Same(M[i], M[i + 1])
Times == \A i \in 1..Len(M) : \A j \in 1..Len(M[i].ns) :
           M[i].ns[j] = BRK \/ (Caps[M[i].ns[j]].s = M[i].s /\ Caps[M[i].ns[j]].e = M[i].e)
Separated == \A i \in 1..Len(M) : LET ns == M[i].ns IN
               Len(ns) % 2 = 1 /\ \A j \in 1..Len(ns) : (ns[j] = BRK) <=> (j % 2 = 0)
Emit == IF seq # <<>> THEN PrintT("G|" \o ToString(seq)) ELSE TRUE
=============================================================================
