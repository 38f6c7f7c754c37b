------------------------------- MODULE MC_Geom -------------------------------
(***************************************************************************)
(* Every layout over a small universe of components (absent, two values    *)
(* that differ in number only, one that differs in unit only, zero), the   *)
(* laws of value equality, fitting and shorthands on all pairs; printed    *)
(* for replay.                                                             *)
(***************************************************************************)
EXTENDS Geom
VARIABLE c
A == [n |-> 1000, u |-> "%"]    B == [n |-> 2000, u |-> "%"]    D == [n |-> 1000, u |-> "px"]
Pairs == <<<<>>, <<A, B>>, <<B, A>>, <<A, D>>, <<Zero, A>>>>
Pads == <<<<>>, <<A, A, A, A>>, <<A, B, A, A>>, <<A, A, B, A>>>>
Aligns == <<<<>>, <<"left", "top">>, <<"left", "">>, <<"", "top">>>>
Init == c \in (1..5) \X (1..5) \X (1..4) \X (1..4)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Lay(x) == [t |-> "layout", o |-> Pairs[x[1]], e |-> Pairs[x[2]], p |-> Pads[x[3]], a |-> Aligns[x[4]], inh |-> <<>>]
\* equality tells apart all of the universe
Distinct == \A y \in (1..5) \X (1..5) \X (1..4) \X (1..4) : SameValue(Lay(c), Lay(y)) <=> c = y
\* fitting a relative layout twice is fitting it once, and stays inside
L(x) == [o |-> Pairs[x[1]], e |-> Pairs[x[2]], p |-> Pads[x[3]], h |-> "", v |-> "", vtt |-> <<>>]
Fits == IsRelative(L(c)) => LET f == FitLay(RelLay(L(c), 0, 0)) IN
          /\ FitLay(f) = f
          /\ f.o # <<>> => f.o[1] + f.e[1] <= SAFE_R /\ f.o[2] + f.e[2] <= SAFE_B
\* shorthands: n sizes say the same as the four they stand for
Short == /\ Edges(<<A>>) = Edges(<<A, A>>) /\ Edges(<<A, B>>) = Edges(<<A, B, A>>)
         /\ Edges(<<A, B, D>>) = Edges(<<A, B, D, B>>)
Emit == PrintT("G|" \o ToString(c))
=============================================================================
