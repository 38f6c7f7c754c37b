------------------------------- MODULE Retime -------------------------------
(***************************************************************************)
(* Operations on caption lists: affine retiming and merging of concurrent  *)
(* captions.  A caption is [s, e, ns]: two instants and its nodes; BRK is  *)
(* the node of a line break.                                               *)
(***************************************************************************)
EXTENDS Num
CONSTANT BRK

\* ----------------------------------------------------------- retiming
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n <= 0 THEN <<>> ELSE <<n % 10>> \o DigitsOf(n \div 10)
Pad6(d) == SubSeq(d \o <<0, 0, 0, 0, 0, 0>>, 1, 6)
MicroOf(t) == Pad6(DigitsOf(t.u)) \o DigitsOf(t.s)            \* for t >= 0
\* t * n/1000 + off, rounded down to a microsecond (off.s may be negative)
Affine(t, n, off) == AddT(InstOf(DivSmall(MulSmall(MicroOf(t), n), 1000)), off)
\* ... and the thousandths of a microsecond cut off
Rest(t, n) == ((t.u % 1000) * n) % 1000
NegT(t) == t.s < 0
Retimed(caps, n, off) ==
  LET new == Force([i \in 1..Len(caps) |-> [s |-> Affine(caps[i].s, n, off), e |-> Affine(caps[i].e, n, off), ns |-> caps[i].ns,
                                        sf |-> Rest(caps[i].s, n), ef |-> Rest(caps[i].e, n)]])
  IN SelectSeq(new, LAMBDA c : ~ NegT(c.s))

\* ------------------------------------------------------------ merging
Same(a, b) == a.s = b.s /\ a.e = b.e
Merged(caps) ==
  FoldLeft(LAMBDA out, c :
             IF out # <<>> /\ Same(out[Len(out)], c)
             THEN [out EXCEPT ![Len(out)].ns = @ \o <<BRK>> \o c.ns]
             ELSE Append(out, c),
           <<>>, caps)
=============================================================================
