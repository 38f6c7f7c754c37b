-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact decimal arithmetic and instants.  TLC integers are 32 bit, so an  *)
(* instant is a record [s, u] - whole seconds and 0 <= u < 10^6            *)
(* microseconds - and unbounded naturals are little-endian digit           *)
(* sequences.                                                              *)
(***************************************************************************)
EXTENDS Txt

MICRO == 1000000
\* ------------------------------------------------ digit sequences (LE)
FromCps(ds) == Force([i \in 1..Len(ds) |-> ds[Len(ds) + 1 - i] - 48])
Digit(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
\* d * m, 0 <= m < 2*10^8
MulSmall(d, m) ==
  LET st == FoldLeft(LAMBDA a, x : LET v == x * m + a.c
                                   IN [o |-> Append(a.o, v % 10), c |-> v \div 10],
                     [o |-> <<>>, c |-> 0], d)
      RECURSIVE Carry(_, _)
      Carry(o, c) == IF c = 0 THEN o ELSE Carry(Append(o, c % 10), c \div 10)
  IN Carry(st.o, st.c)
\* floor(d / m), 0 < m < 2*10^8
DivSmall(d, m) ==
  LET st == FoldRight(LAMBDA x, a : LET v == a.r * 10 + x
                                    IN [o |-> <<v \div m>> \o a.o, r |-> v % m],
                      d, [o |-> <<>>, r |-> 0])
  IN st.o
Shl(d, k) == Force([i \in 1..k |-> 0]) \o d             \* * 10^k
Shr(d, k) == IF k >= Len(d) THEN <<>> ELSE SubSeq(d, k + 1, Len(d))  \* floor / 10^k
\* value of a digit sequence, -1 if it does not fit
Val(d) == LET n == LET nz == {i \in 1..Len(d) : d[i] # 0}
                   IN IF nz = {} THEN 0 ELSE CHOOSE i \in nz : \A j \in nz : j <= i
          IN IF n > 9 THEN -1
             ELSE FoldRight(LAMBDA x, a : a * 10 + x, SubSeq(d, 1, n), 0)
\* microseconds (digit sequence) -> instant
InstOf(d) == [s |-> Val(Shr(d, 6)), u |-> Val(SubSeq(d \o <<0,0,0,0,0,0>>, 1, 6))]
\* -1: not a number, or one beyond 32 bits
NatOf(cps) == IF AllDigits(cps) THEN Val(FromCps(cps)) ELSE -1

\* ------------------------------------------------ instants
T0 == [s |-> 0, u |-> 0]
AddT(a, b) == LET u == a.u + b.u IN [s |-> a.s + b.s + u \div MICRO, u |-> u % MICRO]
SubT(a, b) == IF a.u >= b.u THEN [s |-> a.s - b.s, u |-> a.u - b.u]
                            ELSE [s |-> a.s - b.s - 1, u |-> a.u - b.u + MICRO]
LtT(a, b) == a.s < b.s \/ (a.s = b.s /\ a.u < b.u)
LeT(a, b) == ~ LtT(b, a)
\* instant from milliseconds held in an ordinary (possibly negative) integer
FromMs(ms) == [s |-> ms \div 1000, u |-> (ms % 1000) * 1000]
\* instant from a millisecond digit string
FromMsCps(c) == InstOf(Shl(FromCps(c), 3))
\* truncation to milliseconds / to 25 fps frames
MsOf(t) == t.u \div 1000
TruncMs(t) == [s |-> t.s, u |-> (t.u \div 1000) * 1000]
Frames25(t) == t.s * 25 + t.u \div 40000
FromFrame25(f) == [s |-> f \div 25, u |-> (f % 25) * 40000]

\* hh:mm:ss plus a fraction given as a digit string, exactly (floor to us)
FracU(fr) == LET d == FromCps(fr)  \* little endian; most significant is last
                 n == Len(d)
                 at(k) == IF n - k + 1 >= 1 THEN d[n - k + 1] ELSE 0
             IN at(1) * 100000 + at(2) * 10000 + at(3) * 1000 + at(4) * 100 + at(5) * 10 + at(6)
Clock(h, m, s, fr) == [s |-> h * 3600 + m * 60 + s, u |-> FracU(fr)]
=============================================================================
