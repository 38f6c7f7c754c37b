-------------------------------- MODULE Mdvd -------------------------------
(***************************************************************************)
(* MicroDVD: one cue per line, {start}{end}text, frames at 25 fps or at    *)
(* the rate declared by a leading {0}{0}rate line; "|" breaks the line.    *)
(***************************************************************************)
EXTENDS Num

MdvdLine(c) ==
  LET bad == [ok |-> FALSE, a |-> <<>>, b |-> <<>>, text |-> <<>>]
  IN IF Len(c) = 0 \/ c[1] # LBRACE THEN bad
     ELSE LET k == FindC(c, 1, RBRACE)
          IN IF k = 0 \/ k + 1 > Len(c) \/ c[k + 1] # LBRACE THEN bad
             ELSE LET j == FindC(c, k + 1, RBRACE)
                      x == Sub(c, 2, k - 1)
                      y == Sub(c, k + 2, j - 1)
                  IN IF j = 0 \/ ~ AllDigits(x) \/ ~ AllDigits(y) THEN bad
                     ELSE [ok |-> TRUE, a |-> x, b |-> y, text |-> Sub(c, j + 1, Len(c))]

\* a frame rate "25" or "23.976" as numerator digits / number of decimals
MdvdRate(c0) ==
  LET c == Trim(c0)
      p == SplitC(c, DOT)
  IN IF Len(p) = 1 /\ AllDigits(p[1]) /\ Len(p[1]) <= 3 THEN [ok |-> TRUE, n |-> NatOf(p[1]), k |-> 0]
     ELSE IF Len(p) = 2 /\ AllDigits(p[1]) /\ AllDigits(p[2]) /\ Len(p[1]) <= 3 /\ Len(p[2]) <= 5
          THEN [ok |-> TRUE, n |-> NatOf(p[1] \o p[2]), k |-> Len(p[2])]
     ELSE [ok |-> FALSE, n |-> 0, k |-> 0]

\* floor(frame / rate) in microseconds: frame * 10^6 * 10^k / n
MdvdTime(fr, r) == InstOf(DivSmall(Shl(FromCps(fr), 6 + r.k), r.n))

IsZero(c) == \A i \in 1..Len(c) : c[i] = 48

MdvdInit == [wf |-> TRUE, first |-> TRUE, rate |-> [ok |-> TRUE, n |-> 25, k |-> 0], cues |-> <<>>,
             header |-> FALSE]
MdvdStep(a, line) ==
  IF line = <<>> THEN a
  ELSE LET m == MdvdLine(line)
       IN IF ~ m.ok THEN [a EXCEPT !.wf = FALSE]
          ELSE IF IsZero(m.a) /\ IsZero(m.b) /\ a.first /\ MdvdRate(m.text).ok /\ MdvdRate(m.text).n > 0
               THEN [a EXCEPT !.rate = MdvdRate(m.text), !.first = FALSE, !.header = TRUE]
          ELSE [a EXCEPT !.first = FALSE,
                  !.cues = Append(@, [s |-> MdvdTime(m.a, a.rate), e |-> MdvdTime(m.b, a.rate),
                                      sf |-> NatOf(m.a), ef |-> NatOf(m.b),
                                      zero |-> IsZero(m.a) /\ IsZero(m.b),
                                      lines |-> SplitC(m.text, PIPE)])]
MdvdParse(doc) == FoldLeft(MdvdStep, MdvdInit, Lines(doc))
=============================================================================
