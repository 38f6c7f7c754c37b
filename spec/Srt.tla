-------------------------------- MODULE Srt --------------------------------
(***************************************************************************)
(* A conformant consumer of SubRip text: numbered blocks separated by      *)
(* blank lines.  SrtParse folds the transition function Step over the      *)
(* lines of a document.                                                    *)
(***************************************************************************)
EXTENDS Num

\* hours ":" mm ":" ss [ "," fraction ]
SrtStamp(c0) ==
  LET c == Trim(c0)
      p == SplitC(c, COLON)
      bad == [ok |-> FALSE, t |-> T0, canon |-> FALSE]
  IN IF Len(p) # 3 THEN bad
     ELSE LET q == SplitC(p[3], COMMA)
              fr == IF Len(q) = 2 THEN q[2] ELSE <<>>
          IN IF /\ AllDigits(p[1]) /\ Len(p[2]) = 2 /\ AllDigits(p[2])
                /\ Len(q) <= 2 /\ Len(q[1]) = 2 /\ AllDigits(q[1])
                /\ (Len(q) = 2 => AllDigits(q[2]))
                /\ NatOf(p[2]) < 60 /\ NatOf(q[1]) < 60
                /\ NatOf(p[1]) >= 0 /\ NatOf(p[1]) <= 500000
             THEN [ok |-> TRUE, t |-> Clock(NatOf(p[1]), NatOf(p[2]), NatOf(q[1]), fr),
                   canon |-> Len(p[1]) >= 2 /\ Len(fr) = 3]
             ELSE bad

SrtTiming(line) ==
  LET k == Find(line, 1, S("-->"))
      bad == [ok |-> FALSE, s |-> T0, e |-> T0, canon |-> FALSE]
  IN IF k = 0 THEN bad
     ELSE LET a == SrtStamp(Sub(line, 1, k - 1))
              b == SrtStamp(Sub(line, k + 3, Len(line)))
          IN IF a.ok /\ b.ok THEN [ok |-> TRUE, s |-> a.t, e |-> b.t, canon |-> a.canon /\ b.canon]
             ELSE bad

SrtInit == [m |-> "num", wf |-> TRUE, canon |-> TRUE, cues |-> <<>>, nums |-> <<>>,
            cur |-> [s |-> T0, e |-> T0, lines |-> <<>>]]
SrtFlush(a) == [a EXCEPT !.cues = Append(@, a.cur), !.m = "num",
                         !.cur = [s |-> T0, e |-> T0, lines |-> <<>>]]
SrtStep(a, line) ==
  CASE a.m = "num" /\ IsBlank(line) -> a
    [] a.m = "num" -> [a EXCEPT !.m = "time", !.wf = @ /\ AllDigits(line), !.nums = Append(@, NatOf(line))]
    [] a.m = "time" ->
         LET t == SrtTiming(line)
         IN [a EXCEPT !.m = "text", !.wf = @ /\ t.ok, !.canon = @ /\ t.canon,
                      !.cur = [s |-> t.s, e |-> t.e, lines |-> <<>>]]
    [] a.m = "text" /\ IsBlank(line) -> SrtFlush(a)
    [] OTHER -> [a EXCEPT !.cur.lines = Append(@, line)]

\* [wf, canon (mm:ss,mmm fields exactly as SubRip prescribes), cues, nums]
SrtParse(doc) ==
  LET z == FoldLeft(SrtStep, SrtInit, Lines(doc))
      y == IF z.m = "text" THEN SrtFlush(z) ELSE z
  IN [wf |-> y.wf /\ y.m # "time", canon |-> y.canon, cues |-> y.cues, nums |-> y.nums]
=============================================================================
