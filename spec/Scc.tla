-------------------------------- MODULE Scc --------------------------------
(***************************************************************************)
(* The Scenarist SCC file: a header line, then - blank lines aside - lines *)
(* of a time code, white space, and code words of four hexadecimal digits. *)
(* A code word is the two bytes sent in one frame.                         *)
(***************************************************************************)
EXTENDS Num

SccHeader == S("Scenarist_SCC V1.0")
Two(c, i) == (c[i] - 48) * 10 + c[i + 1] - 48
\* hh:mm:ss:ff, with ";" before the frames for drop-frame time code
SccStamp(c) ==
  LET ok == /\ Len(c) = 11
            /\ \A i \in {1, 2, 4, 5, 7, 8, 10, 11} : IsDigit(c[i])
            /\ c[3] = COLON /\ c[6] = COLON /\ c[9] \in {COLON, SEMI}
            /\ Two(c, 4) < 60 /\ Two(c, 7) < 60 /\ Two(c, 10) < 30
  IN [ok |-> ok, drop |-> ok /\ c[9] = SEMI,
      fr |-> IF ok THEN ((Two(c, 1) * 60 + Two(c, 4)) * 60 + Two(c, 7)) * 30 + Two(c, 10) ELSE 0]
SccWord(c) ==
  LET ok == Len(c) = 4 /\ \A i \in 1..4 : IsHex(c[i])
  IN [ok |-> ok, a |-> IF ok THEN HexVal(c[1]) * 16 + HexVal(c[2]) ELSE 0, b |-> IF ok THEN HexVal(c[3]) * 16 + HexVal(c[4]) ELSE 0]
SccLine(c) ==
  LET k == LET I == {i \in 1..Len(c) : c[i] \in {SP, TAB}} IN IF I = {} THEN Len(c) + 1 ELSE MinOf(I)
      st == SccStamp(Sub(c, 1, k - 1))
      ws0 == SplitC(Force([i \in 1..(Len(c) - k) |-> IF c[k + i] = TAB THEN SP ELSE c[k + i]]), SP)
      ws == Force([i \in 1..Len(ws0) |-> SccWord(ws0[i])])
      one == SelectSeq(ws, LAMBDA w : w.ok)
  IN [ok |-> st.ok /\ \A i \in 1..Len(ws0) : ws[i].ok \/ ws0[i] = <<>>, fr |-> st.fr, drop |-> st.drop, words |-> one]
\* [wf, lines: [ok, fr: frame count of the time code, drop, words: [ok, a, b]]]
SccParse(doc) ==
  LET ls == Lines(doc)
      body == SelectSeq(Tail(ls), LAMBDA c : \E i \in 1..Len(c) : c[i] \notin {SP, TAB})
      ps == Force([i \in 1..Len(body) |-> SccLine(body[i])])
  IN [wf |-> ls # <<>> /\ ls[1] = SccHeader /\ \A i \in 1..Len(ps) : ps[i].ok, header |-> ls # <<>> /\ ls[1] = SccHeader, lines |-> ps]

Ones(b) == Cardinality({i \in 0..7 : (b \div (2 ^ i)) % 2 = 1})
OddParity(b) == Ones(b) % 2 = 1
Seven(b) == b % 128

\* Instants are counted in ticks of 1/30000 s.  A frame lasts 1001 ticks; under
\* drop-frame time code, whose labels follow the wall clock, 1000.
FrameTicks(drop) == IF drop THEN 1000 ELSE 1001
\* They are counted from a whole hour h of the wall clock (TLC's integers end at 2^31).
HourFrames == 108000
HourOf(lines) == IF lines = <<>> THEN 0 ELSE lines[1].fr \div HourFrames
TickOf(line, k, h) == (line.fr + k - h * HourFrames) * FrameTicks(line.drop) + (IF line.drop THEN 0 ELSE h * HourFrames)
TickInst(t, h) == [s |-> t \div 30000 + 3600 * h, u |-> ((t % 30000) * 100) \div 3]
=============================================================================
