------------------------------- MODULE Cea608 ------------------------------
(***************************************************************************)
(* A CEA-608 caption decoder (field 1, channel 1): what a stream of byte   *)
(* pairs shows, and when.                                                  *)
(*                                                                         *)
(* State: the two caption memories (displayed, non-displayed), each a      *)
(* screen of 15 rows of cells; the mode; the cursor; the italics attribute *)
(* of the pen; the last control pair, for dropping its second copy; the    *)
(* log of what was displayed and of the rows transmitted; and in "dom"     *)
(* the ways in which the stream is not a well-formed one.                  *)
(*                                                                         *)
(* A cell is [c, it, k]: code point, italics, kind: "c" a character sent,  *)
(* "x" an extended one, "m" the blank a mid-row code occupies, "e" empty.  *)
(***************************************************************************)
EXTENDS Scc

\* ---------------------------------------------------------------- tables
BasicSpecials == [b \in {42, 92, 94, 95, 96, 123, 124, 125, 126, 127} |->
  CASE b = 42 -> 225 [] b = 92 -> 233 [] b = 94 -> 237 [] b = 95 -> 243 [] b = 96 -> 250 [] b = 123 -> 231
    [] b = 124 -> 247 [] b = 125 -> 209 [] b = 126 -> 241 [] b = 127 -> 9608]
Basic(b) == IF b \in DOMAIN BasicSpecials THEN BasicSpecials[b] ELSE b
SpecialTable == <<174, 176, 189, 191, 8482, 162, 163, 9834, 224, 32, 232, 226, 234, 238, 244, 251>>
ExtTable1 == <<193, 201, 211, 218, 220, 252, 8216, 161, 42, 8217, 8212, 169, 8480, 8226, 8220, 8221,
               192, 194, 199, 200, 202, 203, 235, 206, 207, 239, 212, 217, 249, 219, 171, 187>>
ExtTable2 == <<195, 227, 205, 204, 236, 210, 242, 213, 245, 123, 125, 92, 94, 95, 124, 126,
               196, 228, 214, 246, 223, 165, 164, 166, 197, 229, 216, 248, 9484, 9488, 9492, 9496>>
\* code points that the standard's tables are variously transcribed as
Alike == [c \in {39, 8217, 124, 166, 9474} |-> IF c \in {39, 8217} THEN {39, 8217} ELSE {124, 166, 9474}]
Same(c, d) == c = d \/ (c \in DOMAIN Alike /\ d \in Alike[c])
\* row addressed by the first byte of a preamble, low and high half of the second
PacRow == [a \in 16..23 |-> CASE a = 16 -> <<11, 11>> [] a = 17 -> <<1, 2>> [] a = 18 -> <<3, 4>> [] a = 19 -> <<12, 13>>
                              [] a = 20 -> <<14, 15>> [] a = 21 -> <<5, 6>> [] a = 22 -> <<7, 8>> [] a = 23 -> <<9, 10>>]

\* ---------------------------------------------------------------- byte pairs
\* a pair with parity stripped, as an instruction [op, n, it]
\*   pac (n: 100 * row + column, it), mid (it), tab (n), chr (n, m: code points, 0 none), spc, ext (n), ctl (n), nul
I3(op, n, m, it) == [op |-> op, n |-> n, m |-> m, it |-> it]
Pac(a, b) == LET half == IF b >= 96 THEN 2 ELSE 1
                 v == (b % 32) \div 2
             IN I3("pac", 100 * PacRow[a][half] + (IF v >= 8 THEN 4 * (v - 8) ELSE 0), 0, v = 7)
Instr(a, b) ==
  IF a = 0 /\ b = 0 THEN I3("nul", 0, 0, FALSE)
  ELSE IF a >= 32 THEN I3("chr", Basic(a), IF b >= 32 THEN Basic(b) ELSE 0, FALSE)
  ELSE IF a = 0 /\ b >= 32 THEN I3("chr", 0, Basic(b), FALSE)
  ELSE IF a \in 16..23 /\ b >= 64 /\ (a # 16 \/ b < 96) THEN Pac(a, b)
  ELSE IF a = 17 /\ b \in 32..47 THEN I3("mid", 0, 0, b \in {46, 47})
  ELSE IF a = 17 /\ b \in 48..63 THEN I3("spc", SpecialTable[b - 47], 0, FALSE)
  ELSE IF a = 18 /\ b \in 32..63 THEN I3("ext", ExtTable1[b - 31], 0, FALSE)
  ELSE IF a = 19 /\ b \in 32..63 THEN I3("ext", ExtTable2[b - 31], 0, FALSE)
  ELSE IF a = 20 /\ b \in 32..47 THEN I3("ctl", b, 0, FALSE)
  ELSE IF a = 23 /\ b \in 33..35 THEN I3("tab", b - 32, 0, FALSE)
  ELSE I3("unk", a, b, FALSE)
RCL == 32   BSP == 33   DER == 36   RU2 == 37   RU3 == 38   RU4 == 39   RDC == 41   EDM == 44   CRT == 45   ENM == 46   EOC == 47

\* ---------------------------------------------------------------- decoder
EmptyCell == [c |-> 0, it |-> FALSE, k |-> "e"]
Blank == [r \in 1..15 |-> <<>>]
NoText(scr) == \A r \in 1..15 : scr[r] = <<>>
PutCell(row, col, cell) ==     \* col counts from 0; rows are as long as what was written
  LET padded == IF Len(row) < col THEN row \o Force([i \in 1..(col - Len(row)) |-> EmptyCell]) ELSE row
  IN IF Len(padded) = col THEN Append(padded, cell) ELSE [padded EXCEPT ![col + 1] = cell]
DecInit == [mode |-> "none", disp |-> Blank, nond |-> Blank, row |-> 0, col |-> 0, it |-> FALSE, last |-> <<>>, prev |-> "nul",
            pen |-> FALSE, top |-> 0, order |-> <<>>, shows |-> <<>>, rows |-> <<>>, dom |-> {}]
\* a character or mid-row blank at the cursor
Write(d, cell) ==
  LET pop == d.mode = "pop"
      put(scr) == [scr EXCEPT ![d.row] = PutCell(@, d.col, cell)]
      old == LET r == IF pop THEN d.nond[d.row] ELSE d.disp[d.row] IN IF Len(r) > d.col THEN r[d.col + 1].k # "e" ELSE FALSE
  IN IF d.mode = "none" \/ ~ d.pen THEN [d EXCEPT !.dom = @ \cup {"no_preamble"}]
     ELSE [d EXCEPT !.nond = IF pop THEN put(@) ELSE @, !.disp = IF pop THEN @ ELSE put(@), !.col = @ + 1,
             !.rows = IF pop THEN @ ELSE [@ EXCEPT ![Len(@)].cells = Append(@, cell)],
             !.dom = IF old THEN @ \cup {"overwrites"} ELSE @]
PrevCell(d) == IF d.mode = "none" \/ ~ d.pen \/ d.row = 0 THEN EmptyCell
               ELSE LET r == IF d.mode = "pop" THEN d.nond[d.row] ELSE d.disp[d.row]
                    IN IF d.col >= 1 /\ Len(r) >= d.col THEN r[d.col] ELSE EmptyCell
Erase(d) ==
  LET cut(scr) == [scr EXCEPT ![d.row] = IF Len(@) = d.col THEN SubSeq(@, 1, Len(@) - 1) ELSE [@ EXCEPT ![d.col] = EmptyCell]]
      p == PrevCell(d)
      none == IF d.mode \in {"pop", "none"} \/ d.rows = <<>> THEN FALSE ELSE d.rows[Len(d.rows)].cells = <<>>    \* of this row
  IN IF p.k \notin {"c", "x"} \/ none THEN [d EXCEPT !.dom = @ \cup {"nothing_to_erase"}]
     ELSE [d EXCEPT !.nond = IF d.mode = "pop" THEN cut(@) ELSE @, !.disp = IF d.mode = "pop" THEN @ ELSE cut(@), !.col = @ - 1,
             !.rows = IF d.mode = "pop" THEN @ ELSE [@ EXCEPT ![Len(@)].cells = SubSeq(@, 1, Len(@) - 1)]]
Chr(d, c, k) == Write(d, [c |-> c, it |-> d.it, k |-> k])
\* a new transmitted row of roll-up or paint-on text
NewRow(d, at) == Append(d.rows, [cells |-> <<>>, at |-> at, row |-> d.row, col |-> 0, mode |-> d.mode])
Show(d, at) == Append(d.shows, [at |-> at, scr |-> d.disp, order |-> d.order])
RollOf(d) == d.mode \in {"roll2", "roll3", "roll4"}

Ctl(d, n, at) ==
  CASE n = RCL -> [d EXCEPT !.mode = "pop", !.pen = FALSE]
    [] n = ENM -> [d EXCEPT !.nond = Blank, !.pen = IF d.mode = "pop" THEN FALSE ELSE @, !.order = <<>>]
    [] n = EOC -> LET e == [d EXCEPT !.mode = "pop", !.disp = d.nond, !.nond = d.disp, !.pen = FALSE]
                  IN [e EXCEPT !.shows = Show(e, at), !.order = <<>>,
                        !.dom = IF ~ NoText(d.nond) /\ d.order = <<>> THEN @ \cup {"redisplay"} ELSE @]
    [] n = EDM -> LET e == [d EXCEPT !.disp = Blank] IN [e EXCEPT !.shows = Show([e EXCEPT !.order = <<>>], at)]
    [] n \in {RU2, RU3, RU4} ->
         LET m == IF n = RU2 THEN "roll2" ELSE IF n = RU3 THEN "roll3" ELSE "roll4"
         IN IF RollOf(d) THEN [d EXCEPT !.mode = m]
            ELSE LET e == [d EXCEPT !.mode = m, !.disp = Blank, !.nond = Blank, !.row = 15, !.col = 0, !.pen = TRUE, !.it = FALSE]
                 IN [e EXCEPT !.rows = NewRow(e, at)]
    [] n = CRT -> IF ~ RollOf(d) THEN [d EXCEPT !.dom = @ \cup {"stray_return"}]
                  ELSE LET depth == IF d.mode = "roll2" THEN 2 ELSE IF d.mode = "roll3" THEN 3 ELSE 4
                           b == IF d.row = 0 THEN 15 ELSE d.row
                           lo == IF b - depth + 1 < 1 THEN 1 ELSE b - depth + 1
                       IN [d EXCEPT !.disp = [r \in 1..15 |-> IF r \in lo..(b - 1) THEN d.disp[r + 1] ELSE <<>>], !.row = b, !.col = 0,
                                    !.pen = TRUE, !.it = FALSE, !.rows = NewRow([d EXCEPT !.row = b], at)]
    [] n = RDC -> [d EXCEPT !.mode = "paint", !.pen = FALSE]
    [] n = BSP -> Erase(d)
    [] n = DER -> [d EXCEPT !.dom = @ \cup {"erase_row"}]
    [] OTHER -> [d EXCEPT !.dom = @ \cup {"other_control"}]
Preamble(d, i, at) ==
  LET row == i.n \div 100
      \* in roll-up mode the whole window moves with its base row
      by == IF RollOf(d) THEN row - d.row ELSE 0
      moved == IF by = 0 THEN d.disp ELSE [r \in 1..15 |-> IF r - by \in 1..15 THEN d.disp[r - by] ELSE <<>>]
      e == [d EXCEPT !.row = row, !.col = i.n % 100, !.it = i.it, !.pen = TRUE, !.disp = moved]
      again == d.pen /\ d.row = row /\ d.prev \in {"pac", "tab"}     \* the second copy of a preamble, its tab offset between
  IN CASE d.mode = "pop" -> IF again \/ (\E k \in 1..Len(d.order) : d.order[k] = row)
                            THEN [e EXCEPT !.dom = IF again THEN @ ELSE @ \cup {"row_again"}]
                            ELSE [e EXCEPT !.order = Append(@, row), !.dom = IF d.order = <<>> /\ ~ NoText(d.nond) THEN @ \cup {"dirty"} ELSE @]
       [] d.mode = "none" -> [d EXCEPT !.dom = @ \cup {"no_mode"}]
       [] OTHER -> IF again \/ (d.pen /\ d.rows # <<>> /\ d.rows[Len(d.rows)].cells = <<>>) THEN e
                   ELSE [e EXCEPT !.rows = NewRow(e, at)]
Do(d, i, at) ==
  CASE i.op = "nul" -> d
    [] i.op = "chr" -> LET e == IF i.n = 0 THEN d ELSE Chr(d, i.n, "c") IN IF i.m = 0 THEN e ELSE Chr(e, i.m, "c")
    [] i.op = "spc" -> Chr(d, i.n, "c")
    [] i.op = "ext" -> IF PrevCell(d).k # "c" THEN [d EXCEPT !.dom = @ \cup {"no_stand_in"}] ELSE Chr(Erase(d), i.n, "x")
    [] i.op = "pac" -> Preamble(d, i, at)
    [] i.op = "tab" -> [d EXCEPT !.col = @ + i.n, !.dom = IF d.prev = "pac" THEN @ ELSE @ \cup {"tab_alone"}]
    [] i.op = "mid" -> [Write(d, [c |-> 32, it |-> i.it, k |-> "m"]) EXCEPT !.it = i.it]
    [] i.op = "ctl" -> Ctl(d, i.n, at)
    [] OTHER -> [d EXCEPT !.dom = @ \cup {"unknown_pair"}]
\* one frame: the pair a, b at line and word position "at"
Pair(d, w, at) ==
  LET a == Seven(w.a)
      b == Seven(w.b)
      ctl == a \in 16..31
      i == Instr(a, b)
  IN IF ctl /\ d.last = <<a, b>> THEN [d EXCEPT !.last = <<>>]       \* the second copy of a control pair
     ELSE [Do(d, i, at) EXCEPT !.last = IF ctl THEN <<a, b>> ELSE <<>>, !.prev = i.op]
DecLine(d, line, n) == LET wi == Force([k \in 1..Len(line.words) |-> [w |-> line.words[k], at |-> <<n, k - 1>>]])
                       IN FoldLeft(LAMBDA q, x : Pair(q, x.w, x.at), [d EXCEPT !.last = <<>>], wi)
Decode(lines) == LET li == Force([n \in 1..Len(lines) |-> [l |-> lines[n], n |-> n]])
                 IN FoldLeft(LAMBDA q, x : DecLine(q, x.l, x.n), DecInit, li)

\* ---------------------------------------------------------------- what is seen
RowsOf(scr) == SelectSeq([r \in 1..15 |-> r], LAMBDA r : scr[r] # <<>>)
\* first column written
FirstCol(row) == MinOf({i \in 1..Len(row) : row[i].k # "e"}) - 1
Cells(row) == SubSeq(row, FirstCol(row) + 1, Len(row))
\* the rows of a load, in transmission order, as groups of consecutive screen rows
GroupsOf(scr, order) ==
  FoldLeft(LAMBDA g, r : IF g # <<>> /\ g[Len(g)].bot + 1 = r
                         THEN [g EXCEPT ![Len(g)] = [@ EXCEPT !.bot = r, !.lines = Append(@, Cells(scr[r]))]]
                         ELSE Append(g, [top |-> r, bot |-> r, col |-> FirstCol(scr[r]), lines |-> <<Cells(scr[r])>>]),
           <<>>, SelectSeq(order, LAMBDA r : scr[r] # <<>>))
Groups(scr) == GroupsOf(scr, RowsOf(scr))
\* the pop-on captions: [at, until: <<>> or position, groups]
PopCaptions(d) ==
  LET n == Len(d.shows)
      idx == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~ NoText(d.shows[i].scr))
  IN Force([k \in 1..Len(idx) |-> [at |-> d.shows[idx[k]].at, until |-> IF idx[k] < n THEN d.shows[idx[k] + 1].at ELSE <<>>,
                                   groups |-> GroupsOf(d.shows[idx[k]].scr, d.shows[idx[k]].order)]])

\* ---------------------------------------------------------------- text against cells
Blankish(x) == x.k \in {"m", "e"} \/ x.c = 32
Punct == {33, 44, 46, 63}
\* may cell i of the row be missing from the text?  Blanks at the end of a row are
\* not visible; where a mid-row code's blank falls, any blank may stand for several;
\* and a mid-row code's blank before punctuation need not be shown.
RunOf(cells, i) == LET lo == CHOOSE a \in 1..i : (\A k \in a..i : Blankish(cells[k])) /\ (a = 1 \/ ~ Blankish(cells[a - 1]))
                       hi == CHOOSE b \in i..Len(cells) : (\A k \in i..b : Blankish(cells[k])) /\ (b = Len(cells) \/ ~ Blankish(cells[b + 1]))
                   IN <<lo, hi>>
Optional(cells, i) ==
  IF ~ Blankish(cells[i]) THEN FALSE
  ELSE LET run == RunOf(cells, i)
           soft(k) == cells[k].k # "c" /\ cells[k].k # "x"
           hard == \E k \in run[1]..run[2] : ~ soft(k)
       IN IF run[2] = Len(cells) THEN TRUE
          ELSE IF ~ soft(i) THEN FALSE
          ELSE run[1] = 1 \/ hard \/ cells[run[2] + 1].c \in Punct \/ \E k \in run[1]..(i - 1) : soft(k)
\* the text [c, it] read, against the cells sent (a nondeterministic automaton over text positions)
TextFits(cells, text, italics) ==
  LET ci == Force([i \in 1..Len(cells) |-> [x |-> cells[i], o |-> Optional(cells, i)]])
      step(pos, q) == UNION {(IF q.o THEN {p} ELSE {})
                             \cup (IF p < Len(text) /\ (IF Blankish(q.x) THEN text[p + 1].c = 32 ELSE Same(q.x.c, text[p + 1].c))
                                      /\ (~ italics \/ Blankish(q.x) \/ q.x.it = text[p + 1].it)
                                   THEN {p + 1} ELSE {}) : p \in pos}
  IN Len(text) \in FoldLeft(step, {0}, ci)
=============================================================================
