------------------------------ MODULE JudgeC16 ------------------------------
(***************************************************************************)
(* C16: roll-up and paint-on text is conserved and ordered.                *)
(*  [doc, ok, exc, caps: [s, e, nodes]]                                    *)
(***************************************************************************)
EXTENDS JudgeCore, Cea608

Visible(cells) == LET v == SelectSeq(cells, LAMBDA x : ~ Blankish(x)) IN Force([i \in 1..Len(v) |-> v[i].c])
Seen(text) == SelectSeq(text, LAMBDA c : c # 32)
\* the lines of all captions, in order, that show something
LinesOf(nodes) ==
  FoldLeft(LAMBDA a, n : IF n.k = "b" THEN Append(a, <<>>)
                         ELSE IF n.k = "t" THEN [a EXCEPT ![Len(a)] = @ \o n.c] ELSE a, << <<>> >>, nodes)
AllLines(caps) == SelectSeq(FoldLeft(LAMBDA a, c : a \o LinesOf(c.nodes), <<>>, caps), LAMBDA t : Seen(t) # <<>>)
\* after how many visible characters each line, or row, ends
Sums(lens) == FoldLeft(LAMBDA a, n : Append(a, (IF a = <<>> THEN 0 ELSE a[Len(a)]) + n), <<>>, lens)
Cum(ls) == Sums(Force([i \in 1..Len(ls) |-> Len(ls[i])]))
SameText(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])
Feasible(doc) == \A i \in 2..Len(doc.lines) : doc.lines[i].fr >= doc.lines[i - 1].fr + Len(doc.lines[i - 1].words)
                                              /\ doc.lines[i].drop = doc.lines[1].drop
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Pt(r) == [s |-> r.s, u |-> r.u]
Close(a, b) == a.k # "bad" /\ b.k # "bad" /\ LET dd == SubT(Pt(a), Pt(b)) IN (dd.s = 0 /\ dd.u <= 1) \/ (dd.s = 0 - 1 /\ dd.u >= MICRO - 1)
V_C16(e) ==
  LET doc == SccParse(e.doc)
      d == Decode(doc.lines)
      rows == SelectSeq(d.rows, LAMBDA r : Visible(r.cells) # <<>>)
      rv == Force([i \in 1..Len(rows) |-> Visible(rows[i].cells)])
      ls == AllLines(e.caps)
      lv == Force([i \in 1..Len(ls) |-> Seen(ls[i])])
      pop == \E i \in 1..Len(d.shows) : d.shows[i].order # <<>>
      dom == doc.wf /\ d.dom = {} /\ Feasible(doc) /\ ~ pop /\ rows # <<>> /\ d.mode # "none"
             /\ \A i \in 1..Len(d.rows) : Len(d.rows[i].cells) <= 32
      rc == Cum(rv)
      lc == Cum(lv)
      same == SameText(Flat(rv), Flat(lv))
      \* rows that are lines of their own
      single(i) == \E j \in 1..Len(ls) : lc[j] = rc[i] /\ Len(lv[j]) = Len(rv[i])
      lineOf(i) == ls[CHOOSE j \in 1..Len(ls) : lc[j] = rc[i] /\ Len(lv[j]) = Len(rv[i])]
      chars(t) == Force([i \in 1..Len(t) |-> [c |-> t[i], it |-> FALSE]])
      n == Len(e.caps)
      bad == IF ~ dom THEN {"GENERATOR"}
             ELSE IF ~ e.ok THEN {"raised"}
             ELSE (IF ~ same THEN {"text"}
                   ELSE (IF \E j \in 1..Len(lc) : \A i \in 1..Len(rc) : rc[i] # lc[j] THEN {"torn"} ELSE {})
                        \cup (IF \E i \in 1..Len(rows) : IF single(i) THEN ~ TextFits(rows[i].cells, chars(lineOf(i)), FALSE) ELSE FALSE THEN {"blanks"} ELSE {}))
                  \cup (IF \E i \in 1..n : ~ LtT(Pt(e.caps[i].s), Pt(e.caps[i].e)) \/ (i > 1 /\ LtT(Pt(e.caps[i].s), Pt(e.caps[i - 1].s))) THEN {"disorder"} ELSE {})
                  \cup (IF \E i \in 1..n : LET J == {j \in i..n : LtT(Pt(e.caps[i].s), Pt(e.caps[j].s))}
                                           IN IF J = {} THEN FALSE ELSE ~ Close(e.caps[i].e, e.caps[MinOf(J)].s) THEN {"end"} ELSE {})
      Tg(name, b) == IF b THEN {name} ELSE {}
      R == 1..Len(rows)
  IN [bad |-> bad,
      tags |-> {rows[i].mode : i \in R} \cup Tg("modes_mixed", \E i \in R : rows[i].mode # rows[1].mode)
               \cup (IF doc.lines # <<>> /\ doc.lines[1].drop THEN {"drop_frame"} ELSE {"non_drop"})
               \cup Tg("one_row", Len(rows) = 1) \cup Tg("rows_5_up", Len(rows) >= 5)
               \cup Tg("erased", \E i \in 1..Len(d.shows) : TRUE) \cup Tg("several_lines_a_caption", Len(ls) > n)
               \cup Tg("base_moves", \E i \in 2..Len(rows) : rows[i].row # rows[i - 1].row /\ rows[i].mode # "paint")]
=============================================================================
