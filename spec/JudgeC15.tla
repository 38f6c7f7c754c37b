------------------------------ MODULE JudgeC15 ------------------------------
(***************************************************************************)
(* C15: lines longer than 32 characters are never returned silently.       *)
(*  [doc, ok, exc, msg, caps: lines of every caption read]                 *)
(***************************************************************************)
EXTENDS JudgeCore, Cea608
Limit == 32

Feasible(doc) == \A i \in 2..Len(doc.lines) : doc.lines[i].fr >= doc.lines[i - 1].fr + Len(doc.lines[i - 1].words)
                                              /\ doc.lines[i].drop = doc.lines[1].drop
\* every row displayed: of pop-on screens, and transmitted in the other modes
RowsShown(d) ==
  FoldLeft(LAMBDA a, s : a \o Force([i \in 1..Len(s.order) |-> IF s.scr[s.order[i]] = <<>> THEN <<>> ELSE Cells(s.scr[s.order[i]])]), <<>>, d.shows)
  \o Force([i \in 1..Len(d.rows) |-> d.rows[i].cells])
Least(cells) == Cardinality({i \in 1..Len(cells) : ~ Optional(cells, i)})
\* texts without blanks, written one way
OneWay(c) == IF c \in DOMAIN Alike THEN (IF c \in {39, 8217} THEN 39 ELSE 124) ELSE c
Squeezed(t) == LET v == SelectSeq(t, LAMBDA c : c \notin {32, 10, 160}) IN Force([i \in 1..Len(v) |-> OneWay(v[i])])
TextOf(cells) == LET v == SelectSeq(cells, LAMBDA x : ~ Blankish(x)) IN Squeezed(Force([i \in 1..Len(v) |-> v[i].c]))
HasPart(t, p) == \E k \in 0..(Len(t) - Len(p)) : \A i \in 1..Len(p) : t[k + i] = p[i]
V_C15(e) ==
  LET doc == SccParse(e.doc)
      d == Decode(doc.lines)
      rows == SelectSeq(RowsShown(d), LAMBDA r : r # <<>>)
      over == {i \in 1..Len(rows) : Least(rows[i]) > Limit}
      maybe == {i \in 1..Len(rows) : Len(rows[i]) > Limit}
      dom == doc.wf /\ d.dom = {} /\ Feasible(doc)
      msg == Squeezed(e.msg)
      bad == IF ~ dom THEN {"GENERATOR"}
             ELSE IF e.ok THEN (IF \E i \in 1..Len(e.caps) : Len(e.caps[i]) > Limit THEN {"returned"} ELSE {})
                               \cup (IF over # {} THEN {"accepted"} ELSE {})
             ELSE IF e.exc # "CaptionLineLengthError"
                  THEN (IF e.exc = "CaptionReadNoCaptions" /\ \A i \in 1..Len(rows) : TextOf(rows[i]) = <<>> THEN {} ELSE {"raised"})
             ELSE (IF maybe = {} THEN {"rejected"} ELSE {})
                  \cup (IF \E i \in over : ~ HasPart(msg, TextOf(rows[i])) THEN {"unnamed"} ELSE {})
      Tg(name, b) == IF b THEN {name} ELSE {}
  IN [bad |-> bad,
      tags |-> Tg("refused", ~ e.ok) \cup Tg("several_offending", Cardinality(over) > 1) \cup Tg("some_offending", over # {} /\ Cardinality(over) < Len(rows))
               \cup Tg("limit_exactly", \E i \in 1..Len(rows) : Len(rows[i]) = Limit) \cup Tg("limit_plus_one", \E i \in 1..Len(rows) : Len(rows[i]) = Limit + 1)
               \cup {d.rows[i].mode : i \in 1..Len(d.rows)} \cup Tg("pop", \E i \in 1..Len(d.shows) : d.shows[i].order # <<>>)]
=============================================================================
