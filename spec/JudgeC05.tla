------------------------------ MODULE JudgeC05 ------------------------------
(***************************************************************************)
(* C05: pop-on SCC decoding.                                               *)
(*  [doc, strict: BOOLEAN, ok, exc, caps: [lay, nodes: [k, c, lay]]]       *)
(*  nodes: "t" text, "b" break, "o"/"c" open/close italics, "?" else       *)
(*  lay: [ok, x, y] origin in thousandths of a percent                     *)
(***************************************************************************)
EXTENDS JudgeCore, Cea608

Sorted(o) == \A i \in 1..(Len(o) - 1) : o[i] < o[i + 1]
Domain(doc, d) ==
  /\ doc.wf /\ d.dom = {}
  /\ \A i \in 1..Len(d.shows) : \A r \in 1..15 :
       /\ Len(d.shows[i].scr[r]) <= 32
       /\ d.shows[i].scr[r] # <<>> => \E k \in 1..Len(d.shows[i].scr[r]) : ~ Blankish(d.shows[i].scr[r][k])
\* the nodes of a caption: lines of characters with italics; whether spans balance
Flat(nodes) ==
  FoldLeft(LAMBDA a, n :
      CASE n.k = "t" -> [a EXCEPT !.lines[Len(a.lines)] = @ \o Force([i \in 1..Len(n.c) |-> [c |-> n.c[i], it |-> a.it]])]
        [] n.k = "b" -> [a EXCEPT !.lines = Append(@, <<>>)]
        [] n.k = "o" -> [a EXCEPT !.it = TRUE, !.bal = @ /\ ~ a.it]
        [] n.k = "c" -> [a EXCEPT !.it = FALSE, !.bal = @ /\ a.it]
        [] OTHER -> a,
    [lines |-> <<<<>>>>, it |-> FALSE, bal |-> TRUE], nodes)
Place(g) == [x |-> 2500 * g.col + 10000, y |-> 6000 * (g.top - 1) + 5000]
At_(lay, p) == lay.ok /\ lay.x \in (p.x - 1)..(p.x + 1) /\ lay.y \in (p.y - 1)..(p.y + 1)
OneCap(g, c) ==
  LET f == Flat(c.nodes)
      p == Place(g)
      n == Len(f.lines)
  IN (IF n # Len(g.lines) THEN {"lines"}
      ELSE IF \E i \in 1..n : ~ TextFits(g.lines[i], f.lines[i], FALSE) THEN {"text"}
      ELSE IF \E i \in 1..n : ~ TextFits(g.lines[i], f.lines[i], TRUE) THEN {"italics"} ELSE {})
     \cup (IF f.bal /\ ~ f.it THEN {} ELSE {"unbalanced"})
     \cup (IF At_(c.lay, p) THEN {} ELSE {"position"})
     \cup (IF \E i \in 1..Len(c.nodes) : c.nodes[i].k = "t" /\ c.nodes[i].lay.ok /\ ~ At_(c.nodes[i].lay, p) THEN {"node_position"} ELSE {})
V_C05(e) ==
  LET doc == SccParse(e.doc)
      d == Decode(doc.lines)
      pc == PopCaptions(d)
      want == FoldLeft(LAMBDA a, q : a \o Force([i \in 1..Len(q.groups) |-> [g |-> q.groups[i], n |-> q.at]]), <<>>, pc)
      dom == Domain(doc, d) /\ \A i \in 1..Len(d.shows) : \A k \in 1..Len(d.shows[i].order) : d.shows[i].scr[d.shows[i].order[k]] # <<>>
      bad == IF ~ dom THEN {"GENERATOR"}
             ELSE IF ~ e.ok THEN {"raised"}
             ELSE IF Len(want) # Len(e.caps) THEN {"count"}
             ELSE UNION {OneCap(want[i].g, e.caps[i]) : i \in 1..Len(want)}
                  \cup (IF \E i, j \in 1..Len(want) : i < j /\ want[i].n = want[j].n
                             /\ (e.caps[i].s # e.caps[j].s \/ e.caps[i].e # e.caps[j].e) THEN {"group_times"} ELSE {})
      Tg(name, b) == IF b THEN {name} ELSE {}
      cells == UNION {UNION {{want[i].g.lines[k][x] : x \in 1..Len(want[i].g.lines[k])} : k \in 1..Len(want[i].g.lines)} : i \in 1..Len(want)}
  IN [bad |-> bad,
      tags |-> Tg("loads_2plus", Len(pc) > 1) \cup Tg("multi_line", \E i \in 1..Len(want) : Len(want[i].g.lines) > 1)
               \cup Tg("any_order", \E i \in 1..Len(d.shows) : ~ Sorted(d.shows[i].order))
               \cup Tg("split", \E i \in 1..Len(pc) : Len(pc[i].groups) > 1)
               \cup Tg("italics", \E x \in cells : x.it) \cup Tg("extended", \E x \in cells : x.k = "x") \cup Tg("midrow", \E x \in cells : x.k = "m")
               \cup Tg("drop_frame", \E i \in 1..Len(doc.lines) : doc.lines[i].drop) \cup {"captions_" \o ToString(IF Len(want) > 4 THEN 5 ELSE Len(want))}]
=============================================================================
