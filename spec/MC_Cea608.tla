----------------------------- MODULE MC_Cea608 -----------------------------
(***************************************************************************)
(* The decoder of Cea608 itself: three decoders are fed every history of   *)
(* up to MaxLen pairs, one representative of each kind of pair: s gets     *)
(* every control pair once, d twice in a row, m the odd ones twice.        *)
(* Checked: repetition changes nothing (the rows transmitted, the displays *)
(* and the memories are the same); a roll-up window is no deeper than its  *)
(* mode and no row below the base row holds text; each character is on one *)
(* transmitted row, in order; and what is loaded for a pop-on caption is   *)
(* not seen before the end-of-caption code.                                *)
(***************************************************************************)
EXTENDS Cea608
CONSTANTS MaxLen, Alphabet
VARIABLES hist, s, d, m
vars == <<hist, s, d, m>>

PairOf(x) ==
  CASE x = "rcl" -> [a |-> 20, b |-> 32] [] x = "ru2" -> [a |-> 20, b |-> 37] [] x = "ru3" -> [a |-> 20, b |-> 38]
    [] x = "rdc" -> [a |-> 20, b |-> 41] [] x = "edm" -> [a |-> 20, b |-> 44] [] x = "cr" -> [a |-> 20, b |-> 45]
    [] x = "enm" -> [a |-> 20, b |-> 46] [] x = "eoc" -> [a |-> 20, b |-> 47] [] x = "bs" -> [a |-> 20, b |-> 33]
    [] x = "p15" -> [a |-> 20, b |-> 112] [] x = "p14i" -> [a |-> 20, b |-> 78] [] x = "p1" -> [a |-> 17, b |-> 64]
    [] x = "tab" -> [a |-> 23, b |-> 34] [] x = "mid" -> [a |-> 17, b |-> 46] [] x = "spc" -> [a |-> 17, b |-> 55]
    [] x = "ext" -> [a |-> 18, b |-> 32] [] x = "chr" -> [a |-> 97, b |-> 98]
IsControl(x) == x # "chr"
Once(q, x, k) == Pair(q, PairOf(x), <<1, k>>)
Twice(q, x, k) == IF IsControl(x) THEN Once(Once(q, x, k), x, k) ELSE Once(q, x, k)

Init == hist = <<>> /\ s = DecInit /\ d = DecInit /\ m = DecInit
\* a decoder fed control pairs once takes a repeated one for the second copy: streams
\* that need the same control twice send it doubled
Step(x) == /\ IF hist = <<>> THEN TRUE ELSE ~ (IsControl(x) /\ hist[Len(hist)] = x)
           /\ hist' = Append(hist, x)
           /\ s' = Once(s, x, Len(hist))
           /\ d' = Twice(d, x, Len(hist))
           /\ m' = IF Len(hist) % 2 = 0 THEN Once(m, x, Len(hist)) ELSE Twice(m, x, Len(hist))
Next == Len(hist) < MaxLen /\ \E x \in Alphabet : Step(x)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- invariants
WellFormed == s.dom = {}
Seen(q) == [disp |-> q.disp, nond |-> q.nond, shows |-> q.shows, rows |-> q.rows, mode |-> q.mode, row |-> q.row, col |-> q.col,
            it |-> q.it, pen |-> q.pen, order |-> q.order, dom |-> q.dom]
Doubling == Seen(s) = Seen(d) /\ Seen(s) = Seen(m)
Depth(q) == CASE q.mode = "roll2" -> 2 [] q.mode = "roll3" -> 3 [] OTHER -> 4
\* right after a carriage return (a mode code alone leaves the rows of a deeper window)
Window == (RollOf(s) /\ hist # <<>> /\ hist[Len(hist)] = "cr")
            => \A r \in 1..15 : s.disp[r] # <<>> => r <= s.row - 1 /\ r > s.row - Depth(s)
BaseRow == (RollOf(s) /\ WellFormed /\ \A i \in 1..Len(hist) : hist[i] \notin {"eoc", "rdc"})
             => \A r \in 1..15 : s.disp[r] # <<>> => r <= s.row
\* displayed text of the roll-up and paint-on modes, from the history alone
Direct == LET step(q, x) == CASE x \in {"ru2", "ru3", "rdc"} -> [q EXCEPT !.on = TRUE]
                              [] x \in {"rcl", "eoc"} -> [q EXCEPT !.on = FALSE]
                              [] x = "chr" /\ q.on -> [q EXCEPT !.t = @ \o <<97, 98>>]
                              [] x = "spc" /\ q.on -> [q EXCEPT !.t = Append(@, 9834)]
                              [] x = "mid" /\ q.on -> [q EXCEPT !.t = Append(@, 32)]
                              [] x = "bs" /\ q.on -> [q EXCEPT !.t = SubSeq(@, 1, Len(@) - 1)]
                              [] x = "ext" /\ q.on -> [q EXCEPT !.t = Append(SubSeq(@, 1, Len(@) - 1), 193)]
                              [] OTHER -> q
          IN FoldLeft(step, [on |-> FALSE, t |-> <<>>], hist).t
Sent == FoldLeft(LAMBDA q, r : q \o Force([i \in 1..Len(r.cells) |-> r.cells[i].c]), <<>>, s.rows)
Conserved == WellFormed => Sent = Direct
\* a load is invisible until it is flipped
Hidden == (s.mode = "pop" /\ \A i \in 1..Len(hist) : hist[i] \notin {"eoc", "rdc", "ru2", "ru3"}) => NoText(s.disp) /\ s.rows = <<>>
\* the rows of a load are those addressed, each once
Ordered == (WellFormed /\ s.mode = "pop" /\ s.order # <<>>)
             => /\ \A i, j \in 1..Len(s.order) : i # j => s.order[i] # s.order[j]
                /\ \A r \in 1..15 : s.nond[r] # <<>> => \E i \in 1..Len(s.order) : s.order[i] = r
\* every caption of a well-formed stream has text, and its groups hold every cell of its screen
Grouped == WellFormed =>
  \A k \in 1..Len(s.shows) :
    LET h == s.shows[k]
        g == GroupsOf(h.scr, h.order)
        cells(q) == FoldLeft(LAMBDA n, l : n + Len(l), 0, q.lines)
    IN h.order # <<>> => FoldLeft(LAMBDA n, q : n + cells(q), 0, g) = FoldLeft(LAMBDA n, r : n + Len(Cells(h.scr[r])), 0, RowsOf(h.scr))
=============================================================================
