------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Layouts: the rectangle a piece of text is placed in.                    *)
(*  size    [n, u]: n hundredths of the unit u ("%", "px", "em", "c", "pt")*)
(*  layout  [o, e: <<>> or <<x, y>>, p: <<>> or <<before, after, start,    *)
(*          end>>, h, v: "" or a TTML keyword, vtt: raw WebVTT settings]   *)
(*  NoLay   nothing is said                                                *)
(* Percentages are integers, in units of a hundredth of 0.01 % (FULL is    *)
(* 100 %), so that the two decimals of a document are multiples of 100.    *)
(***************************************************************************)
EXTENDS Num
FULL == 1000000
NoLay == [o |-> <<>>, e |-> <<>>, p |-> <<>>, h |-> "", v |-> "", vtt |-> <<>>]
HasLay(l) == l # NoLay
Geo(l) == [l EXCEPT !.vtt = <<>>]

\* the layout in force, from the innermost level that says anything
FirstLay(ls) == LET I == {i \in 1..Len(ls) : HasLay(ls[i])} IN IF I = {} THEN NoLay ELSE ls[MinOf(I)]

\* ----------------------------------------------- relative to the frame
\* a size as a percentage; axis "h" or "v"; w, h: the frame, 0 if unknown.
\* -1: the dimension is not known
CELLS(axis) == IF axis = "h" THEN 32 ELSE 15
Pct(sz, axis, w, h) ==
  LET dim == IF axis = "h" THEN w ELSE h
  IN IF sz.u = "%" THEN sz.n * 100
     ELSE IF sz.u = "c" THEN (sz.n * 10000) \div CELLS(axis)
     ELSE IF dim = 0 THEN 0 - 1
     ELSE CASE sz.u = "px" -> (sz.n * 10000) \div dim
            [] sz.u = "em" -> (sz.n * 16 * 10000) \div dim
            [] sz.u = "pt" -> (sz.n * 40000) \div (3 * dim)
\* ... as the lengths of a layout: [o, e, p] of percentages
RelLay(l, w, h) ==
  LET Pair(q) == IF q = <<>> THEN <<>> ELSE <<Pct(q[1], "h", w, h), Pct(q[2], "v", w, h)>>
  IN [o |-> Pair(l.o), e |-> Pair(l.e), h |-> l.h, v |-> l.v, vtt |-> l.vtt,
      p |-> IF l.p = <<>> THEN <<>>
            ELSE <<Pct(l.p[1], "v", w, h), Pct(l.p[2], "v", w, h), Pct(l.p[3], "h", w, h), Pct(l.p[4], "h", w, h)>>]
Sizes(l) == SeqRange(l.o) \cup SeqRange(l.e) \cup SeqRange(l.p)
IsRelative(l) == \A s \in Sizes(l) : s.u = "%"
\* the dimensions without which the layout has no percentages; a cell is a
\* fixed part of the frame, but a writer may still ask for the dimension
Missing(l, w, h, cells) ==
  LET Needs(s) == s.u \in {"px", "em", "pt"} \/ (cells /\ s.u = "c")
      hs == {l.o[i] : i \in {1} \cap 1..Len(l.o)} \cup {l.e[i] : i \in {1} \cap 1..Len(l.e)} \cup {l.p[i] : i \in {3, 4} \cap 1..Len(l.p)}
      vs == {l.o[i] : i \in {2} \cap 1..Len(l.o)} \cup {l.e[i] : i \in {2} \cap 1..Len(l.e)} \cup {l.p[i] : i \in {1, 2} \cap 1..Len(l.p)}
  IN (w = 0 /\ \E s \in hs : Needs(s)) \/ (h = 0 /\ \E s \in vs : Needs(s))

\* ----------------------------------------------- fit to screen
SAFE_R == 900000    SAFE_B == 950000    SAFE_L == 100000    SAFE_T == 50000
InSafe(r) == r.o # <<>> /\ r.o[1] \in SAFE_L..SAFE_R /\ r.o[2] \in SAFE_T..SAFE_B
FitLay(r) ==
  IF r.o = <<>> THEN r
  ELSE LET dh == SAFE_R - r.o[1]
           dv == SAFE_B - r.o[2]
       IN IF r.e = <<>> THEN [r EXCEPT !.e = <<dh, dv>>]
          ELSE [r EXCEPT !.e = <<IF r.o[1] + @[1] > SAFE_R THEN dh ELSE @[1], IF r.o[2] + @[2] > SAFE_B THEN dv ELSE @[2]>>]

\* ----------------------------------------------- comparison
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
SeqNear(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i], tol)
DefH(h) == IF h = "" THEN "start" ELSE h
DefV(v) == IF v = "" THEN "after" ELSE v
\* two relative layouts place text alike; ext: compare the extents, too
SameRel(a, b, tol, ext) ==
  /\ SeqNear(a.o, b.o, tol) /\ SeqNear(a.p, b.p, tol) /\ (ext => SeqNear(a.e, b.e, tol))
  /\ DefH(a.h) = DefH(b.h) /\ DefV(a.v) = DefV(b.v)

\* ----------------------------------------------- parsing
BadSize == [n |-> 0 - 1, u |-> "?"]
\* "12.5%" -> [n |-> 1250, u |-> "%"]; at most two decimals
SizeOf(c) ==
  LET I == {i \in 1..Len(c) : ~ (IsDigit(c[i]) \/ c[i] = DOT)}
      k == IF I = {} THEN Len(c) + 1 ELSE MinOf(I)
      q == SplitC(Sub(c, 1, k - 1), DOT)
      unit == Sub(c, k, Len(c))
      fr == IF Len(q) = 2 THEN q[2] ELSE <<>>
      u == CASE unit = <<PERCENT>> -> "%" [] unit = S("px") -> "px" [] unit = S("em") -> "em"
             [] unit = S("c") -> "c" [] unit = S("pt") -> "pt" [] OTHER -> "?"
  IN IF c = S("0") THEN [n |-> 0, u |-> "px"]
     ELSE IF Len(q) \in {1, 2} /\ AllDigits(q[1]) /\ Len(q[1]) <= 5 /\ Len(fr) <= 2 /\ (Len(q) = 2 => AllDigits(fr)) /\ u # "?"
     THEN [n |-> NatOf(q[1]) * 100 + (IF Len(fr) = 0 THEN 0 ELSE IF Len(fr) = 1 THEN 10 * NatOf(fr) ELSE NatOf(fr)), u |-> u]
     ELSE BadSize
SizesOf(c) == MapSeq(Words(c), SizeOf)
KeyOf(c) ==
  CASE c = S("left") -> "left" [] c = S("center") -> "center" [] c = S("right") -> "right" [] c = S("start") -> "start"
    [] c = S("end") -> "end" [] c = S("before") -> "before" [] c = S("after") -> "after" [] c = <<>> -> "" [] OTHER -> "?"

\* WebVTT cue settings: [ok, align, pos, line, size]; -1 if absent
NoSet == [ok |-> TRUE, align |-> "", pos |-> 0 - 1, line |-> 0 - 1, size |-> 0 - 1]
VttSet(c) ==
  LET PctOf(v) == LET s == SizeOf(v) IN IF s.u = "%" THEN s.n * 100 ELSE 0 - 2
      One(a, w) == LET i == FindC(w, 1, COLON)
                       k == Sub(w, 1, i - 1)
                       v == Sub(w, i + 1, Len(w))
                   IN CASE k = S("align") /\ a.align = "" /\ KeyOf(v) \in {"left", "center", "right", "start", "end"} -> [a EXCEPT !.align = KeyOf(v)]
                        [] k = S("position") /\ a.pos = 0 - 1 /\ PctOf(v) >= 0 -> [a EXCEPT !.pos = PctOf(v)]
                        [] k = S("line") /\ a.line = 0 - 1 /\ PctOf(v) >= 0 -> [a EXCEPT !.line = PctOf(v)]
                        [] k = S("size") /\ a.size = 0 - 1 /\ PctOf(v) >= 0 -> [a EXCEPT !.size = PctOf(v)]
                        [] OTHER -> [a EXCEPT !.ok = FALSE]
  IN FoldLeft(One, NoSet, Words(c))
\* what the cue settings of a relative layout have to be
WantSet(r) ==
  LET P(i) == IF r.p = <<>> THEN 0 ELSE r.p[i]
  IN [ok |-> TRUE, align |-> IF DefH(r.h) = "center" THEN "" ELSE DefH(r.h),
      pos |-> IF r.o = <<>> THEN 0 - 1 ELSE r.o[1] + P(3),
      line |-> IF r.o = <<>> THEN 0 - 1 ELSE r.o[2] + P(1),
      size |-> IF r.e = <<>> THEN 0 - 1 ELSE r.e[1] - P(3) - P(4)]
SetMatches(want, got, r, tol) ==
  LET Ok(w, g, pad) == Near(w, g, tol) \/ (w = 0 - 1 /\ pad # 0 - 1 /\ Near(pad, g, tol))
      P(i) == IF r.p = <<>> THEN 0 - 1 ELSE r.p[i]
  IN /\ got.ok
     /\ want.align = got.align \/ (got.align = "center" /\ want.align = "")
     /\ Ok(want.pos, got.pos, P(3)) /\ Ok(want.line, got.line, P(1)) /\ Near(want.size, got.size, tol)
=============================================================================
