-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Geometry values: the grammar of sizes, their printed form, shorthands,  *)
(* and value equality.  A size is [i, f, u]: integer and fraction digits   *)
(* (code points, without superfluous zeros) and unit.                      *)
(***************************************************************************)
EXTENDS Layout

Units == {"px", "em", "%", "c", "pt"}
StripL(d) == Sub(d, MinOf({i \in 1..Len(d) : d[i] # 48} \cup {Len(d) + 1}), Len(d))
StripR(d) == LET I == {i \in 1..Len(d) : d[i] # 48} IN IF I = {} THEN <<>> ELSE Sub(d, 1, CHOOSE i \in I : \A j \in I : j <= i)
NoSize == [ok |-> FALSE, i |-> <<>>, f |-> <<>>, u |-> "?"]
\* length of the unit s ends with, 0: none
UnitAt(s, n) == CASE At(s, n, S("px")) /\ n = Len(s) - 1 -> "px" [] At(s, n, S("em")) /\ n = Len(s) - 1 -> "em"
                  [] At(s, n, S("pt")) /\ n = Len(s) - 1 -> "pt" [] At(s, n, S("%")) /\ n = Len(s) -> "%"
                  [] At(s, n, S("c")) /\ n = Len(s) -> "c" [] OTHER -> "?"
ParseSize(s) ==
  IF s = S("0") THEN [ok |-> TRUE, i |-> <<>>, f |-> <<>>, u |-> "px"]
  ELSE LET k == FirstNon(s, 1, (48..57) \cup {DOT})
           q == SplitC(Sub(s, 1, k - 1), DOT)
           u == UnitAt(s, k)
       IN IF u = "?" \/ Len(q) > 2 \/ ~ AllDigits(q[1]) \/ (Len(q) = 2 /\ ~ AllDigits(q[2])) THEN NoSize
          ELSE [ok |-> TRUE, i |-> StripL(q[1]), f |-> IF Len(q) = 2 THEN StripR(q[2]) ELSE <<>>, u |-> u]
\* spellings on which "a non-negative decimal number" may be understood either way:
\* a bare point before or after the digits, a sign
Unclear(s) ==
  LET t == IF s # <<>> /\ s[1] \in {PLUS, DASH} THEN Sub(s, 2, Len(s)) ELSE s
      k == FirstNon(t, 1, (48..57) \cup {DOT})
      num == Sub(t, 1, k - 1)
      digits == SelectSeq(num, IsDigit)
  IN /\ ~ ParseSize(s).ok
     /\ digits # <<>> /\ Len(num) - Len(digits) <= 1
     /\ (UnitAt(t, k) # "?" \/ (k = Len(t) + 1 /\ (t # s) /\ \A i \in 1..Len(digits) : digits[i] = 48))

\* ------------------------------------------------------ printed form
\* at most two decimals
PrintedOk(s) == LET z == ParseSize(s) IN z.ok /\ Len(z.f) <= 2
\* exact value as [s: integer part, u: millionths]
Value(z) == [s |-> NatOf(IF z.i = <<>> THEN S("0") ELSE z.i), u |-> FracU(z.f)]
\* half of a hundredth, and the truncation of recorded values
NearHundredth(a, b) == LET d == IF LtT(a, b) THEN SubT(b, a) ELSE SubT(a, b) IN LeT(d, [s |-> 0, u |-> 5001])

\* --------------------------------------------------------- shorthands
\* one to four sizes in TTML order -> before, after, start, end
Edges(v) == CASE Len(v) = 1 -> <<v[1], v[1], v[1], v[1]>>
              [] Len(v) = 2 -> <<v[1], v[1], v[2], v[2]>>
              [] Len(v) = 3 -> <<v[1], v[3], v[2], v[2]>>
              [] OTHER -> <<v[1], v[3], v[4], v[2]>>

\* ----------------------------------------------------- value equality
\* a description d: [t: type, ...]; sizes as [n, u], absent things <<>> or "",
\* paddings default to 0 %; inh: a layout to inherit absent components from
Zero == [n |-> 0, u |-> "%"]
NormPad(p) == Force([i \in 1..Len(p) |-> IF p[i].u = "" THEN Zero ELSE p[i]])
Inherit(d) ==
  IF d.inh = <<>> THEN d
  ELSE LET q == d.inh[1] IN
       [d EXCEPT !.o = IF @ = <<>> THEN q.o ELSE @, !.e = IF @ = <<>> THEN q.e ELSE @,
                 !.p = IF @ = <<>> THEN q.p ELSE @, !.a = IF @ = <<>> THEN q.a ELSE @]
NormD(d) ==
  IF d.t = "layout" THEN LET x == Inherit(d) IN <<"layout", x.o, x.e, NormPad(x.p), x.a>>
  ELSE IF d.t = "padding" THEN <<"padding", NormPad(d.p)>>
  ELSE IF d.t = "align" THEN <<"align", d.a>>
  ELSE <<d.t, d.o>>          \* size, point, stretch: the sizes in o
SameValue(a, b) == NormD(a) = NormD(b)
=============================================================================
