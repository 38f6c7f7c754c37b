-------------------------------- MODULE Xml --------------------------------
(***************************************************************************)
(* A tokenizer for XML 1.0 (strict) and for the HTML dialect of SAMI, as a *)
(* transition function over characters, and the well-formedness rules of   *)
(* XML as a fold over the tokens.                                          *)
(*   token [k |-> "o", n, a, sc]  start tag, attributes, self-closed?      *)
(*         [k |-> "c", n]         end tag                                  *)
(*         [k |-> "t", c]         character data, references decoded       *)
(***************************************************************************)
EXTENDS Entities

NameStart(c) == IsAlpha(c) \/ c = 95 \/ c = 58 \/ c >= 192
NameChar(c) == NameStart(c) \/ IsDigit(c) \/ c = 45 \/ c = 46 \/ c = 183
XmlChar(c) == c = 9 \/ c = 10 \/ c = 13 \/ (c >= 32 /\ c <= 55295)
              \/ (c >= 57344 /\ c <= 65533) \/ c >= 65536

Tok0 == [k |-> "t", n |-> <<>>, ns |-> "", a |-> <<>>, sc |-> FALSE, c |-> <<>>]
TokInit == [m |-> "t", wf |-> TRUE, toks |-> <<>>, buf |-> <<>>, name |-> <<>>, attrs |-> <<>>,
            an |-> <<>>, q |-> 0, raw |-> <<>>]

\* end-of-line handling of XML 1.0
NormEol(s) ==
  LET z == FoldLeft(LAMBDA a, c : IF c = CR THEN [o |-> Append(a.o, LF), cr |-> TRUE]
                                  ELSE IF c = LF /\ a.cr THEN [a EXCEPT !.cr = FALSE]
                                  ELSE [o |-> Append(a.o, c), cr |-> FALSE],
                    [o |-> <<>>, cr |-> FALSE], s)
  IN z.o

Tokenize(mode, doc) ==
  LET
    X == mode = "xml"
    Nm(s) == IF X THEN s ELSE Lower(s)
    FlushText(a) ==
      IF a.buf = <<>> THEN a
      ELSE LET d == DecodeRefs(mode, a.buf)
           IN [a EXCEPT !.toks = Append(@, [Tok0 EXCEPT !.c = d.c]), !.buf = <<>>,
                        !.wf = @ /\ (X => ~ d.err /\ ~ Has(a.buf, S("]]>")))]
    Open(a, sc) ==
      LET nm == Nm(a.name)
          t == [Tok0 EXCEPT !.k = "o", !.n = nm, !.ns = ToStr(nm), !.a = a.attrs, !.sc = sc]
      IN [a EXCEPT !.toks = Append(@, t), !.attrs = <<>>, !.an = <<>>, !.buf = <<>>,
                   !.m = IF ~ X /\ (ToStr(nm) \in {"style", "script"}) /\ ~ sc THEN "raw" ELSE "t",
                   !.name = <<>>, !.raw = nm,
                   !.wf = @ /\ (X => \A i, j \in 1..Len(a.attrs) : a.attrs[i].n = a.attrs[j].n => i = j)]
    Attr(a, v, hasv) ==
      LET d == IF hasv THEN DecodeRefs(mode, v) ELSE [c |-> <<>>, err |-> X]
      IN [a EXCEPT !.attrs = Append(@, [n |-> Nm(a.an), ns |-> ToStr(Nm(a.an)), v |-> MapSeq(d.c, LAMBDA x : IF X /\ IsXmlWs(x) THEN 32 ELSE x)]),
                   !.an = <<>>, !.buf = <<>>, !.wf = @ /\ ~ (X /\ d.err)]
    Bad(a) == [a EXCEPT !.wf = FALSE]
    InTag(a, x) ==  \* between attributes
      IF IsHtmlWs(x) THEN [a EXCEPT !.m = "tag"]
      ELSE IF x = GT THEN Open(a, FALSE)
      ELSE IF x = SLASH THEN [a EXCEPT !.m = "slash"]
      ELSE IF X /\ ~ NameStart(x) THEN Bad([a EXCEPT !.m = "tag"])
      ELSE [a EXCEPT !.m = "an", !.an = <<x>>, !.wf = @ /\ (X => a.m = "tag")]
    Step(a, x0) ==
      LET x == x0
      IN CASE a.m = "t" -> IF x = LT THEN [FlushText(a) EXCEPT !.m = "lt"]
                           ELSE [a EXCEPT !.buf = Append(@, x), !.wf = @ /\ (X => XmlChar(x))]
      [] a.m = "lt" ->
           IF x = BANG THEN [a EXCEPT !.m = "bang", !.buf = <<>>]
           ELSE IF x = QMARK THEN [a EXCEPT !.m = "pi", !.buf = <<>>]
           ELSE IF x = SLASH THEN [a EXCEPT !.m = "end", !.buf = <<>>]
           ELSE IF (X /\ NameStart(x)) \/ (~ X /\ IsAlpha(x)) THEN [a EXCEPT !.m = "name", !.name = <<x>>]
           ELSE IF X THEN Bad([a EXCEPT !.m = "t", !.buf = <<x>>])
           ELSE IF x = LT THEN [a EXCEPT !.toks = Append(@, [Tok0 EXCEPT !.c = <<LT>>])]
           ELSE [a EXCEPT !.m = "t", !.toks = Append(@, [Tok0 EXCEPT !.c = <<LT>>]), !.buf = <<x>>]
      [] a.m = "bang" ->
           LET b == Append(a.buf, x)
           IN IF b = S("--") THEN [a EXCEPT !.m = "comment", !.buf = <<>>]
              ELSE IF b = S("[CDATA[") THEN [a EXCEPT !.m = "cdata", !.buf = <<>>]
              ELSE IF x = GT THEN [a EXCEPT !.m = "t", !.buf = <<>>,
                                   !.wf = @ /\ (X => StartsWith(b, S("DOCTYPE")))]
              ELSE [a EXCEPT !.buf = b]
      [] a.m = "comment" ->
           LET b == Append(a.buf, x)
               n == Len(b)
           IN IF n >= 3 /\ b[n] = GT /\ b[n - 1] = DASH /\ b[n - 2] = DASH
              THEN [a EXCEPT !.m = "t", !.buf = <<>>,
                    !.wf = @ /\ (X => ~ Has(SubSeq(b, 1, n - 2), S("--")))]
              ELSE [a EXCEPT !.buf = b]
      [] a.m = "cdata" ->
           LET b == Append(a.buf, x)
               n == Len(b)
           IN IF n >= 3 /\ b[n] = GT /\ b[n - 1] = RBRACK /\ b[n - 2] = RBRACK
              THEN [a EXCEPT !.m = "t", !.buf = <<>>,
                    !.toks = Append(@, [Tok0 EXCEPT !.c = SubSeq(b, 1, n - 3)])]
              ELSE [a EXCEPT !.buf = b]
      [] a.m = "pi" ->
           IF x = GT /\ (~ X \/ (a.buf # <<>> /\ a.buf[Len(a.buf)] = QMARK))
           THEN [a EXCEPT !.m = "t", !.buf = <<>>]
           ELSE [a EXCEPT !.buf = Append(@, x)]
      [] a.m = "end" ->
           IF x = GT
           THEN LET nm == Nm(TrimW(a.buf, HtmlWs))
                IN [a EXCEPT !.m = "t", !.buf = <<>>,
                     !.toks = Append(@, [Tok0 EXCEPT !.k = "c", !.n = nm, !.ns = ToStr(nm)]),
                     !.wf = @ /\ (X => nm # <<>> /\ (\A i \in 1..Len(nm) : NameChar(nm[i])))]
           ELSE [a EXCEPT !.buf = Append(@, x)]
      [] a.m = "name" ->
           IF IsHtmlWs(x) THEN [a EXCEPT !.m = "tag"]
           ELSE IF x = GT THEN Open(a, FALSE)
           ELSE IF x = SLASH THEN [a EXCEPT !.m = "slash"]
           ELSE [a EXCEPT !.name = Append(@, x), !.wf = @ /\ (X => NameChar(x))]
      [] a.m = "slash" ->
           IF x = GT THEN Open(a, TRUE)
           ELSE IF X THEN Bad([a EXCEPT !.m = "tag"]) ELSE InTag(a, x)
      [] a.m = "tag" -> InTag(a, x)
      [] a.m = "an" ->
           IF x = EQ THEN [a EXCEPT !.m = "eq"]
           ELSE IF IsHtmlWs(x) THEN [a EXCEPT !.m = "anws"]
           ELSE IF x = GT THEN Open(Attr(a, <<>>, FALSE), FALSE)
           ELSE IF x = SLASH THEN [Attr(a, <<>>, FALSE) EXCEPT !.m = "slash"]
           ELSE [a EXCEPT !.an = Append(@, x), !.wf = @ /\ (X => NameChar(x))]
      [] a.m = "anws" ->
           IF x = EQ THEN [a EXCEPT !.m = "eq"]
           ELSE IF IsHtmlWs(x) THEN a
           ELSE InTag([Attr(a, <<>>, FALSE) EXCEPT !.m = "tag"], x)
      [] a.m = "eq" ->
           IF IsHtmlWs(x) THEN a
           ELSE IF x = QUOT \/ x = APOS THEN [a EXCEPT !.m = "val", !.q = x, !.buf = <<>>]
           ELSE IF X THEN Bad([a EXCEPT !.m = "uq", !.buf = <<x>>])
           ELSE IF x = GT THEN Open(Attr(a, <<>>, TRUE), FALSE)
           ELSE [a EXCEPT !.m = "uq", !.buf = <<x>>]
      [] a.m = "uq" ->
           IF IsHtmlWs(x) THEN [Attr(a, a.buf, TRUE) EXCEPT !.m = "tag"]
           ELSE IF x = GT THEN Open(Attr(a, a.buf, TRUE), FALSE)
           ELSE [a EXCEPT !.buf = Append(@, x)]
      [] a.m = "val" ->
           IF x = a.q THEN [Attr(a, a.buf, TRUE) EXCEPT !.m = "postval"]
           ELSE [a EXCEPT !.buf = Append(@, x), !.wf = @ /\ (X => x # LT /\ XmlChar(x))]
      [] a.m = "postval" -> InTag(a, x)
      [] a.m = "raw" ->   \* content of <style>: ends at its end tag only
           LET b == Append(a.buf, x)
               t == <<LT, SLASH>> \o a.raw \o <<GT>>
               n == Len(b)
           IN IF x = GT /\ n >= Len(t) /\ Lower(SubSeq(b, n - Len(t) + 1, n)) = t
              THEN [a EXCEPT !.m = "t", !.buf = <<>>,
                    !.toks = @ \o <<[Tok0 EXCEPT !.c = SubSeq(b, 1, n - Len(t))],
                                    [Tok0 EXCEPT !.k = "c", !.n = a.raw, !.ns = ToStr(a.raw)]>>]
              ELSE [a EXCEPT !.buf = b]
      [] OTHER -> a
    z == FoldLeft(Step, TokInit, IF X THEN NormEol(doc) ELSE doc)
    y == IF z.m = "t" THEN FlushText(z) ELSE z
  IN [toks |-> y.toks, wf |-> y.wf /\ y.m = "t"]

(***************************************************************************)
(* A source line break at the edge of a run of text, next to a tag, is     *)
(* white space; where a mark such as "," follows, pycaption takes it for   *)
(* indentation of the markup (its tests fix that).  WRAPC stands for such  *)
(* a break, so that judges may treat it as a blank that need not be there. *)
(***************************************************************************)
WRAPC == 31
EdgeWrap(c) ==
  LET a == FirstNon(c, 1, XmlWs)
      b == LastNon(c, Len(c), XmlWs)
      Brk(i, j) == \E k \in i..j : c[k] = LF \/ c[k] = CR
      Edge(i, j) == IF Brk(i, j) THEN <<WRAPC>> ELSE Sub(c, i, j)
  IN IF a > Len(c) THEN Edge(1, Len(c))
     ELSE Edge(1, a - 1) \o Sub(c, a, b) \o Edge(b + 1, Len(c))

\* attribute value of a token, <<>>-or-value with a flag
HasAttr(t, n) == \E i \in 1..Len(t.a) : t.a[i].ns = n
AttrV(t, n) == IF HasAttr(t, n) THEN t.a[CHOOSE i \in 1..Len(t.a) : t.a[i].ns = n /\
                                           (\A j \in 1..(i - 1) : t.a[j].ns # n)].v
               ELSE <<>>

\* prefix of a qualified name, <<>> if none
Prefix(n) == LET k == FindC(n, 1, COLON) IN IF k = 0 THEN <<>> ELSE Sub(n, 1, k - 1)
LocalN(n) == LET k == FindC(n, 1, COLON) IN Sub(n, k + 1, Len(n))

(***************************************************************************)
(* XML well-formedness over the tokens: matching tags, one root, bound     *)
(* namespace prefixes, nothing but white space outside the root.           *)
(***************************************************************************)
XmlWf(r) ==
  LET
    Decl(t) == {LocalN(t.a[i].n) : i \in {j \in 1..Len(t.a) : Prefix(t.a[j].n) = S("xmlns")}}
    Bound(t, ns) == /\ Prefix(t.n) \in ns \cup {<<>>}
                    /\ \A i \in 1..Len(t.a) : Prefix(t.a[i].n) \in ns \cup {<<>>, S("xml"), S("xmlns")}
    Step(a, t) ==
      CASE t.k = "t" -> [a EXCEPT !.ok = @ /\ (a.st = <<>> => \A i \in 1..Len(t.c) : IsXmlWs(t.c[i]))]
        [] t.k = "o" ->
             LET ns == (IF a.st = <<>> THEN {} ELSE a.st[Len(a.st)].ns) \cup Decl(t)
             IN [a EXCEPT !.ok = @ /\ Bound(t, ns) /\ (a.st = <<>> => a.roots = 0),
                          !.roots = IF a.st = <<>> THEN @ + 1 ELSE @,
                          !.st = IF t.sc THEN @ ELSE Append(@, [n |-> t.n, ns |-> ns])]
        [] OTHER -> IF a.st # <<>> /\ a.st[Len(a.st)].n = t.n
                    THEN [a EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
                    ELSE [a EXCEPT !.ok = FALSE]
    z == FoldLeft(Step, [ok |-> TRUE, st |-> <<>>, roots |-> 0], r.toks)
  IN r.wf /\ z.ok /\ z.st = <<>> /\ z.roots = 1
=============================================================================
