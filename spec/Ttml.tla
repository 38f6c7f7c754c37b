-------------------------------- MODULE Ttml -------------------------------
(***************************************************************************)
(* A conformant TTML/DFXP consumer: tt / head / styling / layout / body /  *)
(* div / p / span / br over the XML tokens.                                *)
(***************************************************************************)
EXTENDS Xml, Num

\* ------------------------------------------------------ time expressions
\* c: the expression, fps: the document's frame rate (30 unless declared)
DefaultFps == 30
TtTimeF(c, TtFps) ==
  LET p == SplitC(c, COLON)
      bad == [ok |-> FALSE, t |-> T0]
  IN IF Len(p) \in {3, 4}
     THEN LET q == SplitC(p[3], DOT)
              fr == IF Len(q) = 2 THEN q[2] ELSE <<>>
          IN IF /\ Len(p[1]) >= 2 /\ AllDigits(p[1]) /\ NatOf(p[1]) \in 0..500000
                /\ Len(p[2]) = 2 /\ AllDigits(p[2]) /\ NatOf(p[2]) < 60
                /\ Len(q) <= 2 /\ Len(q[1]) = 2 /\ AllDigits(q[1]) /\ NatOf(q[1]) < 61
                /\ (Len(q) = 2 => AllDigits(q[2]) /\ Len(p) = 3)
                /\ (Len(p) = 4 => Len(p[4]) = 2 /\ AllDigits(p[4]) /\ NatOf(p[4]) < TtFps)
             THEN LET base == Clock(NatOf(p[1]), NatOf(p[2]), NatOf(q[1]), fr)
                  IN [ok |-> TRUE,
                      t |-> IF Len(p) = 4
                            THEN [base EXCEPT !.u = (NatOf(p[4]) * MICRO) \div TtFps] ELSE base]
             ELSE bad
     ELSE IF Len(p) # 1 THEN bad
     ELSE LET ix == {i \in 1..Len(c) : ~ (IsDigit(c[i]) \/ c[i] = DOT)}
              k == IF ix = {} THEN Len(c) + 1 ELSE CHOOSE i \in ix : \A j \in ix : i <= j
              num == Sub(c, 1, k - 1)
              metric == Sub(c, k, Len(c))
              q == SplitC(num, DOT)
              fr == IF Len(q) = 2 THEN q[2] ELSE <<>>
              d == FromCps(q[1] \o fr)          \* value * 10^Len(fr)
              us == CASE metric = S("h")  -> Shl(MulSmall(d, 3600), 6)
                      [] metric = S("m")  -> Shl(MulSmall(d, 60), 6)
                      [] metric = S("s")  -> Shl(d, 6)
                      [] metric = S("ms") -> Shl(d, 3)
                      [] metric = S("f")  -> Shl(d, 6)
                      [] OTHER -> <<>>
              sh == Shr(us, Len(fr))
              \* frames: floor( (value * 10^6) / 30 ): dividing by 10^k and by 30 in either order
              t == IF metric = S("f") THEN InstOf(DivSmall(sh, TtFps)) ELSE InstOf(sh)
          IN IF /\ Len(q) <= 2 /\ AllDigits(q[1]) /\ (Len(q) = 2 => AllDigits(q[2]))
                /\ metric \in {S("h"), S("m"), S("s"), S("ms"), S("f")}
                /\ t.s >= 0 /\ t.s <= 1900000000
             THEN [ok |-> TRUE, t |-> t] ELSE bad

TtTime(c) == TtTimeF(c, DefaultFps)

\* ------------------------------------------------------ document
\* BR marks a line break in a character stream
BR == 0 - 1
FmtOwn(t, st) ==  \* inline text styles in force inside element t, given those outside
  LET has(n, v) == HasAttr(t, n) /\ AttrV(t, n) = S(v)
      on == (IF has("tts:fontStyle", "italic") THEN {"i"} ELSE {})
            \cup (IF has("tts:fontWeight", "bold") THEN {"b"} ELSE {})
            \cup (IF HasAttr(t, "tts:textDecoration") /\ S("underline") \in SeqRange(Words(AttrV(t, "tts:textDecoration")))
                  THEN {"u"} ELSE {})
      off == (IF has("tts:fontStyle", "normal") THEN {"i"} ELSE {})
            \cup (IF has("tts:fontWeight", "normal") THEN {"b"} ELSE {})
            \cup (IF has("tts:textDecoration", "none") \/ has("tts:textDecoration", "noUnderline") THEN {"u"} ELSE {})
  IN (st \cup on) \ off

\* ... including those of the styles it references, which reference others in turn
RECURSIVE FmtRef(_, _, _, _)
FmtRef(styles, t, st, depth) ==
  LET ids == IF HasAttr(t, "style") THEN Words(AttrV(t, "style")) ELSE <<>>
      One(acc, id) == LET I == {i \in 1..Len(styles) : ~ styles[i].inreg /\ styles[i].id = id}
                      IN IF I = {} \/ depth = 0 THEN acc
                         ELSE FmtRef(styles, [a |-> styles[CHOOSE i \in I : TRUE].at], acc, depth - 1)
  IN FmtOwn(t, FoldLeft(One, st, ids))
\* textAlign in force inside element t: its own, that of the styles it references, else the inherited one
RECURSIVE AlignRef(_, _, _, _)
AlignRef(styles, t, inh, depth) ==
  LET ids == IF HasAttr(t, "style") THEN Words(AttrV(t, "style")) ELSE <<>>
      One(acc, id) == LET I == {i \in 1..Len(styles) : ~ styles[i].inreg /\ styles[i].id = id}
                      IN IF I = {} \/ depth = 0 THEN acc
                         ELSE AlignRef(styles, [a |-> styles[CHOOSE i \in I : TRUE].at], acc, depth - 1)
  IN IF HasAttr(t, "tts:textAlign") THEN AttrV(t, "tts:textAlign") ELSE FoldLeft(One, inh, ids)
\* a style's attributes and those of the styles it references, nearest first
RECURSIVE ChainAt(_, _, _)
ChainAt(styles, at, depth) ==
  LET t == [a |-> at]
      ids == IF HasAttr(t, "style") THEN Words(AttrV(t, "style")) ELSE <<>>
      One(acc, id) == LET I == {i \in 1..Len(styles) : ~ styles[i].inreg /\ styles[i].id = id}
                      IN IF I = {} \/ depth = 0 THEN acc
                         ELSE ChainAt(styles, styles[CHOOSE i \in I : TRUE].at, depth - 1) \o acc
  IN at \o FoldLeft(One, <<>>, ids)
\* of the k-th region: its own attributes, those of the styles nested in it, those it references
RegionAt(z, k) ==
  LET t == [a |-> z.regions[k].at]
      nested == SelectSeq(z.styles, LAMBDA s : s.inreg /\ s.regno = k)
      Own(s) == ChainAt(z.styles, s.at, Len(z.styles) + 1)
  IN t.a \o Concat(MapSeq(nested, Own)) \o ChainAt(z.styles, t.a, Len(z.styles) + 1)
NoP == [begin |-> <<>>, ta |-> <<>>, end |-> <<>>, dur |-> <<>>, hb |-> FALSE, he |-> FALSE, hd |-> FALSE,
        chars |-> <<>>, reg |-> <<>>, style |-> <<>>, at |-> <<>>, spans |-> <<>>]
TtInit == [stack |-> <<>>, divs |-> <<>>, styles |-> <<>>, regions |-> <<>>, ids |-> <<>>, refs |-> <<>>,
           tt |-> 0, ttlang |-> <<>>, hasTtLang |-> FALSE, ns |-> <<>>, inP |-> FALSE, p |-> NoP, stray |-> FALSE,
           nested |-> FALSE, ttattrs |-> <<>>]
TtStep(a, t) ==
  LET
    top == IF a.stack = <<>> THEN [n |-> "", st |-> {}, reg |-> <<>>, sty |-> <<>>, ta |-> <<>>, dv |-> 0, meta |-> FALSE] ELSE a.stack[Len(a.stack)]
    Refs(b) ==
      LET r1 == IF HasAttr(t, "region") THEN <<[k |-> "region", v |-> AttrV(t, "region")]>> ELSE <<>>
          r2 == IF HasAttr(t, "style")
                THEN MapSeq(Words(AttrV(t, "style")), LAMBDA w : [k |-> "style", v |-> w]) ELSE <<>>
          r3 == IF HasAttr(t, "xml:id") THEN <<AttrV(t, "xml:id")>> ELSE <<>>
      IN [b EXCEPT !.refs = @ \o r1 \o r2, !.ids = @ \o r3]
    Push(b) == IF t.sc THEN b
               ELSE [b EXCEPT !.stack = Append(@, [n |-> t.ns,
                       st |-> IF t.ns = "span" \/ t.ns = "p" THEN FmtRef(a.styles, t, top.st, Len(a.styles) + 1) ELSE top.st,
                       reg |-> IF HasAttr(t, "region") THEN AttrV(t, "region") ELSE top.reg,
                       sty |-> IF t.ns = "span" /\ HasAttr(t, "style") THEN AttrV(t, "style") ELSE top.sty,
                       ta |-> AlignRef(a.styles, t, top.ta, Len(a.styles) + 1),
                       dv |-> IF t.ns = "div" THEN Len(b.divs) ELSE top.dv,
                       \* neither metadata nor elements of other namespaces are displayed
                       meta |-> top.meta \/ (a.inP /\ (t.ns = "metadata" \/ COLON \in SeqRange(t.n)))])]
    OpenP == [NoP EXCEPT !.begin = AttrV(t, "begin"), !.end = AttrV(t, "end"), !.dur = AttrV(t, "dur"),
                         !.hb = HasAttr(t, "begin"), !.he = HasAttr(t, "end"), !.hd = HasAttr(t, "dur"),
                         !.reg = IF HasAttr(t, "region") THEN AttrV(t, "region") ELSE top.reg,
                         !.style = AttrV(t, "style"), !.at = t.a, !.ta = AlignRef(a.styles, t, top.ta, Len(a.styles) + 1)]
    CloseP(b) == IF b.divs = <<>> THEN [b EXCEPT !.stray = TRUE, !.inP = FALSE]
                 ELSE [b EXCEPT !.divs[Len(b.divs)].ps = Append(@, b.p), !.inP = FALSE]
    Add(b, cs) == [b EXCEPT !.p.chars = @ \o Force([i \in 1..Len(cs) |-> [c |-> cs[i], st |-> top.st, reg |-> top.reg]])]
    IsN(n) == t.ns = n
  IN CASE t.k = "t" -> IF a.inP /\ ~ top.meta THEN Add(a, EdgeWrap(t.c)) ELSE a
       [] t.k = "o" ->
            LET b == Refs(a)
            IN CASE IsN("tt") -> Push([b EXCEPT !.tt = @ + 1, !.ttlang = AttrV(t, "xml:lang"), !.ttattrs = t.a,
                                        !.hasTtLang = HasAttr(t, "xml:lang"), !.ns = AttrV(t, "xmlns")])
                 [] IsN("div") -> Push([b EXCEPT !.nested = @ \/ (\E i \in 1..Len(a.stack) : a.stack[i].n = "div"),
                        !.divs = Append(@, [has |-> HasAttr(t, "xml:lang"),
                               lang |-> AttrV(t, "xml:lang"), at |-> t.a, ps |-> <<>>,
                               reg |-> IF HasAttr(t, "region") THEN AttrV(t, "region") ELSE top.reg])])
                 [] IsN("p") -> IF t.sc THEN CloseP([b EXCEPT !.p = OpenP]) ELSE Push([b EXCEPT !.inP = TRUE, !.p = OpenP])
                 [] IsN("br") -> Push(IF a.inP THEN Add(b, <<BR>>) ELSE b)
                 [] IsN("style") -> Push([b EXCEPT !.styles = Append(@, [id |-> AttrV(t, "xml:id"),
                                       reg |-> IF top.n = "region" THEN b.regions[Len(b.regions)].id ELSE <<>>,
                                       inreg |-> top.n = "region", regno |-> IF top.n = "region" THEN Len(b.regions) ELSE 0, at |-> t.a])])
                 [] IsN("region") -> Push([b EXCEPT !.regions = Append(@, [id |-> AttrV(t, "xml:id"), at |-> t.a])])
                 [] IsN("span") -> Push(IF a.inP THEN [b EXCEPT !.p.spans = Append(@, t.a)] ELSE b)
                 [] OTHER -> Push(b)
       [] OTHER ->
            LET b == [a EXCEPT !.stack = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
                up == IF b.stack = <<>> THEN 0 ELSE b.stack[Len(b.stack)].dv
            IN IF IsN("p") /\ a.inP THEN CloseP(b)
               \* after a nested div the one around it goes on
               ELSE IF IsN("div") /\ up # 0 THEN [b EXCEPT !.divs = Append(@, [b.divs[up] EXCEPT !.ps = <<>>])] ELSE b

\* elements may be written with a prefix that the root binds to its own namespace; those of others keep theirs
LocalNames(toks) ==
  LET O == {i \in 1..Len(toks) : toks[i].k = "o"}
      root == toks[CHOOSE i \in O : \A j \in O : i <= j]
      c == CHOOSE i \in 1..Len(root.n) : root.n[i] = COLON /\ \A j \in 1..(i - 1) : root.n[j] # COLON
      pre == SubSeq(root.n, 1, c)
      Local(t) == IF t.k # "t" /\ Len(t.n) > Len(pre) /\ SubSeq(t.n, 1, Len(pre)) = pre
                  THEN LET m == SubSeq(t.n, Len(pre) + 1, Len(t.n)) IN [t EXCEPT !.n = m, !.ns = ToStr(m)] ELSE t
  IN IF O = {} \/ COLON \notin SeqRange(root.n) THEN toks ELSE MapSeq(toks, Local)

TtmlParse(doc) ==
  LET r == Tokenize("xml", doc)
      z == FoldLeft(TtStep, TtInit, LocalNames(r.toks))
  IN [wf |-> XmlWf(r), z |-> z]

\* lines of a character stream: split at BR
LinesOf(chars) ==
  LET st == FoldLeft(LAMBDA a, x : IF x.c = BR THEN [out |-> Append(a.out, a.cur), cur |-> <<>>]
                                   ELSE [a EXCEPT !.cur = Append(@, x.c)],
                     [out |-> <<>>, cur |-> <<>>], chars)
  IN Append(st.out, st.cur)

\* a p as a timed cue
FpsOf(ttattrs) ==
  LET v == AttrV([a |-> ttattrs], "ttp:frameRate")
  IN IF AllDigits(v) /\ NatOf(v) \in 1..1000 THEN NatOf(v) ELSE DefaultFps
TtCueF(p, fps) ==
  LET b == TtTimeF(p.begin, fps)
      e == TtTimeF(p.end, fps)
      d == TtTimeF(p.dur, fps)
  IN [ok |-> p.hb /\ b.ok /\ (p.he => e.ok) /\ (~ p.he => p.hd /\ d.ok),
      s |-> b.t, e |-> IF p.he THEN e.t ELSE AddT(b.t, d.t), lines |-> LinesOf(p.chars)]
TtCue(p) == TtCueF(p, DefaultFps)
=============================================================================
