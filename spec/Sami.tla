-------------------------------- MODULE Sami -------------------------------
(***************************************************************************)
(* A conformant SAMI consumer: style sheet, SYNC / P structure, language   *)
(* of each paragraph, inline markup.                                       *)
(***************************************************************************)
EXTENDS Xml, Num

SBR == 0 - 1

\* ------------------------------------------------------ style sheet
\* "name : value ;" list -> sequence of [n, v] (names lower case, trimmed)
CssDecls(c) ==
  LET ds == SelectSeq(SplitC(c, SEMI), LAMBDA d : FindC(d, 1, COLON) # 0)
  IN Force([i \in 1..Len(ds) |->
        LET k == FindC(ds[i], 1, COLON)
        IN [n |-> Lower(Trim(Sub(ds[i], 1, k - 1))), v |-> Trim(Sub(ds[i], k + 1, Len(ds[i])))]])
CssGet(ds, n) == LET I == {i \in 1..Len(ds) : ds[i].n = S(n)}
                 IN IF I = {} THEN <<>> ELSE ds[CHOOSE i \in I : \A j \in I : j <= i].v
CssHas(ds, n) == \E i \in 1..Len(ds) : ds[i].n = S(n)

StripCdo(c) ==  \* drop the "<!--" / "-->" wrapper
  LET t == Trim(c)
      a == IF StartsWith(t, S("<!--")) THEN Sub(t, 5, Len(t)) ELSE t
      n == Len(a)
  IN IF n >= 3 /\ Sub(a, n - 2, n) = S("-->") THEN Sub(a, 1, n - 3) ELSE a
NoCssComments(c) ==
  LET st == FoldLeft(LAMBDA a, x :
              IF a.m = "c" THEN (IF a.last = 42 /\ x = 47 THEN [a EXCEPT !.m = "t", !.last = 0] ELSE [a EXCEPT !.last = x])
              ELSE IF a.last = 47 /\ x = 42 THEN [m |-> "c", last |-> 0, out |-> Append(SubSeq(a.out, 1, Len(a.out) - 1), SP)]
              ELSE [a EXCEPT !.last = x, !.out = Append(@, x)],
              [m |-> "t", last |-> 0, out |-> <<>>], c)
  IN st.out
\* rules: [sel (lower case), ds], one per selector; statements like "@import x;" declare nothing here
CssRules(c) ==
  LET st == FoldLeft(LAMBDA a, x :
              IF a.m = "sel" THEN IF x = LBRACE THEN [a EXCEPT !.m = "body", !.sel = Trim(a.cur), !.cur = <<>>]
                                  ELSE IF x = SEMI /\ StartsWith(Trim(a.cur), <<64>>) THEN [a EXCEPT !.cur = <<>>]
                                  ELSE [a EXCEPT !.cur = Append(@, x)]
              ELSE IF x = RBRACE
                   THEN [a EXCEPT !.m = "sel", !.cur = <<>>,
                         !.out = @ \o (LET ss == SplitC(a.sel, 44)
                                           ds == CssDecls(a.cur)
                                       IN [i \in 1..Len(ss) |-> [sel |-> Lower(Trim(ss[i])), ds |-> ds]])]
                   ELSE [a EXCEPT !.cur = Append(@, x)],
              [m |-> "sel", sel |-> <<>>, cur |-> <<>>, out |-> <<>>], NoCssComments(StripCdo(c)))
  IN [rules |-> st.out, wf |-> st.m = "sel"]
ClassRule(rules, cls) ==  \* declarations attached to class cls
  LET k == Lower(cls)
      I == {i \in 1..Len(rules) : rules[i].sel = <<DOT>> \o k \/ rules[i].sel = <<HASH>> \o k}
  IN FoldLeft(LAMBDA a, i : IF i \in I THEN a \o rules[i].ds ELSE a, <<>>, Force([i \in 1..Len(rules) |-> i]))

CssFmt(ds, st) ==
  LET on == (IF CssHas(ds, "font-style") /\ Lower(CssGet(ds, "font-style")) = S("italic") THEN {"i"} ELSE {})
            \cup (IF CssHas(ds, "font-weight") /\ Lower(CssGet(ds, "font-weight")) = S("bold") THEN {"b"} ELSE {})
            \cup (IF CssHas(ds, "text-decoration") /\ Lower(CssGet(ds, "text-decoration")) = S("underline") THEN {"u"} ELSE {})
  IN st \cup on

\* ------------------------------------------------------ document
NoSP == [start |-> <<>>, lang |-> <<>>, has |-> FALSE, cls |-> <<>>, chars |-> <<>>, sync |-> 0, base |-> {}]
SInit == [rules |-> <<>>, inStyle |-> FALSE, syncs |-> <<>>, ps |-> <<>>, inP |-> FALSE, p |-> NoSP,
          inline |-> <<>>, bal |-> TRUE, stray |-> FALSE, body |-> 0, sami |-> 0]
Inline == {"i", "b", "u", "span", "font", "div", "em", "strong", "a"}
\* the style of an element: its class, then its style attribute
OwnStyle(rules, t, st) ==
  LET s2 == IF HasAttr(t, "class")
            THEN FoldLeft(LAMBDA a, w : CssFmt(ClassRule(rules, w), a), st, Words(AttrV(t, "class"))) ELSE st
  IN IF HasAttr(t, "style") THEN CssFmt(CssDecls(AttrV(t, "style")), s2) ELSE s2
StyleOf(a) == IF a.inline = <<>> THEN a.p.base ELSE a.inline[Len(a.inline)].st
CloseSP(a) == IF a.inP THEN [a EXCEPT !.ps = Append(@, a.p), !.inP = FALSE, !.bal = @ /\ a.inline = <<>>, !.inline = <<>>]
              ELSE a
SStep(a, t) ==
  LET IsN(n) == t.ns = n
      Add(b, cs) == [b EXCEPT !.p.chars = @ \o Force([i \in 1..Len(cs) |-> [c |-> cs[i], st |-> StyleOf(b)]])]
  IN CASE t.k = "t" /\ a.inStyle -> [a EXCEPT !.rules = @ \o CssRules(t.c).rules]
       [] t.k = "t" -> IF a.inP THEN Add(a, EdgeWrap(t.c)) ELSE [a EXCEPT !.stray = @ \/ (a.body = 1 /\ ~ IsBlank(t.c))]
       [] t.k = "o" /\ IsN("style") -> IF t.sc THEN a ELSE [a EXCEPT !.inStyle = TRUE]
       [] t.k = "c" /\ IsN("style") -> [a EXCEPT !.inStyle = FALSE]
       [] t.k = "o" /\ IsN("sami") -> [a EXCEPT !.sami = @ + 1]
       [] t.k = "o" /\ IsN("body") -> [a EXCEPT !.body = 1]
       [] t.k = "o" /\ IsN("sync") -> [CloseSP(a) EXCEPT !.syncs = Append(@, AttrV(t, "start"))]
       [] t.k = "o" /\ IsN("p") ->
            LET b == CloseSP(a)
            IN IF b.syncs = <<>> THEN [b EXCEPT !.stray = TRUE]
               ELSE [b EXCEPT !.inP = TRUE,
                      !.p = [NoSP EXCEPT !.start = b.syncs[Len(b.syncs)], !.sync = Len(b.syncs),
                               !.has = HasAttr(t, "lang"), !.lang = AttrV(t, "lang"),
                               !.cls = AttrV(t, "class"), !.base = OwnStyle(b.rules, t, {})]]
       [] t.k = "c" /\ (IsN("p") \/ IsN("sync") \/ IsN("body") \/ IsN("sami")) -> CloseSP(a)
       [] t.k = "o" /\ IsN("br") -> IF a.inP THEN Add(a, <<SBR>>) ELSE a
       [] t.k = "o" /\ t.ns \in Inline /\ a.inP ->
            IF t.sc THEN a
            ELSE LET s0 == StyleOf(a)
                     s1 == CASE IsN("i") \/ IsN("em") -> s0 \cup {"i"}
                             [] IsN("b") \/ IsN("strong") -> s0 \cup {"b"}
                             [] IsN("u") -> s0 \cup {"u"}
                             [] OTHER -> s0
                 IN [a EXCEPT !.inline = Append(@, [n |-> t.ns, st |-> OwnStyle(a.rules, t, s1)])]
       [] t.k = "c" /\ t.ns \in Inline /\ a.inP ->
            IF a.inline # <<>> /\ a.inline[Len(a.inline)].n = t.ns
            THEN [a EXCEPT !.inline = SubSeq(@, 1, Len(@) - 1)]
            ELSE [a EXCEPT !.bal = FALSE]
       [] OTHER -> a

SamiLines(chars) ==
  LET st == FoldLeft(LAMBDA a, x : IF x.c = SBR THEN [out |-> Append(a.out, a.cur), cur |-> <<>>]
                                   ELSE [a EXCEPT !.cur = Append(@, x.c)],
                     [out |-> <<>>, cur |-> <<>>], chars)
  IN Append(st.out, st.cur)

SamiParse(doc, default) ==
  LET r == Tokenize("html", doc)
      z == CloseSP(FoldLeft(SStep, SInit, r.toks))
      LangOf(p) == IF p.has THEN p.lang
                   ELSE LET d == ClassRule(z.rules, p.cls)
                        IN IF p.cls # <<>> /\ CssHas(d, "lang") THEN CssGet(d, "lang") ELSE default
      ps == Force([i \in 1..Len(z.ps) |->
               [lang |-> LangOf(z.ps[i]), ms |-> z.ps[i].start, okms |-> AllDigits(z.ps[i].start),
                t |-> IF AllDigits(z.ps[i].start) THEN FromMsCps(z.ps[i].start) ELSE T0,
                sync |-> z.ps[i].sync, cls |-> z.ps[i].cls,
                blank |-> \A k \in 1..Len(z.ps[i].chars) : z.ps[i].chars[k].c = SBR \/ IsWs(z.ps[i].chars[k].c),
                chars |-> z.ps[i].chars, lines |-> SamiLines(z.ps[i].chars)]])
  IN [wf |-> r.wf /\ z.bal /\ ~ z.stray /\ z.sami = 1 /\ (\A i \in 1..Len(z.syncs) : AllDigits(z.syncs[i])),
      bal |-> z.bal, stray |-> z.stray, syncs |-> z.syncs, ps |-> ps, rules |-> z.rules]

\* languages in order of first appearance
SamiLangs(ps) == FoldLeft(LAMBDA a, p : IF p.lang \in SeqRange(a) THEN a ELSE Append(a, p.lang), <<>>, ps)

(***************************************************************************)
(* The cues of one language: every non-blank paragraph, lasting until the  *)
(* next paragraph of that language in a later sync, four seconds if none.  *)
(***************************************************************************)
SamiCues(ps, lang) ==
  LET q == SelectSeq(ps, LAMBDA p : p.lang = lang)
      End(i) == LET J == {j \in (i + 1)..Len(q) : q[j].t # q[i].t}
                IN IF J = {} THEN [last |-> TRUE, t |-> AddT(q[i].t, [s |-> 4, u |-> 0])]
                   ELSE [last |-> FALSE, t |-> q[CHOOSE j \in J : \A k \in J : j <= k].t]
      RECURSIVE Go(_)
      Go(i) == IF i > Len(q) THEN <<>>
               ELSE IF q[i].blank THEN Go(i + 1)
               ELSE <<[s |-> q[i].t, e |-> End(i).t, last |-> End(i).last, lines |-> q[i].lines,
                       chars |-> q[i].chars, sync |-> q[i].sync]>> \o Go(i + 1)
  IN Go(1)
=============================================================================
