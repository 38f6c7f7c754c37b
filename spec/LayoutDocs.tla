----------------------------- MODULE LayoutDocs -----------------------------
(***************************************************************************)
(* Where the characters of caption sets and documents are placed.          *)
(*  a set: [lay, ls: <<[lang, lay, caps: <<[lay, ns]>>]>>]; ns: nodes      *)
(*         [k: "t" | "b" | "s", c: text, on, lay]                          *)
(***************************************************************************)
EXTENDS Vtt, Ttml, Layout

Squash(c) == SelectSeq(c, LAMBDA x : ~ IsWs(x))
\* the layout of every visible character of a caption: its text node's, else
\* that of the spans around it, else the caption's, the language's, the set's
CapChars(cap, rest) ==
  LET Step(a, n) ==
        CASE n.k = "s" /\ n.on -> [a EXCEPT !.stack = <<n.lay>> \o @]
          [] n.k = "s" -> [a EXCEPT !.stack = IF @ = <<>> THEN @ ELSE Tail(@)]
          [] n.k = "t" -> LET cs == Squash(n.c)
                              l == FirstLay(<<n.lay>> \o a.stack \o <<cap.lay>> \o rest)
                          IN [a EXCEPT !.out = @ \o Force([i \in 1..Len(cs) |-> [c |-> cs[i], l |-> l]])]
          [] OTHER -> a
  IN FoldLeft(Step, [stack |-> <<>>, out |-> <<>>], cap.ns).out
\* per language, per caption
SetChars(s) == Force([i \in 1..Len(s.ls) |->
                  [lang |-> s.ls[i].lang,
                   caps |-> Force([k \in 1..Len(s.ls[i].caps) |-> CapChars(s.ls[i].caps[k], <<s.ls[i].lay, s.lay>>)])]])
\* maximal runs of characters of one layout
Runs(chars) ==
  FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)].l = x.l THEN [a EXCEPT ![Len(a)].x = Append(@, x.c)]
                         ELSE Append(a, [x |-> <<x.c>>, l |-> x.l]), <<>>, chars)

\* ------------------------------------------------------------ DFXP
RegionLay(z, id) ==
  LET I == {i \in 1..Len(z.regions) : z.regions[i].id = id}
      at == IF I = {} THEN <<>> ELSE RegionAt(z, MinOf(I))
      V(n) == AttrV([a |-> at], n)
      P == SizesOf(V("tts:padding"))
      \* before, end, after, start
      Four == CASE Len(P) = 0 -> <<>> [] Len(P) = 1 -> <<P[1], P[1], P[1], P[1]>> [] Len(P) = 2 -> <<P[1], P[1], P[2], P[2]>>
                [] Len(P) = 3 -> <<P[1], P[3], P[2], P[2]>> [] OTHER -> <<P[1], P[3], P[4], P[2]>>
      o == SizesOf(V("tts:origin"))
      e == SizesOf(V("tts:extent"))
  IN [ok |-> /\ I # {} /\ Len(P) <= 4 /\ Len(o) \in {0, 2} /\ Len(e) \in {0, 2}
             /\ \A s \in SeqRange(P) \cup SeqRange(o) \cup SeqRange(e) : s.u # "?",
      l |-> [o |-> o, e |-> e, p |-> Four, h |-> KeyOf(V("tts:textAlign")), v |-> KeyOf(V("tts:displayAlign")), vtt |-> <<>>]]
NoRegion == [ok |-> FALSE, l |-> NoLay]
\* [wf, ls: <<[lang, caps: <<seq of [c, l]>>]>>]: l is a RegionLay
\* authored: paragraphs' own text alignment counts (in documents the writer made, the regions decide)
DfxpCharsA(doc, authored) ==
  LET p == TtmlParse(doc)
      z == p.z
      ids == Force([i \in 1..Len(z.regions) |-> z.regions[i].id])
      lays == Force([i \in 1..Len(ids) |-> RegionLay(z, ids[i])])
      LayOf(id) == LET I == {i \in 1..Len(ids) : ids[i] = id} IN IF I = {} THEN NoRegion ELSE lays[MinOf(I)]
      \* a paragraph's own text alignment goes before its region's
      root == SizesOf(AttrV([a |-> z.ttattrs], "tts:extent"))
      With(r, ta) == IF ~ authored THEN r
                     ELSE [r EXCEPT !.l.h = IF ta = <<>> THEN @ ELSE KeyOf(ta), !.l.e = IF @ = <<>> THEN root ELSE @]
      Vis(q, d) == LET v == SelectSeq(q.chars, LAMBDA x : x.c > 0 /\ x.c # WRAPC /\ ~ IsWs(x.c))
                   IN Force([i \in 1..Len(v) |-> [c |-> v[i].c, l |-> With(LayOf(v[i].reg), q.ta)]])
  IN [wf |-> p.wf /\ ~ z.stray,
      ls |-> Force([i \in 1..Len(z.divs) |->
                 [lang |-> z.divs[i].lang,
                  caps |-> MapSeq(z.divs[i].ps, LAMBDA q : Vis(q, z.divs[i]))]])]

DfxpChars(doc) == DfxpCharsA(doc, FALSE)

\* ------------------------------------------------------------ WebVTT
VttCues(doc) ==
  LET p == VttParse(doc)
      One(c) == LET t == VttText(JoinLF(c.lines)) IN
                [s |-> c.s, e |-> c.e, set |-> c.set, ok |-> t.wf /\ t.bal,
                 x |-> Force([i \in 1..Len(t.chars) |-> t.chars[i].c])]
      cs == MapSeq(p.cues, One)
      Solid(c) == [c EXCEPT !.x = SelectSeq(@, LAMBDA k : k > 0 /\ k # WRAPC /\ ~ IsWs(k))]
  IN [wf |-> p.wf /\ \A i \in 1..Len(cs) : cs[i].ok,
      cues |-> SelectSeq(MapSeq(cs, Solid), LAMBDA c : c.x # <<>>)]
=============================================================================
