------------------------------ MODULE JudgeC12 ------------------------------
(***************************************************************************)
(* C12: positioning survives DFXP round trips and maps faithfully to       *)
(* WebVTT settings.  All lengths are percentages of two decimals.          *)
(*  dfxp: [fit, set, ok, exc, doc, rok, back]  back: the set read again    *)
(*  vtt:  [fit, set, ok, exc, doc]                                         *)
(*  copy: [src, ok, exc, doc]  a WebVTT document read and written          *)
(*  read: [src, ok, exc, back] an authored DFXP document read              *)
(***************************************************************************)
EXTENDS JudgeCore, LayoutDocs

Want(l, fit) == LET r == RelLay(l, 0, 0) IN IF fit THEN FitLay(r) ELSE r
\* with fit-to-screen, extents from an origin outside the safe area are free
Ext(l, fit) == ~ fit \/ l.o = <<>> \/ InSafe(RelLay(l, 0, 0))
Flat(ls, lang) == LET I == {i \in 1..Len(ls) : ls[i].lang = lang} IN IF I = {} THEN <<>> ELSE ls[MinOf(I)].caps
Letters(chars) == Force([i \in 1..Len(chars) |-> chars[i].c])

\* got: per language the captions' characters with [ok, l]
CmpLang(want, got, fit) ==
  LET w == Concat(want)
      g == Concat(got)
      pairs == {<<w[i].l, g[i].l>> : i \in 1..Len(w)}
  IN IF Letters(w) # Letters(g) THEN {"text"}
     ELSE (IF \E q \in pairs : ~ q[2].ok THEN {"region_missing"} ELSE {})
          \cup (IF \E q \in pairs : q[2].ok /\ ~ IsRelative(q[2].l) THEN {"not_percentage"} ELSE {})
          \cup (IF \E q \in pairs : q[2].ok /\ IsRelative(q[2].l)
                                   /\ ~ SameRel(Want(q[1], fit), RelLay(q[2].l, 0, 0), 0, Ext(q[1], fit))
                THEN {"layout"} ELSE {})
CmpAll(want, got, fit) == UNION {CmpLang(want[i].caps, Flat(got, want[i].lang), fit) : i \in 1..Len(want)}
Wrap(ls) == Force([i \in 1..Len(ls) |-> [lang |-> ls[i].lang,
               caps |-> Force([k \in 1..Len(ls[i].caps) |->
                  Force([m \in 1..Len(ls[i].caps[k]) |-> [c |-> ls[i].caps[k][m].c, l |-> [ok |-> TRUE, l |-> ls[i].caps[k][m].l]]])])]])
Tag_(p, s) == {p \o x : x \in s}

DfxpV(e) ==
  LET want == SetChars(e.set)
      d == DfxpChars(e.doc)
  IN IF ~ e.ok THEN {"raised"}
     ELSE IF ~ d.wf THEN {"malformed"}
     ELSE Tag_("doc_", CmpAll(want, d.ls, e.fit))
          \cup (IF ~ e.rok THEN {"read_raised"} ELSE Tag_("read_", CmpAll(want, Wrap(SetChars(e.back)), e.fit)))

SameT(t, c) == t = [s |-> c.s, u |-> c.u]
VttV(e) ==
  LET want == SetChars(e.set)[1].caps
      runs == Concat(Force([k \in 1..Len(want) |->
                LET q == Runs(want[k]) IN Force([i \in 1..Len(q) |-> [x |-> q[i].x, l |-> q[i].l, cap |-> k]])]))
      d == VttCues(e.doc)
      Fine(q, c) ==
        IF q.l = NoLay THEN c.set = <<>> \/ VttSet(c.set) = [NoSet EXCEPT !.align = "start"]
        ELSE IF q.l.vtt # <<>> THEN c.set = q.l.vtt
        ELSE LET r == Want(q.l, e.fit)
                 got == VttSet(c.set)
                 wanted == WantSet(r)
             IN SetMatches(IF Ext(q.l, e.fit) THEN wanted ELSE [wanted EXCEPT !.size = got.size], got, r, 0)
      cap(k) == e.set.ls[1].caps[k]
  IN IF ~ e.ok THEN {"raised"}
     ELSE IF ~ d.wf THEN {"malformed"}
     ELSE IF Concat(MapSeq(d.cues, LAMBDA c : c.x)) # Concat(MapSeq(runs, LAMBDA q : q.x)) THEN {"text"}
     ELSE IF Len(d.cues) # Len(runs) \/ \E i \in 1..Len(runs) : d.cues[i].x # runs[i].x THEN {"cues"}
     ELSE (IF \E i \in 1..Len(runs) : ~ Fine(runs[i], d.cues[i]) THEN {"settings"} ELSE {})
          \cup (IF \E i \in 1..Len(runs) : ~ SameT(d.cues[i].s, cap(runs[i].cap).s) \/ ~ SameT(d.cues[i].e, cap(runs[i].cap).e)
                THEN {"times"} ELSE {})

CopyV(e) ==
  LET a == VttCues(e.src)
      b == VttCues(e.doc)
      Sets(x) == MapSeq(x.cues, LAMBDA c : [x |-> c.x, set |-> c.set])
  IN IF ~ a.wf THEN {"GENERATOR"}
     ELSE IF ~ e.ok THEN {"raised"}
     ELSE IF ~ b.wf THEN {"malformed"}
     ELSE IF Sets(a) # Sets(b) THEN {"verbatim"} ELSE {}

\* an authored document and the set read from it
ReadV(e) ==
  LET d == DfxpCharsA(e.src, TRUE)
      got == Wrap(SetChars(e.back))
      want == Force([i \in 1..Len(d.ls) |-> [lang |-> d.ls[i].lang,
                 caps |-> MapSeq(d.ls[i].caps, LAMBDA q : Force([m \in 1..Len(q) |-> [c |-> q[m].c, l |-> q[m].l.l]]))]])
      Exact(a, b) == <<a.o, a.e, a.p, DefH(a.h), DefV(a.v)>> = <<b.o, b.e, b.p, DefH(b.h), DefV(b.v)>>
      Cmp(q) == LET w == Concat(q.caps)
                    g == Concat(Flat(got, q.lang))
                IN IF Letters(w) # Letters(g) THEN {"text"}
                   ELSE IF \E x \in {<<w[i].l, g[i].l.l>> : i \in 1..Len(w)} : ~ Exact(x[1], x[2]) THEN {"layout"} ELSE {}
  IN IF ~ d.wf THEN {"GENERATOR"} ELSE IF ~ e.ok THEN {"raised"} ELSE Tag_("read_", UNION {Cmp(q) : q \in SeqRange(want)})

V_C12(e) ==
  LET bad == CASE e.ev = "dfxp" -> DfxpV(e) [] e.ev = "vtt" -> VttV(e) [] e.ev = "read" -> ReadV(e) [] OTHER -> CopyV(e)
      T(name, b) == IF b THEN {name} ELSE {}
      caps == IF e.ev \in {"copy", "read"} THEN <<>> ELSE Concat(Force([i \in 1..Len(e.set.ls) |-> e.set.ls[i].caps]))
      AnyN(P(_)) == \E i \in 1..Len(caps) : \E k \in 1..Len(caps[i].ns) : P(caps[i].ns[k])
      tags == {e.ev} \cup (IF e.ev \in {"copy", "read"} THEN {}
                           ELSE T("fit", e.fit) \cup T("set_level", HasLay(e.set.lay))
                                \cup T("language_level", \E i \in 1..Len(e.set.ls) : HasLay(e.set.ls[i].lay))
                                \cup T("caption_level", \E i \in 1..Len(caps) : HasLay(caps[i].lay))
                                \cup T("text_level", AnyN(LAMBDA n : n.k = "t" /\ HasLay(n.lay)))
                                \cup T("span_level", AnyN(LAMBDA n : n.k = "s" /\ HasLay(n.lay))))
  IN [bad |-> bad, tags |-> tags]
=============================================================================
