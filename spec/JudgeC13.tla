------------------------------ MODULE JudgeC13 ------------------------------
(***************************************************************************)
(* C13: absolute sizes are relativized exactly or refused; fit-to-screen   *)
(* stays safe.                                                             *)
(*  [ev: "dfxp" | "vtt" | "sami", fit, rel, w, h, set, ok, exc, doc]       *)
(*  w, h: the video dimensions, 0: not given                               *)
(* Values are compared up to the rounding to two decimals.                 *)
(***************************************************************************)
EXTENDS JudgeCore, LayoutDocs, Sami

TOL == 53        \* half of 0.01 %, and the rounding of Pct
TOL3 == 57       \* sums of three lengths
Want(l, e) == LET r == RelLay(l, e.w, e.h) IN IF e.fit THEN FitLay(r) ELSE r
\* the layouts of the set, and those its visible characters are placed by
LangsOf(e) == IF e.ev = "vtt" THEN <<e.set.ls[1]>> ELSE e.set.ls
AllLays(e) == {e.set.lay} \cup UNION {{q.lay} \cup UNION {{c.lay} \cup {c.ns[i].lay : i \in 1..Len(c.ns)} : c \in SeqRange(q.caps)} : q \in SeqRange(e.set.ls)}
InForce(want) == UNION {UNION {{c.l : c \in SeqRange(cap)} : cap \in SeqRange(q.caps)} : q \in SeqRange(want)}
May(e) == \E l \in AllLays(e) : Missing(l, e.w, e.h, TRUE)
Refused(e) == ~ e.ok /\ e.exc = "RelativizationError"

\* is the layout g of a document the one wanted, l as given by the set?
ExtFree(l, e) == e.fit /\ l.o # <<>> /\ ~ InSafe(RelLay(l, e.w, e.h))
SameAs(l, g, e) == SameRel(Want(l, e), RelLay(g, 0, 0), TOL, ~ ExtFree(l, e))
SafeBox(g) == LET r == RelLay(g, 0, 0) IN
  r.o = <<>> \/ (r.e # <<>> /\ r.o[1] + r.e[1] <= SAFE_R + 100 /\ r.o[2] + r.e[2] <= SAFE_B + 100)

\* positioning attributes anywhere in a DFXP document
PosAttrs == {"tts:origin", "tts:extent", "tts:padding"}
AbsAttr(at) == \E n \in PosAttrs : \E s \in SeqRange(SizesOf(AttrV([a |-> at], n))) : s.u # "%"
AbsDoc(z) == (\E i \in 1..Len(z.regions) : AbsAttr(z.regions[i].at))
             \/ \E i \in 1..Len(z.divs) : AbsAttr(z.divs[i].at) \/ \E k \in 1..Len(z.divs[i].ps) : AbsAttr(z.divs[i].ps[k].at)

DfxpV(e, want) ==
  LET d == DfxpChars(e.doc)
      Flat(lang) == LET I == {i \in 1..Len(d.ls) : d.ls[i].lang = lang} IN IF I = {} THEN <<>> ELSE Concat(d.ls[MinOf(I)].caps)
      Letters(chars) == Force([i \in 1..Len(chars) |-> chars[i].c])
      Cmp(q) == LET w == Concat(q.caps)
                    g == Flat(q.lang)
                    pairs == {<<w[i].l, g[i].l>> : i \in 1..Len(w)}
                IN IF Letters(w) # Letters(g) THEN {"text"}
                   ELSE UNION {IF ~ p[2].ok THEN {"region"}
                               ELSE IF ~ IsRelative(p[2].l) THEN {"absolute"}
                               ELSE (IF SameAs(p[1], p[2].l, e) THEN {} ELSE {"value"})
                                    \cup (IF e.fit /\ ~ ExtFree(p[1], e) /\ ~ SafeBox(p[2].l) THEN {"unsafe"} ELSE {}) : p \in pairs}
  IN IF ~ d.wf THEN {"malformed"}
     ELSE UNION {Cmp(q) : q \in SeqRange(want)} \cup (IF AbsDoc(TtmlParse(e.doc).z) THEN {"absolute"} ELSE {})

\* no length but percentages in cue settings
PctOnly(set) == LET q == VttSet(set) IN q.ok /\ q.pos # 0 - 2 /\ q.line # 0 - 2 /\ q.size # 0 - 2
VttV(e, want) ==
  LET caps == want[1].caps
      runs == Concat(Force([k \in 1..Len(caps) |-> Runs(caps[k])]))
      d == VttCues(e.doc)
      Free(l) == HasLay(l) /\ ~ e.rel /\ ~ IsRelative(l)      \* not asked to relativize: only percentages or nothing
      Fine(q, c) ==
        IF q.l = NoLay THEN c.set = <<>> \/ VttSet(c.set) = [NoSet EXCEPT !.align = "start"]
        ELSE LET got == VttSet(c.set)
                 r == Want(q.l, e)
                 wanted == WantSet(r)
             IN Free(q.l) \/ SetMatches(IF ExtFree(q.l, e) THEN [wanted EXCEPT !.size = got.size] ELSE wanted, got, r, TOL3)
  IN IF ~ d.wf THEN {"malformed"}
     ELSE IF Concat(MapSeq(d.cues, LAMBDA c : c.x)) # Concat(MapSeq(runs, LAMBDA q : q.x)) THEN {"text"}
     ELSE IF \E i \in 1..Len(d.cues) : ~ PctOnly(d.cues[i].set) THEN {"absolute"}
     ELSE IF Len(d.cues) # Len(runs) THEN {"cues"}
     ELSE IF \E i \in 1..Len(runs) : ~ Fine(runs[i], d.cues[i]) THEN {"value"} ELSE {}

Margins == <<"margin-top", "margin-bottom", "margin-left", "margin-right">>
SamiV(e) ==
  LET z == SamiParse(e.doc, S("en"))
      Ds(p) == Concat(Force([i \in 1..Len(z.rules) |-> IF z.rules[i].sel = <<112>> THEN z.rules[i].ds ELSE <<>>])) \o ClassRule(z.rules, p.cls)
      LastV(ds, n) == LET I == {i \in 1..Len(ds) : ds[i].n = S(n)} IN IF I = {} THEN <<>> ELSE ds[CHOOSE i \in I : \A j \in I : j <= i].v
      Lay(lang) == LET I == {i \in 1..Len(e.set.ls) : e.set.ls[i].lang = lang}
                   IN IF I = {} THEN NoLay ELSE e.set.ls[MinOf(I)].lay
      Ok(p) == LET l == Lay(p.lang)
                   r == RelLay(l, e.w, e.h)
                   ds == Ds(p)
               IN l.p = <<>> \/ \A i \in 1..4 : LET s == SizeOf(LastV(ds, Margins[i])) IN s.u = "%" /\ Near(s.n * 100, r.p[i], TOL)
      AllDs == Concat(Force([i \in 1..Len(z.rules) |-> z.rules[i].ds]))
      Abs(d) == (\E i \in 1..4 : d.n = S(Margins[i])) /\ SizeOf(d.v).u # "%"
  IN IF ~ z.wf THEN {"malformed"}
     ELSE (IF \E i \in 1..Len(AllDs) : Abs(AllDs[i]) THEN {"absolute"} ELSE {})
          \cup (IF \E i \in 1..Len(z.ps) : ~ z.ps[i].blank /\ ~ Ok(z.ps[i]) THEN {"value"} ELSE {})

V_C13(e) ==
  LET want == SetChars([e.set EXCEPT !.ls = LangsOf(e)])
      must == e.rel /\ (IF e.ev = "sami" THEN \E q \in SeqRange(e.set.ls) : Missing(q.lay, e.w, e.h, FALSE)
                        ELSE \E l \in InForce(want) : Missing(l, e.w, e.h, FALSE))
      bad == IF must THEN IF Refused(e) THEN {} ELSE IF e.ok THEN {"not_refused"} ELSE {"raised"}
             ELSE IF Refused(e) THEN IF May(e) THEN {} ELSE {"refused"}
             ELSE IF ~ e.ok THEN {"raised"}
             ELSE CASE e.ev = "dfxp" -> IF e.rel \/ \A l \in AllLays(e) : IsRelative(l) THEN DfxpV(e, want) ELSE {}
                    [] e.ev = "vtt" -> VttV(e, want)
                    [] OTHER -> IF e.rel THEN SamiV(e) ELSE {}
      T(name, b) == IF b THEN {name} ELSE {}
      us == UNION {{s.u : s \in Sizes(l)} : l \in AllLays(e)}
  IN [bad |-> bad,
      tags |-> {e.ev} \cup T("fit", e.fit) \cup T("relativize", e.rel) \cup T("must_refuse", must) \cup T("refused", Refused(e))
               \cup T("px", "px" \in us) \cup T("em", "em" \in us) \cup T("pt", "pt" \in us) \cup T("cell", "c" \in us)
               \cup T("no_width", e.w = 0 /\ e.h # 0) \cup T("no_height", e.h = 0 /\ e.w # 0)]
=============================================================================
