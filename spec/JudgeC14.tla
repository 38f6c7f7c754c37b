------------------------------ MODULE JudgeC14 ------------------------------
(***************************************************************************)
(* C14: each language's captions stay under their language, in order.      *)
(*  read:  [fmt, doc, default, lang, res]  lang: the language option       *)
(*         (empty for DFXP and SAMI, which take theirs from the document)  *)
(*  write: [fmt, only (0, or the index of the language asked for), langs,  *)
(*         out]                                                            *)
(***************************************************************************)
EXTENDS JudgeCore, Consume

\* a cue of the comparison: its start and its text without white space
Txt(lines) == Squeeze(FlattenLines(lines))
Ms(t) == [s |-> t.s, u |-> MsOf(t)]
Solid(cues) == SelectSeq(cues, LAMBDA c : c.x # <<>>)
Key(s, lines) == [s |-> s, x |-> Txt(lines)]

(* The languages of a document, in order of first appearance, each with its
   cues; "shown": in order of the first cue that shows something.          *)
Dfxp(doc, default) ==
  LET p == TtmlParse(doc)
      LangOf(d) == IF d.has THEN d.lang ELSE IF p.z.hasTtLang THEN p.z.ttlang ELSE default
      order == FoldLeft(LAMBDA a, d : IF LangOf(d) \in SeqRange(a) THEN a ELSE Append(a, LangOf(d)), <<>>, p.z.divs)
      Cues(d) == Force([k \in 1..Len(d.ps) |-> LET c == TtCue(d.ps[k]) IN Key(c.s, c.lines)])
      Of(lg) == Concat(Force([i \in 1..Len(p.z.divs) |-> IF LangOf(p.z.divs[i]) = lg THEN Cues(p.z.divs[i]) ELSE <<>>]))
  IN [wf |-> p.wf /\ ~ p.z.stray /\ \A i \in 1..Len(p.z.divs) : \A k \in 1..Len(p.z.divs[i].ps) : TtCue(p.z.divs[i].ps[k]).ok,
      order |-> order, shown |-> order,
      cues |-> Force([i \in 1..Len(order) |-> Solid(Of(order[i]))])]
SamiD(doc, default) ==
  LET p == SamiParse(doc, default)
      order == SamiLangs(p.ps)
      Of(lg) == SelectSeq(p.ps, LAMBDA q : q.lang = lg)
  IN [wf |-> p.wf, order |-> order,
      shown |-> SamiLangs(SelectSeq(p.ps, LAMBDA q : ~ q.blank)),
      cues |-> Force([i \in 1..Len(order) |-> Solid(MapSeq(Of(order[i]), LAMBDA q : Key(q.t, q.lines)))]),
      raw |-> p]

GotLangs(res) == SelectSeq(Force([i \in 1..Len(res.langs) |-> [lang |-> res.langs[i].lang,
                    cues |-> Solid(MapSeq(res.langs[i].caps, LAMBDA c : Key([s |-> c.s.s, u |-> c.s.u], c.lines)))]]),
                 LAMBDA q : q.cues # <<>>)
Names(ls) == Force([i \in 1..Len(ls) |-> ls[i].lang])
Filter(names, keep) == SelectSeq(names, LAMBDA n : n \in keep)

ReadV(e) ==
  LET d == IF e.fmt = "dfxp" THEN Dfxp(e.doc, e.default) ELSE SamiD(e.doc, e.default)
      got == GotLangs(e.res)
      have == {d.order[i] : i \in {j \in 1..Len(d.order) : d.cues[j] # <<>>}}
      CuesOf(n) == d.cues[CHOOSE i \in 1..Len(d.order) : d.order[i] = n]
  IN IF ~ d.wf THEN {"GENERATOR"}
     ELSE IF have = {} THEN {}
     ELSE IF ~ e.res.ok THEN {"raised"}
     ELSE (IF SeqRange(Names(got)) # have THEN {"languages"}
           ELSE (IF Names(got) \notin {Filter(d.order, have), Filter(d.shown, have)} THEN {"order"} ELSE {})
                \cup UNION {IF got[i].cues = CuesOf(got[i].lang) THEN {}
                            ELSE IF Len(got[i].cues) # Len(CuesOf(got[i].lang)) THEN {"cues_moved"}
                            ELSE {"cues_changed"} : i \in 1..Len(got)})
          \* a language without a cue may be listed, one the document does not mention may not
          \cup (IF \E i \in 1..Len(e.res.langs) : e.res.langs[i].lang \notin SeqRange(d.order) THEN {"invented_language"} ELSE {})

\* the formats of one language: everything is under the language asked for
OptV(e) ==
  IF ~ e.res.ok THEN {"raised"}
  ELSE IF Names(e.res.langs) # <<e.lang>> THEN {"option"}
  ELSE {}

\* ------------------------------------------------------------ writing
Want(e) == LET ls == IF e.only = 0 THEN e.langs ELSE <<e.langs[e.only]>>
           IN Force([i \in 1..Len(ls) |-> [lang |-> ls[i].lang,
                cues |-> MapSeq(ls[i].caps, LAMBDA c : Key(Ms(c.s), c.lines))]])
\* captions shown at the same time may have become one cue
SameCues(a, b) == a = b
Merged(cues) == FoldLeft(LAMBDA a, c : LET n == Len(a) IN
                   IF n > 0 /\ a[n].s = c.s THEN [a EXCEPT ![n].x = @ \o c.x] ELSE Append(a, c), <<>>, cues)
MsKey(c) == [s |-> Ms(c.s), x |-> c.x]

DfxpWriteV(e) ==
  LET d == TtmlParse(e.out.doc)
      w == Want(e)
      Cues(i) == Force([k \in 1..Len(d.z.divs[i].ps) |-> LET c == TtCue(d.z.divs[i].ps[k]) IN MsKey(Key(c.s, c.lines))])
  IN IF ~ d.wf \/ d.z.stray THEN {"malformed"}
     ELSE IF Force([i \in 1..Len(d.z.divs) |-> d.z.divs[i].lang]) # Names(w)
          THEN (IF {d.z.divs[i].lang : i \in 1..Len(d.z.divs)} = SeqRange(Names(w)) THEN {"order"}
                ELSE IF e.only # 0 THEN {"option"} ELSE {"languages"})
     ELSE UNION {IF Merged(w[i].cues) = Merged(Cues(i)) THEN {} ELSE {"cues_moved"} : i \in 1..Len(w)}

SamiWriteV(e) ==
  LET d == SamiD(e.out.doc, S("?"))
      w == Want(e)
      have == {i \in 1..Len(w) : w[i].cues # <<>>}
      ps == d.raw.ps
      ms == Force([i \in 1..Len(d.raw.syncs) |-> FromMsCps(d.raw.syncs[i])])
      CuesOf(n) == MapSeq(d.cues[CHOOSE i \in 1..Len(d.order) : d.order[i] = n], MsKey)
  IN IF ~ d.wf THEN {"malformed"}
     ELSE (IF \E i \in 1..(Len(ms) - 1) : LtT(ms[i + 1], ms[i]) THEN {"sync_order"} ELSE {})
          \cup (IF SeqRange(d.order) # {w[i].lang : i \in have} THEN {"languages"}
                ELSE UNION {IF CuesOf(w[i].lang) = w[i].cues THEN {}
                            ELSE IF MapSeq(CuesOf(w[i].lang), LAMBDA c : c.x) = MapSeq(w[i].cues, LAMBDA c : c.x) THEN {"wrong_sync"}
                            ELSE {"cues_moved"} : i \in have})

OneV(e) ==
  LET c == ConsumeDoc(e.fmt, e.out.doc, FALSE, S("?"))
      got == MapSeq(c.ls[1].cues, LAMBDA q : [s |-> Ms(q.s), x |-> Txt(q.lines)])
  IN IF ~ c.wf THEN {"malformed"}
     ELSE IF Merged(got) # Merged(Want(e)[1].cues) THEN {"option"} ELSE {}

WriteV(e) ==
  IF ~ e.out.ok THEN {"raised"}
  ELSE CASE e.fmt \in {"dfxp", "single", "legacy"} -> DfxpWriteV(e)
         [] e.fmt = "sami" -> SamiWriteV(e)
         [] OTHER -> OneV(e)

V_C14(e) ==
  LET T(name, b) == IF b THEN {name} ELSE {}
      bad == CASE e.ev = "read" -> IF e.lang = <<>> THEN ReadV(e) ELSE OptV(e)
               [] OTHER -> WriteV(e)
      tags == {e.ev \o "_" \o e.fmt}
              \cup (IF e.ev = "write"
                    THEN LET n == Len(e.langs)
                             Starts(i) == {Ms(e.langs[i].caps[k].s) : k \in 1..Len(e.langs[i].caps)}
                         IN T("write_languages_" \o ToString(n), TRUE)
                            \cup T("language_option", e.only # 0)
                            \cup T("coinciding", \E i, j \in 1..n : i < j /\ Starts(i) \cap Starts(j) # {})
                            \cup T("second_earlier", n > 1 /\ e.langs[1].caps # <<>> /\ \E i \in 2..n : e.langs[i].caps # <<>>
                                     /\ LtT(e.langs[i].caps[1].s, e.langs[1].caps[1].s))
                    ELSE T("read_languages_" \o ToString(Len(e.res.langs)), TRUE)
                         \cup T("default_language", e.default # S("und")))
  IN [bad |-> bad, tags |-> tags]
=============================================================================
