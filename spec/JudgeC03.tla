------------------------------ MODULE JudgeC03 ------------------------------
(***************************************************************************)
(* C03: written text survives a conformant parser.                         *)
(* Event: [fmt, langs: per language the captions' lines before the write,  *)
(*         exact (compare trimmed lines; otherwise white space is ignored: *)
(*         styled or multi-node lines may gain or lose blanks), out].      *)
(***************************************************************************)
EXTENDS JudgeCore, Consume

\* what each caption shows
Shown(e, ls) == IF e.exact THEN TrimLines(ls) ELSE SqueezeLines(ls)

LangV(e, caps, cues) ==
  \* a SAMI paragraph without text is not a cue
  LET want == IF e.fmt = "sami" THEN SelectSeq(caps, LAMBDA c : Shown(e, c.lines) # <<>>) ELSE caps
  IN IF Len(want) # Len(cues)
     THEN {IF Len(cues) > Len(want) THEN "cue_created" ELSE "cue_lost"}
     ELSE IF \A i \in 1..Len(want) : Shown(e, want[i].lines) = Shown(e, cues[i].lines) THEN {}
     ELSE IF \A i \in 1..Len(want) : Len(Shown(e, want[i].lines)) = Len(Shown(e, cues[i].lines)) THEN {"text"}
     ELSE {"lines"}

\* strict structure: beyond the grammar, nothing a text could have smuggled in
Extra(e) ==
  IF FmtOf(e.fmt) = "dfxp"
  THEN LET r == Tokenize("xml", e.out.doc)
           names == {r.toks[i].n : i \in {j \in 1..Len(r.toks) : r.toks[j].k = "o"}}
       IN IF names \subseteq {S("tt"), S("head"), S("styling"), S("layout"), S("style"), S("region"), S("body"), S("div"), S("p"), S("span"), S("br")}
          THEN {} ELSE {"smuggled_markup"}
  ELSE IF e.fmt = "sami"
  THEN LET r == Tokenize("html", e.out.doc)
           names == {r.toks[i].n : i \in {j \in 1..Len(r.toks) : r.toks[j].k = "o"}}
       IN IF names \subseteq {S("sami"), S("head"), S("style"), S("body"), S("sync"), S("p"), S("span"), S("br")}
          THEN {} ELSE {"smuggled_markup"}
  ELSE {}

V_C03(e) ==
  LET want == IF e.fmt = "vtt" THEN <<e.langs[1]>>
              ELSE IF e.fmt = "mdvd" THEN <<[lang |-> S("und"), caps |-> Concat(Force([i \in 1..Len(e.langs) |-> e.langs[i].caps]))]>>
              ELSE e.langs
      p == ConsumeDoc(FmtOf(e.fmt), e.out.doc, Len(e.langs) > 1, S("und"))
      Cues(i) == IF e.fmt = "sami"
                 THEN LET I == {k \in 1..Len(p.ls) : p.ls[k].lang = want[i].lang}
                      IN IF I = {} THEN <<>> ELSE p.ls[CHOOSE k \in I : TRUE].cues
                 ELSE p.ls[i].cues
      bad == IF ~ e.out.ok THEN {"raised"}
             ELSE IF ~ p.wf THEN {"malformed"}
             ELSE IF e.fmt # "sami" /\ Len(p.ls) # Len(want) THEN {"languages"}
             ELSE (UNION {LangV(e, want[i].caps, Cues(i)) : i \in 1..Len(want)}) \cup Extra(e)
      caps == Concat(Force([i \in 1..Len(want) |-> want[i].caps]))
      all == Concat(Force([i \in 1..Len(caps) |-> JoinLF(caps[i].lines)]))
      T(name, b) == IF b THEN {name} ELSE {}
      tags == {e.fmt}
              \cup T(e.fmt \o "_ampersand", AMP \in SeqRange(all))
              \cup T(e.fmt \o "_less_than", LT \in SeqRange(all))
              \cup T(e.fmt \o "_arrow", Has(all, S("-->")))
              \cup T(e.fmt \o "_empty_line", \E i \in 1..Len(caps) : Len(caps[i].lines) > 1 /\ \E k \in 1..Len(caps[i].lines) : IsBlank(caps[i].lines[k]))
              \cup T(e.fmt \o "_astral", \E i \in 1..Len(all) : all[i] > 65535)
              \cup T(e.fmt \o "_not_exact", ~ e.exact)
  IN [bad |-> bad, tags |-> tags]
=============================================================================
