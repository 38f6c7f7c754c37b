------------------------------ MODULE Consume ------------------------------
(***************************************************************************)
(* One interface to the conformant consumers: what a document shows, per   *)
(* language, as cues [s, e, lines, last].  wf: the document follows the    *)
(* grammar of its format strictly.                                         *)
(***************************************************************************)
EXTENDS Srt, Vtt, Mdvd, Ttml, Sami

MultiMark == S("MULTI-LANGUAGE SRT")
\* the parts of a multi-language SRT document (one per language)
SplitMulti(doc) ==
  LET st == FoldLeft(LAMBDA a, x : IF x = MultiMark
                                   THEN [out |-> Append(a.out, a.cur), cur |-> <<>>]
                                   ELSE [a EXCEPT !.cur = Append(@, x)],
                     [out |-> <<>>, cur |-> <<>>], Lines(doc))
  IN Append(st.out, st.cur)
SrtOfLines(ls) == SrtParse(Concat(Force([i \in 1..Len(ls) |-> Append(ls[i], LF)])))

XCue(s, e, lines) == [s |-> s, e |-> e, lines |-> lines, last |-> FALSE]

\* fmt: "srt" | "vtt" | "dfxp" | "sami" | "mdvd"; multi: an SRT document may hold several languages
ConsumeDoc(fmt, doc, multi, default) ==
  CASE fmt = "srt" ->
         LET parts == IF multi THEN SplitMulti(doc) ELSE <<Lines(doc)>>
             r == Force([i \in 1..Len(parts) |-> SrtOfLines(parts[i])])
         IN [wf |-> \A i \in 1..Len(r) : r[i].wf /\ r[i].canon,
             ls |-> Force([i \in 1..Len(r) |-> [lang |-> default,
                       cues |-> MapSeq(r[i].cues, LAMBDA c : XCue(c.s, c.e, c.lines))]])]
    [] fmt = "vtt" ->
         LET p == VttParse(doc)
             t == Force([i \in 1..Len(p.cues) |-> VttText(JoinLF(p.cues[i].lines))])
         IN [wf |-> p.wf /\ \A i \in 1..Len(t) : t[i].wf /\ t[i].bal /\ ~ t[i].unk,
             ls |-> <<[lang |-> default,
                       cues |-> Force([i \in 1..Len(t) |-> XCue(p.cues[i].s, p.cues[i].e, SplitC(Plain(t[i].chars), LF))])]>>]
    [] fmt = "dfxp" ->
         LET p == TtmlParse(doc)
         IN [wf |-> p.wf /\ ~ p.z.stray /\ \A i \in 1..Len(p.z.divs) : \A k \in 1..Len(p.z.divs[i].ps) : TtCue(p.z.divs[i].ps[k]).ok,
             ls |-> Force([i \in 1..Len(p.z.divs) |->
                       [lang |-> p.z.divs[i].lang,
                        cues |-> Force([k \in 1..Len(p.z.divs[i].ps) |->
                                    LET c == TtCue(p.z.divs[i].ps[k]) IN XCue(c.s, c.e, c.lines)])]])]
    [] fmt = "sami" ->
         LET p == SamiParse(doc, default)
             lg == SamiLangs(p.ps)
         IN [wf |-> p.wf,
             ls |-> Force([i \in 1..Len(lg) |->
                       [lang |-> lg[i],
                        cues |-> MapSeq(SamiCues(p.ps, lg[i]),
                                        LAMBDA c : [s |-> c.s, e |-> c.e, lines |-> c.lines, last |-> c.last])]])]
    [] fmt = "mdvd" ->
         LET p == MdvdParse(doc)
         IN [wf |-> p.wf, ls |-> <<[lang |-> default, cues |-> MapSeq(p.cues, LAMBDA c : XCue(c.s, c.e, c.lines))]>>]

FmtOf(writer) == IF writer \in {"dfxp", "single", "legacy"} THEN "dfxp" ELSE writer
Squeeze(c) == SelectSeq(c, LAMBDA x : ~ IsWs(x))
\* lines with something in them, trimmed / with no white space at all
TrimLines(ls) == SelectSeq(Force([i \in 1..Len(ls) |-> Trim(ls[i])]), LAMBDA x : x # <<>>)
SqueezeLines(ls) == SelectSeq(Force([i \in 1..Len(ls) |-> Squeeze(ls[i])]), LAMBDA x : x # <<>>)
=============================================================================
