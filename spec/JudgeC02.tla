------------------------------ MODULE JudgeC02 ------------------------------
(***************************************************************************)
(* C02: writing preserves every cue's start and end instant.               *)
(* Event: [fmt, wl (index of the language a WebVTT writer was asked for),  *)
(*         langs: per language the captions before the write - instants,   *)
(*         words, number of layout runs -, out].                           *)
(* The document is parsed by the conformant consumer of its format and its *)
(* cues are compared with the captions truncated to the resolution.        *)
(***************************************************************************)
EXTENDS JudgeCore, Srt, Vtt, Mdvd, Ttml, Sami

Ms(t) == [s |-> t.s, u |-> MsOf(t)]
\* ------------------------------------------------ parsed cues per language
\* [wf, ls : sequence of [lang, cues: [s, e, lines]]], instants truncated
SplitMulti(doc) ==  \* the parts of a multi-language SRT document
  LET ls == Lines(doc)
      st == FoldLeft(LAMBDA a, x : IF x = S("MULTI-LANGUAGE SRT")
                                   THEN [out |-> Append(a.out, a.cur), cur |-> <<>>]
                                   ELSE [a EXCEPT !.cur = Append(@, x)],
                     [out |-> <<>>, cur |-> <<>>], ls)
  IN Append(st.out, st.cur)
SrtLines(ls) == SrtParse(Concat(Force([i \in 1..Len(ls) |-> Append(ls[i], LF)])))
TCue(c) == [s |-> Ms(c.s), e |-> Ms(c.e), lines |-> c.lines]
TCues(cs) == Force([i \in 1..Len(cs) |-> TCue(cs[i])])

Parsed(e) ==
  CASE e.fmt = "srt" ->
         LET parts == SplitMulti(e.out.doc)
             r == Force([i \in 1..Len(parts) |-> SrtLines(parts[i])])
         IN [wf |-> \A i \in 1..Len(r) : r[i].wf /\ r[i].canon
                     /\ \A k \in 1..Len(r[i].nums) : r[i].nums[k] = k,
             ls |-> Force([i \in 1..Len(r) |-> [lang |-> <<>>, cues |-> TCues(r[i].cues)]])]
    [] e.fmt = "vtt" ->
         LET p == VttParse(e.out.doc) IN [wf |-> p.wf, ls |-> <<[lang |-> <<>>, cues |-> TCues(p.cues)]>>]
    [] e.fmt \in {"dfxp", "single", "legacy"} ->
         LET p == TtmlParse(e.out.doc)
         IN [wf |-> p.wf /\ \A i \in 1..Len(p.z.divs) : \A k \in 1..Len(p.z.divs[i].ps) :
                              TtCue(p.z.divs[i].ps[k]).ok /\ p.z.divs[i].ps[k].he,
             ls |-> Force([i \in 1..Len(p.z.divs) |->
                       [lang |-> p.z.divs[i].lang,
                        cues |-> Force([k \in 1..Len(p.z.divs[i].ps) |-> TCue(TtCue(p.z.divs[i].ps[k]))])]])]
    [] OTHER -> [wf |-> FALSE, ls |-> <<>>]

\* consecutive captions with the same truncated stamps:
\* [s, e, lo, hi] - a conformant document shows them as lo..hi cues
Groups(e, caps) ==
  LET multi == e.fmt \in {"srt", "single", "legacy"}
  IN FoldLeft(LAMBDA a, c :
       LET n == Len(a)
           ts == Ms(c.s)
           te == Ms(c.e)
           exact == n > 0 /\ a[n].xs = c.s /\ a[n].xe = c.e /\ c.s.k = a[n].xs.k
           hi == IF e.fmt = "vtt" THEN c.ng ELSE 1
           lo == IF multi /\ exact THEN 0 ELSE 1
       IN IF n > 0 /\ a[n].s = ts /\ a[n].e = te
          THEN [a EXCEPT ![n].lo = @ + lo, ![n].hi = @ + hi, ![n].xs = c.s, ![n].xe = c.e]
          ELSE Append(a, [s |-> ts, e |-> te, lo |-> 1, hi |-> hi, xs |-> c.s, xe |-> c.e]),
     <<>>, caps)
Runs(cues) ==
  FoldLeft(LAMBDA a, c :
       LET n == Len(a)
       IN IF n > 0 /\ a[n].s = c.s /\ a[n].e = c.e THEN [a EXCEPT ![n].k = @ + 1]
          ELSE Append(a, [s |-> c.s, e |-> c.e, k |-> 1]),
     <<>>, cues)

Text(lss) == Norm(Concat(Force([i \in 1..Len(lss) |-> FlattenLines(lss[i]) \o <<32>>])))
CapWords(caps) == Text(Force([i \in 1..Len(caps) |-> caps[i].lines]))
VttPlain(lines) == <<VttCueText(lines)>>
CueWords(e, cues) == Text(Force([i \in 1..Len(cues) |-> IF e.fmt = "vtt" THEN VttPlain(cues[i].lines) ELSE cues[i].lines]))

Squeeze(c) == SelectSeq(c, LAMBDA x : ~ IsWs(x))
CuesVerdict(e, caps, cues) ==
  LET g == Groups(e, caps)
      r == Runs(cues)
  IN IF Len(g) # Len(r)
     THEN IF Len(caps) = Len(cues) /\ Len(cues) = 1 THEN {"stamp"} ELSE {"cues"}
     ELSE (IF \E i \in 1..Len(g) : g[i].s # r[i].s THEN {"start"} ELSE {})
          \cup (IF \E i \in 1..Len(g) : g[i].e # r[i].e THEN {"end"} ELSE {})
          \cup (IF \E i \in 1..Len(g) : r[i].k < g[i].lo \/ r[i].k > g[i].hi THEN {"count"} ELSE {})
          \cup (IF Squeeze(CapWords(caps)) # Squeeze(CueWords(e, cues)) THEN {"order"} ELSE {})

\* ------------------------------------------------ MicroDVD
MdvdVerdict(e) ==
  LET p == MdvdParse(e.out.doc)
      caps == Concat(Force([i \in 1..Len(e.langs) |-> e.langs[i].caps]))
  IN IF ~ p.wf \/ p.header THEN {"malformed"}
     ELSE IF Len(p.cues) # Len(caps) THEN {"count"}
     ELSE (IF \E i \in 1..Len(caps) : p.cues[i].sf # Frames25(caps[i].s) THEN {"start"} ELSE {})
          \cup (IF \E i \in 1..Len(caps) : p.cues[i].ef # Frames25(caps[i].e) THEN {"end"} ELSE {})
          \cup (IF \E i \in 1..Len(caps) : Squeeze(FlattenLines(p.cues[i].lines)) # Squeeze(FlattenLines(caps[i].lines)) THEN {"order"} ELSE {})

\* ------------------------------------------------ SAMI
SamiLangVerdict(ps, lang, caps) ==
  LET q == SelectSeq(ps, LAMBDA p : p.lang = lang)
      tx == SelectSeq(q, LAMBDA p : ~ p.blank)
      blanks == {Ms(q[i].t) : i \in {j \in 1..Len(q) : q[j].blank}}
      n == Len(caps)
      Overlap(i) == LtT(caps[i + 1].s, caps[i].e)
      \* must appear as blank syncs / may appear
      must == {Ms(caps[i].e) : i \in {j \in 1..(n - 1) : Ms(caps[j].e) # Ms(caps[j + 1].s) /\ ~ Overlap(j)}}
              \cup {Ms(caps[i].e) : i \in {j \in 1..(n - 1) : Overlap(j) /\ \E k \in (j + 1)..n :
                        /\ \A x \in j..(k - 1) : caps[x].s = caps[j].s /\ caps[x].e = caps[j].e
                        /\ Ms(caps[k].s) # Ms(caps[j].e) /\ LtT(caps[j].e, caps[k].s)}}
      may == {Ms(caps[i].e) : i \in 1..(n - 1)}
      samestart(i) == \E j \in 1..Len(q) : q[j].blank /\ Ms(q[j].t) = Ms(caps[i].s)
  IN IF Len(tx) # n THEN {"count"}
     ELSE (IF \E i \in 1..n : Ms(tx[i].t) # Ms(caps[i].s) THEN {"start"} ELSE {})
          \cup (IF ~ (must \subseteq blanks) THEN {"end_missing"} ELSE {})
          \cup (IF ~ (blanks \subseteq may) THEN {"end_wrong"} ELSE {})
          \cup (IF \E i \in 1..n : Squeeze(FlattenLines(tx[i].lines)) # Squeeze(FlattenLines(caps[i].lines)) THEN {"order"} ELSE {})
SamiVerdict(e) ==
  LET p == SamiParse(e.out.doc, S("und"))
  IN IF ~ p.wf THEN {"malformed"}
     ELSE (UNION {SamiLangVerdict(p.ps, e.langs[i].lang, e.langs[i].caps) : i \in 1..Len(e.langs)})
          \cup (IF {p.ps[i].lang : i \in 1..Len(p.ps)} # {e.langs[i].lang : i \in {j \in 1..Len(e.langs) : e.langs[j].caps # <<>>}}
                THEN {"languages"} ELSE {})

V_C02(e) ==
  LET \* (whether a language without cues gets a section of its own is the SRT dialect's business)
      want == IF e.fmt = "vtt" THEN <<e.langs[e.wl]>>
              ELSE IF e.fmt = "srt" THEN SelectSeq(e.langs, LAMBDA q : q.caps # <<>>) ELSE e.langs
      bad == IF ~ e.out.ok THEN {"raised"}
             ELSE IF e.fmt = "mdvd" THEN MdvdVerdict(e)
             ELSE IF e.fmt = "sami" THEN SamiVerdict(e)
             ELSE LET p0 == Parsed(e)
                      p == IF e.fmt = "srt" THEN [p0 EXCEPT !.ls = SelectSeq(@, LAMBDA q : q.cues # <<>>)] ELSE p0
                  IN IF ~ p.wf THEN {"malformed"}
                     ELSE IF Len(p.ls) # Len(want) THEN {"languages"}
                     ELSE (UNION {CuesVerdict(e, want[i].caps, p.ls[i].cues) : i \in 1..Len(want)})
                          \cup (IF e.fmt \in {"dfxp", "single", "legacy"} /\ \E i \in 1..Len(want) : p.ls[i].lang # want[i].lang
                                THEN {"languages"} ELSE {})
      caps == Concat(Force([i \in 1..Len(want) |-> want[i].caps]))
      AnyCap(P(_)) == \E i \in 1..Len(caps) : P(caps[i])
      T(name, b) == IF b THEN {name} ELSE {}
      tags == {e.fmt}
              \cup T("zero_length", AnyCap(LAMBDA c : c.s = c.e))
              \cup T("hour_or_more", AnyCap(LAMBDA c : c.s.s >= 3600))
              \cup T("float_times", AnyCap(LAMBDA c : c.s.k = "float"))
              \cup T("sub_millisecond", AnyCap(LAMBDA c : c.s.u % 1000 # 0))
              \cup T("concurrent", \E i \in 1..(Len(caps) - 1) : caps[i].s = caps[i + 1].s /\ caps[i].e = caps[i + 1].e)
              \cup T("multi_language", Len(want) > 1)
              \cup T("layout_split", AnyCap(LAMBDA c : c.ng > 1))
  IN [bad |-> bad, tags |-> tags]
=============================================================================
