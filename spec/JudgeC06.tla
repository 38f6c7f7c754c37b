------------------------------ MODULE JudgeC06 ------------------------------
(***************************************************************************)
(* C06: when SCC pop-on captions appear and disappear.                     *)
(*  [doc, off: ticks, ok, exc, caps: [s, e, text]]  text: non-blank code   *)
(*  points in order                                                        *)
(***************************************************************************)
EXTENDS JudgeCore, Cea608
CT == INSTANCE CeaTiming

Log(doc, d, h) == Force([i \in 1..Len(d.shows) |-> [t |-> TickOf(doc.lines[d.shows[i].at[1]], d.shows[i].at[2], h),
                                                 v |-> IF NoText(d.shows[i].scr) THEN 0 ELSE i]])
\* lines do not start before the codes of the ones before are sent
Feasible(doc, h) == \A i \in 2..Len(doc.lines) : TickOf(doc.lines[i], 0, h) >= TickOf(doc.lines[i - 1], Len(doc.lines[i - 1].words), h)
\* texts without blanks, written one way (C05 judges the text itself)
OneWay(c) == IF c \in DOMAIN Alike THEN (IF c \in {39, 8217} THEN 39 ELSE 124) ELSE c
Squeezed(t) == LET v == SelectSeq(t, LAMBDA c : c \notin {32, 10, 160}) IN Force([i \in 1..Len(v) |-> OneWay(v[i])])
Visible(cells) == LET v == SelectSeq(cells, LAMBDA x : ~ Blankish(x)) IN Squeezed(Force([i \in 1..Len(v) |-> v[i].c]))
TextOf(g) == FoldLeft(LAMBDA a, l : a \o Visible(l), <<>>, g.lines)
Near(rec, tick, h) == rec.k # "bad" /\ LET w == TickInst(tick, h)
                                        dd == SubT(w, [s |-> rec.s, u |-> rec.u])
                                    IN (dd.s = 0 /\ dd.u <= 2) \/ (dd.s = 0 - 1 /\ dd.u >= MICRO - 2)
V_C06(e) ==
  LET doc == SccParse(e.doc)
      d == Decode(doc.lines)
      h == HourOf(doc.lines)
      log == Log(doc, d, h)
      \* time zero; of documents late in the day, a time no offset reaches
      zero == 0 - (IF h > 12 THEN 12 ELSE h) * HourFrames * 1000
      tm == CT!TimedFrom(log, e.off, zero)
      want == FoldLeft(LAMBDA a, q : LET g == GroupsOf(d.shows[q.v].scr, d.shows[q.v].order)
                                     IN a \o Force([i \in 1..Len(g) |-> [q |-> q, text |-> TextOf(g[i])]]),
                       <<>>, tm)
      n == Len(want)
      ends == \A i \in 1..Len(tm) : tm[i].raw > zero + 2 /\ tm[i].e > zero + 2
      dom == doc.wf /\ d.dom = {} /\ Feasible(doc, h) /\ ends /\ e.off <= HourFrames * 10000
      nx(q) == CHOOSE s \in {want[j].q.s : j \in 1..n} : \A j \in 1..n : want[j].q.s > q.s => s <= want[j].q.s /\ s > q.s
      \* a flash for certain / possibly: ends to choose from, borderline durations
      len(q) == q.e - q.s
      flash == \E i \in 1..Len(tm) : tm[i].e - tm[i].s < CT!Flash - 1 /\ ~ tm[i].either
      maybe == \E i \in 1..Len(tm) : tm[i].raw - tm[i].s <= CT!Flash + 1
      bad == IF ~ dom THEN {"GENERATOR"}
             ELSE IF ~ e.ok THEN (IF e.exc = "CaptionReadTimingError" THEN (IF maybe THEN {} ELSE {"rejected"}) ELSE {"raised"})
             ELSE IF flash THEN {"flash"}
             ELSE IF n # Len(e.caps) THEN {"count"}
             ELSE (IF \E i \in 1..n : Squeezed(e.caps[i].text) # want[i].text THEN {"order"} ELSE {})
                  \cup (IF \E i \in 1..n : ~ Near(e.caps[i].s, want[i].q.s, h) THEN {"start"} ELSE {})
                  \cup (IF \E i \in 1..n : ~ (Near(e.caps[i].e, want[i].q.e, h) \/ (want[i].q.either /\ (Near(e.caps[i].e, want[i].q.raw, h) \/ Near(e.caps[i].e, nx(want[i].q), h))))
                        THEN {"end"} ELSE {})
                  \cup (IF \E i \in 1..n : LtT(e.caps[i].e, e.caps[i].s) \/ (i > 1 /\ LtT(e.caps[i].s, e.caps[i - 1].s)) THEN {"disorder"} ELSE {})
      Tg(name, b) == IF b THEN {name} ELSE {}
      I == 1..Len(tm)
  IN [bad |-> bad,
      tags |-> Tg("timing_error", ~ e.ok) \cup Tg("joined", \E i \in I : tm[i].e # tm[i].raw) \cup Tg("borderline_gap", \E i \in I : tm[i].either)
               \cup Tg("never_cleared", log # <<>> /\ log[Len(log)].v # 0) \cup Tg("offset", e.off # 0) \cup Tg("floored", \E i \in I : tm[i].s = zero)
               \cup Tg("gap", \E i \in 1..(Len(tm) - 1) : tm[i].e # tm[i + 1].s)
               \cup Tg("drop_frame", \E i \in 1..Len(doc.lines) : doc.lines[i].drop) \cup Tg("non_drop", \E i \in 1..Len(doc.lines) : ~ doc.lines[i].drop)
               \cup Tg("time_codes_mixed", \E i \in 1..Len(doc.lines) : doc.lines[i].drop # doc.lines[1].drop) \cup Tg("past_18_h", h > 18)
               \cup Tg("same_time_captions", n > Len(tm))]
=============================================================================
