------------------------------ MODULE JudgeC17 ------------------------------
(***************************************************************************)
(* C17: SCC output is structurally valid and re-reads to the same words.   *)
(*  [caps: [s, text], ok, exc, out, rok, rexc, rcaps: [s, e, text]]        *)
(*  texts with line feeds for line breaks                                  *)
(***************************************************************************)
EXTENDS JudgeCore, Cea608

BasicSet == {Basic(b) : b \in 32..127}
White == {32, 10}
WordsOf(t) ==
  LET n == Len(t)
      starts == SelectSeq([i \in 1..n |-> i], LAMBDA i : t[i] \notin White /\ (i = 1 \/ t[i - 1] \in White))
      fin(i) == LET J == {j \in i..n : t[j] \in White} IN IF J = {} THEN n ELSE MinOf(J) - 1
  IN Force([k \in 1..Len(starts) |-> SubSeq(t, starts[k], fin(starts[k]))])
SameText(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])
\* the words of a caption as pieces: a word longer than a row may be in several
MaxRow == 32
BeginsAs(w, p) == Len(p) <= Len(w) /\ \A i \in 1..Len(p) : Same(w[i], p[i])
WordsFit(words, pieces) ==
  LET st == FoldLeft(LAMBDA a, p : IF ~ a.ok \/ a.i > Len(words) THEN [a EXCEPT !.ok = FALSE]
                                   ELSE LET w == words[a.i]
                                            rest == SubSeq(w, a.k + 1, Len(w))
                                        IN IF SameText(rest, p) THEN [i |-> a.i + 1, k |-> 0, ok |-> TRUE]
                                           ELSE IF Len(w) > MaxRow /\ BeginsAs(rest, p) THEN [a EXCEPT !.k = @ + Len(p)]
                                           ELSE [a EXCEPT !.ok = FALSE],
                     [i |-> 1, k |-> 0, ok |-> TRUE], pieces)
  IN st.ok /\ st.i = Len(words) + 1
\* a screen's text: its rows, empty cells as spaces, line feeds between
RowText(row) == Force([i \in 1..Len(row) |-> IF Blankish(row[i]) THEN 32 ELSE row[i].c])
ScreenText(scr) == FoldLeft(LAMBDA a, r : a \o (IF a = <<>> THEN <<>> ELSE <<10>>) \o RowText(scr[r]), <<>>, RowsOf(scr))
\* the frames in which a transmission that cannot send two words at once gets each line out
Sent(lines) == FoldLeft(LAMBDA a, l : LET prev == IF a = <<>> THEN 0 ELSE a[Len(a)].to
                                          fr == IF l.fr < prev THEN prev ELSE l.fr
                                      IN Append(a, [fr |-> fr, to |-> fr + Len(l.words)]), <<>>, lines)
\* |tick - instant| <= three frames, and some microseconds for rounding
Three == 3 * 1001
DiffT(a, b) == LET d == SubT(a, b) IN IF d.s > 1000 THEN 1000000000 ELSE IF d.s < 0 - 1000 THEN 0 - 1000000000 ELSE d.s * MICRO + d.u
Near3(tick, h, t) == LET x == DiffT(TickInst(tick, h), t) IN x <= 100110 /\ x >= 0 - 100110
V_C17(e) ==
  LET doc == SccParse(e.out)
      d == Decode(doc.lines)
      n == Len(e.caps)
      inp == Force([i \in 1..n |-> WordsOf(e.caps[i].text)])
      idx == SelectSeq([i \in 1..Len(d.shows) |-> i], LAMBDA i : d.shows[i].order # <<>>)
      shows == Force([k \in 1..Len(idx) |-> d.shows[idx[k]]])
      dom == n > 0 /\ \A i \in 1..n : inp[i] # <<>> /\ \A j \in 1..Len(e.caps[i].text) : e.caps[i].text[j] = 10 \/ e.caps[i].text[j] \in BasicSet
      sent == Sent(doc.lines)
      h == HourOf(doc.lines)
      at(s) == TickOf([fr |-> sent[s.at[1]].fr, drop |-> doc.lines[s.at[1]].drop], s.at[2], h)
      words == \A i \in 1..Len(doc.lines) : doc.lines[i].words # <<>>
      bad == IF ~ dom THEN {"GENERATOR"}
             ELSE IF ~ e.ok THEN {"raised"}
             ELSE IF ~ doc.wf \/ ~ words THEN {"malformed"}
             ELSE (IF \E i \in 1..Len(doc.lines) : \E j \in 1..Len(doc.lines[i].words) :
                         ~ OddParity(doc.lines[i].words[j].a) \/ ~ OddParity(doc.lines[i].words[j].b) THEN {"parity"} ELSE {})
                  \cup (IF d.dom # {} THEN {"not_well_formed"} ELSE {})
                  \cup (IF \E i \in 2..Len(doc.lines) : doc.lines[i].fr < doc.lines[i - 1].fr THEN {"timecodes"} ELSE {})
                  \cup (IF Len(shows) # n THEN {"shown_count"}
                        ELSE (IF \E i \in 1..n : \E r \in 1..15 : Len(shows[i].scr[r]) > MaxRow THEN {"columns"} ELSE {})
                             \cup (IF \E i \in 1..n : ~ WordsFit(inp[i], WordsOf(ScreenText(shows[i].scr))) THEN {"shown_words"} ELSE {})
                             \cup (IF \E i \in 1..n : ~ Near3(at(shows[i]), h, [s |-> e.caps[i].s.s, u |-> e.caps[i].s.u]) THEN {"late_or_early"} ELSE {}))
                  \cup (IF ~ e.rok THEN {"reread_raised"}
                        ELSE IF Len(e.rcaps) # n THEN {"reread_count"}
                        ELSE IF \E i \in 1..n : ~ WordsFit(inp[i], WordsOf(e.rcaps[i].text)) THEN {"reread_words"} ELSE {})
      Tg(name, b) == IF b THEN {name} ELSE {}
  IN [bad |-> bad,
      tags |-> Tg("long_word", \E i \in 1..n : \E j \in 1..Len(inp[i]) : Len(inp[i][j]) > MaxRow)
               \cup Tg("row_of_32", \E i \in 1..Len(shows) : \E r \in 1..15 : Len(shows[i].scr[r]) = MaxRow)
               \cup Tg("rows_5_up", \E i \in 1..Len(shows) : Len(RowsOf(shows[i].scr)) >= 5)
               \cup Tg("hyphens", \E i \in 1..n : 45 \in Range(e.caps[i].text)) \cup Tg("several_captions", n > 1)
               \cup Tg("erased_between", Len(d.shows) > 2 * n)
               \cup Tg("back_to_back", \E i \in 2..Len(doc.lines) : doc.lines[i].fr <= doc.lines[i - 1].fr + Len(doc.lines[i - 1].words))
               \cup Tg("past_ten_hours", \E i \in 1..n : e.caps[i].s.s >= 36000) \cup Tg("past_an_hour", \E i \in 1..n : e.caps[i].s.s >= 3600)]
=============================================================================
