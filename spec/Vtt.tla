-------------------------------- MODULE Vtt --------------------------------
(***************************************************************************)
(* A conformant WebVTT consumer: file structure, timing line, cue settings *)
(* and the cue-text grammar (tags, character references).                  *)
(***************************************************************************)
EXTENDS Num, Entities

\* [hh..:]mm:ss.mmm
VttStamp(c) ==
  LET p == SplitC(c, COLON)
      n == Len(p)
      bad == [ok |-> FALSE, t |-> T0]
  IN IF n # 2 /\ n # 3 THEN bad
     ELSE LET h == IF n = 3 THEN p[1] ELSE <<48>>
              m == p[n - 1]
              q == SplitC(p[n], DOT)
          IN IF /\ AllDigits(h) /\ (n = 3 => Len(h) >= 2) /\ NatOf(h) >= 0 /\ NatOf(h) <= 500000
                /\ Len(m) = 2 /\ AllDigits(m) /\ NatOf(m) < 60
                /\ Len(q) = 2 /\ Len(q[1]) = 2 /\ AllDigits(q[1]) /\ NatOf(q[1]) < 60
                /\ Len(q[2]) = 3 /\ AllDigits(q[2])
             THEN [ok |-> TRUE, t |-> Clock(NatOf(h), NatOf(m), NatOf(q[1]), q[2])]
             ELSE bad

VttWs == {32, 9}
IsVttWs(c) == c = 32 \/ c = 9
\* a timing line: stamp ws* "-->" ws* stamp [ws+ settings]
VttTiming(line) ==
  LET k == Find(line, 1, S("-->"))
      bad == [ok |-> FALSE, s |-> T0, e |-> T0, set |-> <<>>]
  IN IF k = 0 THEN bad
     ELSE LET a == VttStamp(TrimW(Sub(line, 1, k - 1), VttWs))
              r == TrimW(Sub(line, k + 3, Len(line)), VttWs)
              j == LET w == {i \in 1..Len(r) : IsVttWs(r[i])}
                   IN IF w = {} THEN Len(r) + 1 ELSE CHOOSE i \in w : \A x \in w : i <= x
              b == VttStamp(Sub(r, 1, j - 1))
          IN IF a.ok /\ b.ok
             THEN [ok |-> TRUE, s |-> a.t, e |-> b.t, set |-> TrimW(Sub(r, j, Len(r)), VttWs)]
             ELSE bad

(***************************************************************************)
(* File structure.  Blocks are separated by empty lines; a block holds a   *)
(* cue iff its first or second line contains "-->"; a later "-->" line     *)
(* ends the cue and starts another one.  Other blocks (NOTE, STYLE,        *)
(* REGION, metadata) carry no cue.                                         *)
(***************************************************************************)
VttInit == [m |-> "sig", wf |-> TRUE, cues |-> <<>>, cur |-> [s |-> T0, e |-> T0, set |-> <<>>, lines |-> <<>>],
            inCue |-> FALSE, seen |-> 0]
VttFlush(a) == IF a.inCue THEN [a EXCEPT !.cues = Append(@, a.cur), !.inCue = FALSE, !.seen = 0]
               ELSE [a EXCEPT !.seen = 0]
VttStep(a, line) ==
  CASE a.m = "sig" ->
         LET l == IF line # <<>> /\ line[1] = 65279 THEN Tail(line) ELSE line
         IN [a EXCEPT !.m = "hdr",
              !.wf = @ /\ StartsWith(l, S("WEBVTT")) /\ (Len(l) > 6 => IsVttWs(l[7]))]
    [] a.m = "hdr" /\ ~ Has(line, S("-->")) -> IF line = <<>> THEN [a EXCEPT !.m = "body"] ELSE a
    [] Has(line, S("-->")) ->
         LET b == IF a.seen <= 1 /\ ~ a.inCue THEN a ELSE [VttFlush(a) EXCEPT !.wf = FALSE]
             t == VttTiming(line)
         IN IF t.ok THEN [b EXCEPT !.m = "body", !.inCue = TRUE, !.seen = 2,
                            !.cur = [s |-> t.s, e |-> t.e, set |-> t.set, lines |-> <<>>]]
            ELSE [b EXCEPT !.m = "body", !.wf = FALSE]
    [] line = <<>> -> VttFlush(a)
    [] a.inCue -> [a EXCEPT !.cur.lines = Append(@, line)]
    [] OTHER -> [a EXCEPT !.seen = @ + 1]
VttParse(doc) ==
  LET z == VttFlush(FoldLeft(VttStep, VttInit, Lines(doc)))
  IN [wf |-> z.wf /\ z.m # "sig", cues |-> z.cues]

(***************************************************************************)
(* Cue text.  Known tags: c i b u ruby rt v lang and timestamps.  known    *)
(* tags show nothing, except that v shows its annotation; the text of an   *)
(* unknown tag is left literal (pycaption's documented reading).  The fold *)
(* keeps the stack of open tags so that balance can be judged and each     *)
(* character carries the set of i/b/u in force.                            *)
(***************************************************************************)
VttKnown == {S("c"), S("i"), S("b"), S("u"), S("ruby"), S("rt"), S("v"), S("lang")}
TagName(body) ==   \* up to white space, "." , "/" excluded
  LET stop == {i \in 1..Len(body) : IsHtmlWs(body[i]) \/ body[i] = DOT}
      k == IF stop = {} THEN Len(body) + 1 ELSE CHOOSE i \in stop : \A j \in stop : i <= j
  IN Sub(body, 1, k - 1)
IsVttTimeTag(body) == VttStamp(TrimW(body, VttWs)).ok

\* chars: sequence of [c, st] (st subset of {"i","b","u"})
VttText(c) ==
  LET
    Emit(a, cs) == [a EXCEPT !.out = @ \o Force([i \in 1..Len(cs) |-> [c |-> cs[i], st |-> a.st]])]
    Pop(a, nm) == IF a.stack # <<>> /\ a.stack[Len(a.stack)] = nm
                  THEN LET s2 == SubSeq(a.stack, 1, Len(a.stack) - 1)
                       IN [a EXCEPT !.stack = s2,
                                    !.st = {x \in {"i", "b", "u"} : \E k \in 1..Len(s2) : s2[k] = S(x)}]
                  ELSE [a EXCEPT !.bal = FALSE]
    Push(a, nm) == [a EXCEPT !.stack = Append(@, nm),
                             !.st = IF nm \in {S("i"), S("b"), S("u")} THEN @ \cup {ToStr(nm)} ELSE @]
    Tag(a) ==
      LET body == a.buf
          b0 == [a EXCEPT !.m = "t", !.buf = <<>>]
      IN IF body # <<>> /\ body[1] = SLASH
         THEN LET nm == Sub(body, 2, Len(body))
              IN IF nm \in VttKnown THEN Pop(b0, nm)
                 ELSE [Emit(b0, <<LT>> \o body \o <<GT>>) EXCEPT !.unk = TRUE]
         ELSE IF IsVttTimeTag(body) THEN b0
         ELSE LET nm == TagName(body)
              IN IF nm = S("v")
                 THEN LET sp == {i \in 1..Len(body) : IsHtmlWs(body[i])}
                          k == IF sp = {} THEN 0 ELSE CHOOSE i \in sp : \A j \in sp : i <= j
                          ann == IF k = 0 THEN <<>> ELSE TrimW(Sub(body, k + 1, Len(body)), HtmlWs)
                      IN Push(IF ann = <<>> THEN b0 ELSE Emit(b0, VttDecode(ann) \o <<COLON, SP>>), nm)
                 ELSE IF nm \in VttKnown THEN Push(b0, nm)
                 ELSE [Emit(b0, <<LT>> \o body \o <<GT>>) EXCEPT !.unk = TRUE]
    FlushRef(a) == [Emit(a, VttDecode(a.raw)) EXCEPT !.raw = <<>>]
    Step(a, x) ==
      CASE a.m = "t" /\ x = LT  -> [FlushRef(a) EXCEPT !.m = "g", !.buf = <<>>]
        [] a.m = "t" -> [a EXCEPT !.raw = Append(@, x)]
        [] a.m = "g" /\ x = GT  -> Tag(a)
        [] OTHER -> [a EXCEPT !.buf = Append(@, x)]
    z0 == FoldLeft(Step,
                   [m |-> "t", raw |-> <<>>, buf |-> <<>>, out |-> <<>>, st |-> {}, stack |-> <<>>,
                    bal |-> TRUE, unk |-> FALSE], c)
    z1 == FlushRef(z0)
  IN [chars |-> z1.out, bal |-> z1.bal /\ z1.stack = <<>>, wf |-> z1.m = "t", unk |-> z1.unk]

Plain(chars) == Force([i \in 1..Len(chars) |-> chars[i].c])
VttCueText(lines) == Plain(VttText(JoinLF(lines)).chars)
=============================================================================
