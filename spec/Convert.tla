------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* What writing a caption set in a format and reading it back means for    *)
(* the observable timeline: a state is a sequence of languages, each a     *)
(* sequence of cues [s, e, lines]; an instant is [s seconds, u             *)
(* microseconds].  One transition per format.                              *)
(***************************************************************************)
EXTENDS Txt

FloorMs(t) == [s |-> t.s, u |-> (t.u \div 1000) * 1000]
\* 25 frames a second, one every 40000 microseconds
FloorFrame(t) == [s |-> t.s, u |-> (t.u \div 40000) * 40000]
Instant(t) == [s |-> t.s, u |-> t.u]
Later(t, sec) == [t EXCEPT !.s = @ + sec]
Same(a, b) == a.s = b.s /\ a.e = b.e

OnTimes(caps, F(_)) == MapSeq(caps, LAMBDA c : [c EXCEPT !.s = F(c.s), !.e = F(c.e)])

\* SRT: one cue per run of captions with the same times
MergeRuns(caps) ==
  FoldLeft(LAMBDA a, c :
             IF a # <<>> /\ Same(a[Len(a)], c) THEN [a EXCEPT ![Len(a)].lines = @ \o c.lines] ELSE Append(a, c),
           <<>>, caps)

\* SAMI: the end of a language's last cues (the ones of its last sync) is not
\* written; readers give them four seconds
OpenEnd(caps) ==
  IF caps = <<>> THEN caps
  ELSE LET l == caps[Len(caps)].s
       IN MapSeq(caps, LAMBDA c : IF c.s = l THEN [c EXCEPT !.e = Later(l, 4)] ELSE c)

ApplyCaps(fmt, caps) ==
  CASE fmt = "srt"  -> OnTimes(MergeRuns(caps), FloorMs)
    [] fmt = "sami" -> OpenEnd(OnTimes(caps, FloorMs))
    [] fmt = "mdvd" -> OnTimes(caps, FloorFrame)
    [] OTHER        -> OnTimes(caps, FloorMs)
Apply(fmt, set) == MapSeq(set, LAMBDA l : [l EXCEPT !.caps = ApplyCaps(fmt, @)])
=============================================================================
