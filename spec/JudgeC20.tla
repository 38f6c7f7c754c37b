------------------------------ MODULE JudgeC20 ------------------------------
(***************************************************************************)
(* C20: format detection.                                                  *)
(*  [ev: "detect", txt, own, got, exc]  own: the six readers' own verdicts *)
(*    on the same text ("T", "F", or "X": it raised); got: the name of the *)
(*    class returned, "" for none; exc: the exception raised, ""           *)
(*  [ev: "write", fmt, texts, caps, doc, got, exc, read, n]   caps: number *)
(*    of captions the document carries, read: outcome of reading it back   *)
(*  [ev: "cuts", txt, rows]  one verdict (own, got, exc) for each of many  *)
(*    texts, none empty, tried one after another in one process: txt cut   *)
(*    short at each of many places, and with other tails; (own2, got2):    *)
(*    the verdict on the same text later, of those tried again             *)
(***************************************************************************)
EXTENDS JudgeCore, Detect

DetectV(e) ==
  IF e.txt = <<>> THEN IF e.exc = "CaptionReadNoCaptions" THEN {} ELSE {"empty"}
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE IF e.got # First(e.own) THEN {"order"} ELSE {}
CutsV(e) == UNION {DetectV([txt |-> <<1>>, own |-> e.rows[i].own, got |-> e.rows[i].got, exc |-> e.rows[i].exc]) : i \in 1..Len(e.rows)}
           \cup IF \E i \in 1..Len(e.rows) : e.rows[i].own2 # e.rows[i].own \/ e.rows[i].got2 # e.rows[i].got THEN {"changed"} ELSE {}
WriteV(e) ==
  IF \E i \in 1..Len(e.texts) : HasMarker(e.texts[i]) THEN {"GENERATOR"}
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE IF e.got # ReaderOf(e.fmt) THEN {"unrecognised"}
  ELSE IF e.caps > 0 /\ (e.read # "" \/ e.n = 0) THEN {"unreadable"} ELSE {}
V_C20(e) ==
  LET T(name, b) == IF b THEN {name} ELSE {}
  IN [bad |-> CASE e.ev = "detect" -> DetectV(e) [] e.ev = "cuts" -> CutsV(e) [] OTHER -> WriteV(e),
      tags |-> IF e.ev = "cuts" THEN {"cuts"} \cup {"cut_detected_" \o e.rows[i].got : i \in 1..Len(e.rows)}
               ELSE IF e.ev = "detect"
               THEN {"detected_" \o e.got} \cup T("several_accept", Cardinality({i \in 1..6 : e.own[i] = "T"}) > 1)
                    \cup T("as_documented", {Order[i] : i \in {k \in 1..6 : e.own[k] = "T"}} = Sniff(e.txt))
               ELSE {"write_" \o e.fmt}]
=============================================================================
