------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* Format detection: an ordered probe over the readers.  The state of a    *)
(* probe is the position reached in the documented order; it stops at the  *)
(* first reader that accepts.  Also the formats' markers, by which the     *)
(* domain of "pycaption's own output" is delimited.                        *)
(***************************************************************************)
EXTENDS Txt

Order == <<"DFXPReader", "MicroDVDReader", "WebVTTReader", "SAMIReader", "SRTReader", "SCCReader">>
\* own[i] = "T" iff the i-th reader's own detect accepts
First(own) == LET I == {i \in 1..Len(own) : own[i] = "T"} IN IF I = {} THEN "" ELSE Order[MinOf(I)]

ReaderOf(fmt) == CASE fmt \in {"dfxp", "single", "legacy"} -> "DFXPReader"
                   [] fmt = "mdvd" -> "MicroDVDReader" [] fmt = "vtt" -> "WebVTTReader"
                   [] fmt = "sami" -> "SAMIReader" [] fmt = "srt" -> "SRTReader" [] OTHER -> "SCCReader"

\* {digits}{digits} at position i
RECURSIVE DigitEnd(_, _)
DigitEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitEnd(s, i + 1) ELSE i
Braced(s, i) == IF i <= Len(s) /\ s[i] = LBRACE
                THEN LET j == DigitEnd(s, i + 1) IN IF j > i + 1 /\ j <= Len(s) /\ s[j] = RBRACE THEN j + 1 ELSE 0
                ELSE 0
FramePair(s, i) == LET j == Braced(s, i) IN j # 0 /\ Braced(s, j) # 0
Header == S("Scenarist_SCC V1.0")
HasMarker(s) ==
  LET l == Lower(s) IN
  Has(l, S("</tt>")) \/ Has(s, S("WEBVTT")) \/ Has(l, S("<sami")) \/ Has(s, Header)
  \/ \E i \in 1..Len(s) : FramePair(s, i)

\* what each sniffer looks for, as documented; used to describe the inputs explored
Sniff(s) ==
  LET l == Lower(s)
      ls == Lines(s)
  IN (IF Has(l, S("</tt>")) THEN {"DFXPReader"} ELSE {})
     \cup (IF FramePair(s, 1) THEN {"MicroDVDReader"} ELSE {})
     \cup (IF Has(s, S("WEBVTT")) THEN {"WebVTTReader"} ELSE {})
     \cup (IF Has(l, S("<sami")) THEN {"SAMIReader"} ELSE {})
     \cup (IF Len(ls) >= 2 /\ AllDigits(ls[1]) /\ Has(ls[2], S("-->")) THEN {"SRTReader"} ELSE {})
     \cup (IF ls # <<>> /\ ls[1] = Header THEN {"SCCReader"} ELSE {})
=============================================================================
