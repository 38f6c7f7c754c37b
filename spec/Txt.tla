-------------------------------- MODULE Txt --------------------------------
(***************************************************************************)
(* Text as sequences of Unicode code points, and the handful of string     *)
(* operators every format specification below needs.  TLC strings are only *)
(* used as literals (S("abc")) and as tags.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

AsciiChars ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(AsciiChars, i, i) : i \in 1..Len(AsciiChars)} |->
             (CHOOSE i \in 1..Len(AsciiChars) : SubSeq(AsciiChars, i, i) = c) + 31]

\* a sequence given by a function expression, evaluated once (TLC evaluates those anew at every use)
Force(s) == s \o <<>>

\* a TLA+ string literal as a sequence of code points
S(str) == Force([i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]])
\* ... and back, for ASCII only ("?" for anything else); used for tags/keys
ToStr(cps) == FoldLeft(LAMBDA a, c : a \o (IF c >= 32 /\ c <= 126
                                           THEN SubSeq(AsciiChars, c - 31, c - 31)
                                           ELSE "?"), "", cps)

LF == 10   CR == 13   TAB == 9   SP == 32   NBSP == 160
LT == 60   GT == 62   AMP == 38  QUOT == 34 APOS == 39  SLASH == 47
HASH == 35 SEMI == 59 EQ == 61   BANG == 33 DASH == 45  QMARK == 63
COLON == 58 DOT == 46 COMMA == 44 LBRACE == 123 RBRACE == 125 PIPE == 124
LBRACK == 91 RBRACK == 93 PERCENT == 37 PLUS == 43 LPAREN == 40 RPAREN == 41

\* every code point Unicode calls white space (what "collapsing white space"
\* may swallow); the formats' own syntactic white space is narrower
WsSet == (9..13) \cup (28..32) \cup {133, 160, 5760} \cup (8192..8202)
           \cup {8232, 8233, 8239, 8287, 12288}
IsWs(c) == c \in WsSet
XmlWs == {32, 10, 13, 9}
HtmlWs == {32, 10, 13, 9, 12}
IsXmlWs(c) == c = 32 \/ c = 10 \/ c = 13 \/ c = 9
IsHtmlWs(c) == c = 32 \/ c = 10 \/ c = 13 \/ c = 9 \/ c = 12
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
Lower(s) == Force([i \in 1..Len(s) |-> LowerC(s[i])])

Sub(s, a, b) == IF b < a THEN <<>> ELSE SubSeq(s, a, b)
AllIn(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])

\* does pat occur in s at position i ?
At(s, i, pat) == /\ i + Len(pat) - 1 <= Len(s)
                 /\ \A k \in 1..Len(pat) : s[i + k - 1] = pat[k]
StartsWith(s, pat) == At(s, 1, pat)
\* (quantified over positions, not recursive: TLC's evaluation context would
\* grow with the depth of the recursion)
MinOf(I) == CHOOSE i \in I : \A j \in I : i <= j
\* first index >= i of code point c, 0 if none
FindC(s, i, c) == LET I == {k \in i..Len(s) : s[k] = c} IN IF I = {} THEN 0 ELSE MinOf(I)
\* first index >= i where pat occurs, 0 if none
Find(s, i, pat) == LET p == pat
                       I == {k \in i..(Len(s) - Len(p) + 1) : s[k] = p[1] /\ At(s, k, p)}
                   IN IF I = {} THEN 0 ELSE MinOf(I)
Has(s, pat) == Find(s, 1, pat) # 0

\* index of the first / last position whose code point is not in the set W
FirstNon(s, i, W) == LET I == {k \in i..Len(s) : s[k] \notin W} IN IF I = {} THEN Len(s) + 1 ELSE MinOf(I)
LastNon(s, n, W) == LET I == {k \in 1..n : s[k] \notin W} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in (i + 1)..n : j \notin I
TrimW(s, W) == Sub(s, FirstNon(s, 1, W), LastNon(s, Len(s), W))
Trim(s) == TrimW(s, WsSet)
IsBlank(s) == \A i \in 1..Len(s) : IsWs(s[i])

\* collapse white-space runs to one space and trim
Norm(s) ==
  LET st == FoldLeft(LAMBDA a, c :
              IF IsWs(c) THEN [a EXCEPT !.sp = a.out # <<>>]
              ELSE [out |-> IF a.sp THEN a.out \o <<32, c>> ELSE Append(a.out, c), sp |-> FALSE],
              [out |-> <<>>, sp |-> FALSE], s)
  IN st.out

\* split at CRLF, CR or LF; a trailing terminator does not open another line
Lines(s) ==
  LET st == FoldLeft(LAMBDA a, c :
              IF c = LF /\ a.cr THEN [a EXCEPT !.cr = FALSE]
              ELSE IF c = LF \/ c = CR
                   THEN [out |-> Append(a.out, a.cur), cur |-> <<>>, cr |-> (c = CR)]
              ELSE [a EXCEPT !.cur = Append(@, c), !.cr = FALSE],
              [out |-> <<>>, cur |-> <<>>, cr |-> FALSE], s)
  IN IF st.cur = <<>> THEN st.out ELSE Append(st.out, st.cur)

\* split at every occurrence of the code point sep (keeps empty pieces)
SplitC(s, sep) ==
  LET st == FoldLeft(LAMBDA a, c :
              IF c = sep THEN [out |-> Append(a.out, a.cur), cur |-> <<>>]
              ELSE [a EXCEPT !.cur = Append(@, c)],
              [out |-> <<>>, cur |-> <<>>], s)
  IN Append(st.out, st.cur)
\* split at white-space runs, no empty pieces
Words(s) ==
  LET st == FoldLeft(LAMBDA a, c :
              IF IsWs(c) THEN [out |-> IF a.cur = <<>> THEN a.out ELSE Append(a.out, a.cur), cur |-> <<>>]
              ELSE [a EXCEPT !.cur = Append(@, c)],
              [out |-> <<>>, cur |-> <<>>], s)
  IN IF st.cur = <<>> THEN st.out ELSE Append(st.out, st.cur)

\* lines, each normalised, empty ones dropped: the observable text of a cue
NormLines(ls) == SelectSeq(Force([i \in 1..Len(ls) |-> Norm(ls[i])]), LAMBDA x : x # <<>>)
FlattenLines(ls) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o <<32>> \o x, <<>>, ls)
MapSeq(s, F(_)) == Force([i \in 1..Len(s) |-> F(s[i])])
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
SeqRange(s) == {s[i] : i \in 1..Len(s)}
JoinLF(ls) == FoldLeft(LAMBDA a, x : [v |-> IF a.n = 0 THEN x ELSE a.v \o <<LF>> \o x, n |-> 1],
                       [v |-> <<>>, n |-> 0], ls).v
=============================================================================
