------------------------------ MODULE JudgeC18 ------------------------------
(***************************************************************************)
(* C18: geometry values compare, hash, parse and print consistently.       *)
(*  [ev: "parse", items: [txt, ok, exc, num, u]]                           *)
(*  [ev: "print", items: [num, u, out, again, same]]                       *)
(*     num: exact value "123.456"; out: printed; again: value re-parsed    *)
(*     prints the same; same: re-parsed value equals the printed one's     *)
(*  [ev: "short", kind, vals, sizes, out, ok, again]                       *)
(*  [ev: "eq", objs, eq, ne, hash]   matrices over the objects             *)
(*  [ev: "pure", op, kept, lay, w, h, res, ok, exc]                        *)
(***************************************************************************)
EXTENDS JudgeCore, Geom

ParseV(it) ==
  LET z == ParseSize(it.txt) IN
  IF z.ok THEN IF ~ it.ok THEN {"not_accepted"}
               ELSE LET g == SplitC(it.num, DOT)
                    IN IF it.u # z.u \/ StripL(g[1]) # z.i \/ (IF Len(g) = 2 THEN StripR(g[2]) ELSE <<>>) # z.f
                       THEN {"parsed_value"} ELSE {}
  ELSE IF Unclear(it.txt) THEN IF it.ok \/ it.exc = "CaptionReadSyntaxError" THEN {} ELSE {"wrong_error"}
  ELSE IF it.ok THEN {"accepted"} ELSE IF it.exc # "CaptionReadSyntaxError" THEN {"wrong_error"} ELSE {}

PrintV(it) ==
  LET z == ParseSize(it.out)
      g == SplitC(it.num, DOT)
      v == [ok |-> TRUE, i |-> g[1], f |-> IF Len(g) = 2 THEN StripR(g[2]) ELSE <<>>, u |-> it.u]
  IN IF ~ PrintedOk(it.out) THEN {"printed_form"}
     ELSE (IF z.u # it.u THEN {"printed_unit"} ELSE IF ~ NearHundredth(Value(z), Value(v)) THEN {"printed_value"} ELSE {})
          \cup (IF ~ it.again THEN {"reprint"} ELSE {})
          \cup (IF Len(v.f) <= 2 /\ ~ it.same THEN {"reparse"} ELSE {})

ShortV(e) ==
  LET want == IF e.kind = "padding" THEN Edges(e.sizes) ELSE e.sizes
  IN IF ~ e.ok THEN {"raised"} ELSE (IF e.out # want THEN {"expansion"} ELSE {}) \cup (IF ~ e.again THEN {"reparse"} ELSE {})

EqV(e) ==
  LET N == 1..Len(e.objs)
      nf == Force([i \in N |-> NormD(e.objs[i])])
      P == N \X N
  IN (IF \E q \in P : e.eq[q[1]][q[2]] # (nf[q[1]] = nf[q[2]]) THEN {"equality"} ELSE {})
     \cup (IF \E q \in P : e.ne[q[1]][q[2]] = (nf[q[1]] = nf[q[2]]) THEN {"inequality"} ELSE {})
     \cup (IF \E q \in P : nf[q[1]] = nf[q[2]] /\ ~ e.hash[q[1]][q[2]] THEN {"hash"} ELSE {})

\* relativized and fitted values; the receiver is kept
PureV(e) ==
  LET l == [o |-> e.lay.o, e |-> e.lay.e, p |-> e.lay.p, h |-> e.lay.h, v |-> e.lay.v, vtt |-> <<>>]
      r == RelLay(l, e.w, e.h)
      want == IF e.op = "fit" THEN FitLay(r) ELSE r
  IN (IF ~ e.kept THEN {"modified"} ELSE {})
     \cup (IF e.op = "relativize" /\ Missing(l, e.w, e.h, FALSE) THEN IF ~ e.ok /\ e.exc = "RelativizationError" THEN {} ELSE {"not_refused"}
           ELSE IF ~ e.ok THEN IF e.exc = "RelativizationError" /\ Missing(l, e.w, e.h, TRUE) THEN {} ELSE {"raised"}
           ELSE IF ~ IsRelative(e.res) THEN {"absolute"}
           ELSE IF ~ SameRel(want, RelLay(e.res, 0, 0), 57, TRUE) THEN {"value"} ELSE {})

V_C18(e) ==
  [bad |-> CASE e.ev = "parse" -> UNION {ParseV(e.items[i]) : i \in 1..Len(e.items)}
             [] e.ev = "print" -> UNION {PrintV(e.items[i]) : i \in 1..Len(e.items)}
             [] e.ev = "short" -> ShortV(e)
             [] e.ev = "eq" -> EqV(e)
             [] e.ev = "pure" -> PureV(e),
   tags |-> {e.ev} \cup (IF e.ev = "pure" THEN {e.op} ELSE IF e.ev = "short" THEN {e.kind} ELSE {})
            \cup (IF e.ev = "parse" /\ \E i \in 1..Len(e.items) : e.items[i].ok THEN {"parsed"} ELSE {})]
=============================================================================
