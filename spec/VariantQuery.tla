----------------------------- MODULE VariantQuery -----------------------------
(* Calls that only look at variants: visitation of one to four operands, get,    *)
(* comparison, hashing, output and the visitor adaptors.  QueryViol says what a  *)
(* recorded query breaks; QueryOps enumerates the queries worth making in a      *)
(* state.  Queries leave every variant as it was, whatever its storage state.    *)
(*                                                                               *)
(* A query is <<name, d, s, w, x, c, k, q, z>>: operands d, s, q, z; w what is   *)
(* asked for; x the form of the call; c value categories (base 4, one digit per  *)
(* operand); k throwing point.                                                   *)
(* Recorded additionally: calls = sequence of <<visitor object is the original,  *)
(* called as const, <<arg...>>>> with arg = <<tag, address, category, value>>;   *)
(* nc number of calls; got/same what the caller received (tok, or the object     *)
(* cell for references); ra/ea/rc address returned by get, address a U-pointer   *)
(* to the content would have, category of the result; b comparison result;       *)
(* hv/hb/hs hashes; io = <<characters and stream state after <<, the same after  *)
(* streaming the content directly>>; ss same stream returned.                    *)
EXTENDS VariantContract

QProp(n) == CASE n = "qvisit" -> "C06" [] n \in {"qvis2", "qvis3", "qtri", "qquad", "qvis4", "qvis5"} -> "C07" [] n = "qget" -> "C08"
              [] n = "qcmp" -> "C09" [] n = "qhash" -> "C10" [] n = "qio" -> "C18" [] n \in {"qdelay", "qvptr"} -> "C19"
              [] OTHER -> "C00"
IsQuery(n) == n \in {"qvisit", "qvis2", "qvis3", "qtri", "qquad", "qvis4", "qvis5", "qget", "qcmp", "qhash", "qio", "qdelay", "qvptr"}

\* ------------------------------------------------------------------ visitation
ConstForm(x) == x \in {1, 6, 9, 11}            \* the visitor is passed as a const object (or is a lambda)
RefForm(x)   == x \in {3, 7, 11}               \* the visitor returns a reference to cell
Dig(c, i) == (c \div (CASE i = 1 -> 1 [] i = 2 -> 4 [] i = 3 -> 16 [] i = 4 -> 64 [] i = 5 -> 256)) % 4
ArgIs(a, p, c) == a[1] = p.t /\ a[2] = p.a /\ a[3] = c /\ a[4] = p.v
\* rvalue operands of three or more: the content's value is handed over, not the object
ArgIsByValue(a, p) == a[1] = p.t /\ a[3] = 2 /\ a[4] = p.v
CallOk(call, x, args) ==
  /\ call[1] = 1 /\ call[2] = (IF ConstForm(x) THEN 1 ELSE 0)
  /\ Len(call[3]) = Len(args)
  /\ \A i \in 1..Len(args) : IF args[i].byval THEN ArgIsByValue(call[3][i], args[i].p) ELSE ArgIs(call[3][i], args[i].p, args[i].c)
Passed(o, x) ==     \* result or exception passed through
  IF o.k = 0 THEN o.r = "ok" /\ o.same = 1 /\ o.got = (IF RefForm(x) THEN o.cell ELSE o.tok) ELSE o.r = "fault"
VisitViol(o, prop, args) ==
       Chk(o.nc = 1, {prop}, "visitor-called-not-exactly-once")
  \cup Chk(o.nc = 0 \/ CallOk(o.calls[1], o.x, args), {prop}, "visitor-called-with-something-else")
  \cup Chk(Passed(o, o.x), {prop}, "result-or-exception-not-passed-through")
Operand(p, c) == [p |-> p, c |-> c, byval |-> FALSE]
OperandN(p, c) == [p |-> p, c |-> c, byval |-> c >= 2]

\* ------------------------------------------------------------------ get
Poly(x)   == x >= 6
PtrFormG(x) == x % 2 = 0
AskConst(o) == o.w \in 20..29
HitG(L, o, p) ==
  LET isblank == p.t = BlankTag IN
  CASE o.w < 20 -> p.t = TagAt(L, o.w + 1)
    [] o.w < 30 -> p.t = TagAt(L, o.w - 20 + 1)
    [] o.w = 31 -> Poly(o.x) /\ ~isblank
    [] o.w \in {32, 33} -> Poly(o.x) /\ ~isblank /\ p.t % 2 = o.w - 32
    [] o.w >= 40 -> Poly(o.x) /\ ~isblank /\ p.t = TagAt(L, o.w - 40 + 1)
    [] OTHER -> FALSE
GetViol(L, o, p) ==
  LET hit == HitG(L, o, p)
      kq == IF AskConst(o) THEN 1 ELSE 0
      cat == CASE PtrFormG(o.x) -> IF o.c = 1 \/ kq = 1 THEN 1 ELSE 0
               [] o.c = 0 -> kq
               [] o.c = 1 -> 1
               [] OTHER -> IF Poly(o.x) THEN 1 ELSE 2 + kq
      bad == IF Poly(o.x) THEN "bad_polymorphic_get" ELSE "bad_get"
  IN IF o.q = 1 THEN Chk(o.r = "ok" /\ o.ra = 0, {"C08"}, "null-variant-pointer")
     ELSE IF hit
     THEN   Chk(o.r = "ok" /\ o.ra # 0, {"C08"}, "get-of-the-held-type-failed")
       \cup Chk(o.ra = 0 \/ o.ra = o.ea, {"C08"}, "get-designates-another-object")
       \cup Chk(o.ra = 0 \/ o.rc = cat, {"C08"}, "get-result-category")
     ELSE IF PtrFormG(o.x) THEN Chk(o.r = "ok" /\ o.ra = 0, {"C08"}, "get-of-another-type-succeeded")
     ELSE Chk(o.r = bad, {"C08"}, "get-of-another-type-did-not-throw-the-right-exception")

\* ------------------------------------------------------------------ comparison (track.hpp has the same relations)
Eq0(a, b) == (3 * (a + 100) + (b + 100)) % 4 = 0 \/ (a = b /\ (IF a < 0 THEN -a ELSE a) % 3 # 0)
Lt0(a, b) == (2 * (a + 100) + 3 * (b + 100)) % 5 < 2
EqV(p, q) == p.w = q.w /\ (p.t = BlankTag \/ Eq0(p.v, q.v))
LtV(p, q) == p.w < q.w \/ (p.w = q.w /\ p.t # BlankTag /\ Lt0(p.v, q.v))
CmpResult(x, p, q) == CASE x = 0 -> EqV(p, q) [] x = 1 -> ~EqV(p, q) [] x = 2 -> LtV(p, q)
                        [] x = 3 -> LtV(q, p) [] x = 4 -> ~LtV(q, p) [] x = 5 -> ~LtV(p, q)
OpName(x) == CASE x = 0 -> "==" [] x = 1 -> "!=" [] x = 2 -> "<" [] x = 3 -> ">" [] x = 4 -> "<=" [] x = 5 -> ">="
CmpViol(o, p, q) ==
       Chk(o.r = "ok" => (o.b = 1) = CmpResult(o.x, p, q), {"C09"}, "operator" \o OpName(o.x))
  \cup Chk(o.r \in {"ok", "fault"} /\ (o.r = "fault") = Threw(o, 0), {"C09"}, "exception-of-comparison-not-passed-through")

\* ------------------------------------------------------------------ hash: o against earlier hashes in the same scenario
HashViol(o, p, earlier) ==
  IF o.r # "ok" THEN Chk(o.r = "fault" /\ Threw(o, 0), {"C10"}, "exception-of-hash-not-passed-through")
  ELSE   Chk(~Threw(o, 0), {"C10"}, "exception-swallowed")
    \cup Chk(o.hv = o.hb /\ o.hb = o.hs, {"C10"}, "hash-functions-disagree")
    \cup Chk(\A e \in earlier : (e.p.t = p.t /\ e.p.v = p.v) => e.hv = o.hv, {"C10"}, "equal-variants-hash-differently")
    \cup Chk(\A e \in earlier : (e.hv = o.hv /\ (e.p.t = p.t \/ e.p.v = p.v)) => (e.p.t = p.t /\ e.p.v = p.v), {"C10"}, "hash-ignores-alternative-or-value")
\* rows <<kind, which, value, hash>> collected over a whole run of the driver
HashSumViol(o) ==
  LET R == {o.rows[i] : i \in 1..Len(o.rows)} IN
       Chk(Cardinality({<<r[1], r[2], r[3]>> : r \in R}) = Cardinality(R), {"C10"}, "hash-depends-on-history")
  \cup Chk(Cardinality({<<r[1], r[2], r[4]>> : r \in R}) = Cardinality(R), {"C10"}, "hash-ignores-the-value")
  \cup Chk(Cardinality({<<r[1], r[3], r[4]>> : r \in R}) = Cardinality(R), {"C10"}, "hash-ignores-the-alternative")

IoViol(o) ==
       Chk(o.ss = 1, {"C18"}, "other-stream-returned-or-other-exception")
  \cup Chk(o.io[1][1] = o.io[2][1], {"C18"}, "characters-differ-from-streaming-the-content")
  \cup Chk(o.io[1] = o.io[2], {"C18"}, "stream-state-differs-from-streaming-the-content")
  \cup Chk(o.r \in {"ok", "fault"}, {"C18"}, "unexpected-exception")

\* ------------------------------------------------------------------ adaptors
\* the form of the visitor (as for visits) behind each form of delayed visitor
DelayForm(x) == CASE x \in {0, 1, 2} -> 0 [] x = 3 -> 1 [] x = 4 -> 3 [] x = 5 -> 2 [] x \in {6, 7, 8} -> x [] x = 9 -> 4
\* categories: 0 both plain, 1 both const, 2 the second const, 3 the first const
DelaySeq(o, pd, ps) ==
  LET D == Operand(pd, IF o.c \in {1, 3} THEN 1 ELSE 0)  S == Operand(ps, IF o.c \in {1, 2} THEN 1 ELSE 0) IN
  CASE o.w = 0 -> <<<<D>>>> [] o.w = 1 -> <<<<D, S>>>> [] o.w = 2 -> <<<<S>>, <<D>>>> [] o.w = 3 -> <<<<D, S>>, <<S>>, <<D, D>>>> [] OTHER -> <<<<D, S, D>>>>
DelayViol(o, pd, ps) ==
  LET e == DelaySeq(o, pd, ps)  n == IF o.k = 0 THEN Len(e) ELSE 1 IN
       Chk(o.nc = n, {"C19"}, "delayed-visitor-call-count")
  \cup Chk(o.nc # n \/ \A i \in 1..n : CallOk(o.calls[i], DelayForm(o.x), e[i]), {"C19"}, "delayed-visitor-called-something-else")
  \cup Chk(Passed(o, DelayForm(o.x)), {"C19"}, "result-or-exception-not-passed-through")
VptrViol(L, o, p) ==
  LET hit == p.t = TagAt(L, o.w + 1)  a == o.calls[1][3][1] IN
  IF ~hit THEN Chk(o.r = "bad_visit" /\ o.nc = 0, {"C19"}, "visitor_ptr-accepted-another-type")
  ELSE IF o.x = 2 /\ o.k # 0 THEN Chk(o.r \in {"fault", "ok"}, {"C19"}, "visitor_ptr-exception")
  ELSE   Chk(o.nc = 1, {"C19"}, "visitor_ptr-called-not-exactly-once")
    \cup Chk(o.nc # 1 \/ (a[1] = p.t /\ a[4] = p.v /\ (o.x = 2 \/ a[2] = p.a)), {"C19"}, "visitor_ptr-called-with-something-else")
    \cup Chk(IF o.k = 0 THEN o.r = "ok" /\ o.same = 1 /\ o.got = (IF o.x = 4 THEN o.cell ELSE o.tok) ELSE o.r = "fault",
             {"C19"}, "result-or-exception-not-passed-through")

\* ------------------------------------------------------------------ one query
MayMove(o) == o.o \in {"qvis3", "qtri", "qquad"} /\ \E i \in 1..4 : Dig(o.c, i) >= 2
ByValue(o) == o.o = "qvptr" /\ o.x = 2
QueryViol(LL, P, o, Q, earlier) ==
  LET L == LL[o.d]  pd == P[o.d]
      ps == IF o.s = 0 THEN pd ELSE P[o.s]
      pq == IF o.q = 0 \/ o.o = "qget" THEN pd ELSE P[o.q]
      pz == IF o.z = 0 THEN pd ELSE P[o.z]
      pr == {QProp(o.o)}
  IN IF o.r = "skip" THEN {}
     ELSE (IF MayMove(o) THEN {}
           ELSE Chk(\A i \in 1..Len(P) : Unchanged(P[i], Q[i]), pr, "query-changed-a-variant"))
       \cup Chk(MayMove(o) \/ ByValue(o) \/ \A i \in 1..Len(o.ev) : o.ev[i][1] = "x", pr, "query-copies-or-moves-contents")
       \cup UNION {SlotViol(LL[i], Q[i]) : i \in 1..Len(Q)}
       \cup LedgerViol(P, o.ev, Q)
       \cup (CASE o.o = "qvisit" -> VisitViol(o, "C06", <<Operand(pd, o.c)>>)
               [] o.o = "qvis2"  -> VisitViol(o, "C07", <<Operand(pd, Dig(o.c, 1)), Operand(ps, Dig(o.c, 2))>>)
               [] o.o \in {"qvis3", "qtri"} -> VisitViol(o, "C07", <<OperandN(pd, Dig(o.c, 1)), OperandN(ps, Dig(o.c, 2)), OperandN(pq, Dig(o.c, 3))>>)
               [] o.o = "qquad"  -> VisitViol(o, "C07", <<OperandN(pd, 0), OperandN(ps, 0), OperandN(pq, 0), OperandN(pz, Dig(o.c, 4))>>)
               [] o.o = "qvis4"  -> VisitViol(o, "C07", <<Operand(pd, Dig(o.c, 1)), Operand(ps, Dig(o.c, 2)), Operand(pq, Dig(o.c, 3)), Operand(pz, Dig(o.c, 4))>>)
               [] o.o = "qvis5"  -> VisitViol(o, "C07", <<Operand(pd, Dig(o.c, 1)), Operand(ps, Dig(o.c, 2)), Operand(pq, Dig(o.c, 3)), Operand(pz, Dig(o.c, 4)), Operand(pd, Dig(o.c, 5))>>)
               [] o.o = "qget"   -> GetViol(L, o, pd)
               [] o.o = "qcmp"   -> CmpViol(o, pd, ps)
               [] o.o = "qhash"  -> HashViol(o, pd, earlier)
               [] o.o = "qio"    -> IoViol(o)
               [] o.o = "qdelay" -> DelayViol(o, pd, ps)
               [] o.o = "qvptr"  -> VptrViol(L, o, pd)
               [] OTHER -> {<<"C00", "unknown-query">>})

\* ------------------------------------------------------------------ which queries to make
\* alive: live slots; nv: slots up to nv are of the first kind
Qr(n, d, s, w, x, c, k, q, z) == <<n, d, s, w, x, c, k, q, z>>
QueryOps(names, LL, alive, nv) ==
  LET same(i, j) == (i <= nv) = (j <= nv)
      one == {d \in alive : TRUE}
      two == {<<i, j>> \in alive \X alive : same(i, j)}
      tri == {<<i, j, m>> \in alive \X alive \X alive : same(i, j) /\ same(j, m)}
      quad == {t \in tri \X alive : same(t[1][1], t[2])}
      alts(d) == 0..(LL[d].n - 1)
      W(n, S) == IF n \in names THEN S ELSE {}
  IN     W("qvisit", {Qr("qvisit", d, 0, 0, x, c, k, 0, 0) : d \in one, x \in 0..11, c \in 0..3, k \in {0, 1}})
    \cup W("qvis2",  {Qr("qvis2", p[1], p[2], 0, x, 0, k, 0, 0) : p \in alive \X alive, x \in 0..9, k \in {0, 1}}
                \cup {Qr("qvis2", p[1], p[2], 0, x, c, 0, 0, 0) : p \in alive \X alive, x \in {1, 3, 5}, c \in 1..15})
    \cup W("qvis3",  {Qr("qvis3", p[1], p[2], 0, x, 0, k, p[3], 0) : p \in tri, x \in 0..9, k \in {0, 1}}
                \cup {Qr("qvis3", p[1], p[2], 0, x, c, 0, p[3], 0) : p \in tri, x \in {1, 3, 5}, c \in {21, 4, 17}}
                \cup {Qr("qvis3", p[1], p[2], 0, x, 8, 0, p[3], 0) : p \in {t \in tri : t[2] # t[1] /\ t[2] # t[3]}, x \in {1, 3, 5}}
                \cup {Qr("qvis3", p[1], p[2], 0, x, 18, 0, p[3], 0) : p \in {t \in tri : t[1] # t[2] /\ t[1] # t[3]}, x \in {1, 3, 5}})
    \cup W("qvis3",  {Qr("qvis3", p[1], p[2], 0, x, c, 0, p[3], 0) : p \in (alive \X alive \X alive) \ tri, x \in {1, 3, 5}, c \in {0, 17}})
    \* operands in every mixture of categories with an rvalue among them, which is then no other operand too
    \cup W("qtri",   UNION {{Qr("qtri", p[1], p[2], 0, x, c[1] + 4 * c[2] + 16 * c[3], 0, p[3], 0) :
                       x \in {1, 5, 6},
                       p \in {t \in alive \X alive \X alive : t[1] <= nv /\ t[3] <= nv /\ \A i \in 1..3, j \in 1..3 : c[i] = 2 /\ i # j => t[i] # t[j]}} :
                       c \in {y \in (0..2) \X (0..2) \X (0..2) : 2 \in {y[1], y[2], y[3]}}})
    \cup W("qquad",  {Qr("qquad", t[1][1], t[1][2], 0, x, 128, 0, t[1][3], t[2]) : t \in {u \in quad : u[1][1] <= nv /\ u[2] \notin {u[1][1], u[1][2], u[1][3]}}, x \in {1, 5, 6}})
    \cup W("qvis4",  {Qr("qvis4", t[1][1], t[1][2], 0, x, 64, k, t[1][3], t[2]) : t \in quad, x \in {1, 3, 5}, k \in {0, 1}}
                \cup {Qr("qvis4", t[1][1], t[1][2], 0, x, c, 0, t[1][3], t[2]) : t \in quad, x \in {1, 5}, c \in {0, 17, 68}})
    \cup W("qvis5",  {Qr("qvis5", t[1][1], t[1][2], 0, x, 260, k, t[1][3], t[2]) : t \in quad, x \in {1, 5}, k \in {0, 1}})
    \cup W("qget", UNION {
             {Qr("qget", d, 0, w + b, x, c, 0, q, 0) : w \in alts(d), b \in {0, 20}, x \in {0, 2, 4, 6, 8, 10}, c \in {0, 1}, q \in {0, 1}}
        \cup {Qr("qget", d, 0, w + b, x, c, 0, 0, 0) : w \in alts(d), b \in {0, 20}, x \in {1, 3, 5, 7, 9, 11}, c \in {0, 1, 2}}
        \cup {Qr("qget", d, 0, w, x, c, 0, q, 0) : w \in {30, 31, 32, 33, 34} \cup {40 + i : i \in alts(d)}, x \in {4, 6}, c \in {0, 1}, q \in {0, 1}}
        \cup {Qr("qget", d, 0, w, x, c, 0, 0, 0) : w \in {30, 31, 32, 33, 34} \cup {40 + i : i \in alts(d)}, x \in {5, 7}, c \in {0, 1, 2}}
           : d \in one})
    \cup W("qcmp",  {Qr("qcmp", p[1], p[2], 0, x, 0, k, 0, 0) : p \in two, x \in 0..5, k \in {0, 1}})
    \cup W("qhash", {Qr("qhash", d, 0, 0, 0, 0, k, 0, 0) : d \in one, k \in {0, 1, 2}})
    \cup W("qio",   {Qr("qio", d, 0, w, x, 0, k, 0, 0) : d \in one, w \in {0, 1}, x \in 0..15, k \in {0, 1, 2}})
    \cup W("qdelay", {Qr("qdelay", p[1], p[2], w, x, c, k, 0, 0) : p \in two, w \in 0..3, x \in 0..2, c \in 0..2, k \in {0, 1}}
                \cup {Qr("qdelay", p[1], p[2], w, x, c, k, 0, 0) : p \in two, w \in {0, 1}, x \in 3..9, c \in {0, 3}, k \in {0, 1}}
                \cup {Qr("qdelay", p[1], p[2], 4, x, 2, k, 0, 0) : p \in two, x \in {0, 2}, k \in {0, 1}}
                \cup {Qr("qdelay", p[1], p[2], w, x, c, 0, 0, 0) : p \in (alive \X alive) \ two, w \in {0, 1}, x \in {0, 7}, c \in {0, 3}})
    \cup W("qvptr", UNION {{Qr("qvptr", d, 0, w, x, c, k, 0, 0) : w \in alts(d), x \in 0..4, c \in {0, 1}, k \in {0, 1}} : d \in one})
===============================================================================
