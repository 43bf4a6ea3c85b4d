----------------------------- MODULE RefVariant -----------------------------
(* Variants with reference alternatives: abstract state, operations and what    *)
(* must be observable after each of them.                                       *)
(* Objects 1..NO are the caller's; 1, 2 and 4 have type 1 (4 is the base part   *)
(* of a derived object), 3 has type 2.  Slots are variables of variant type;    *)
(* the content of slot j, when held by value, is itself an object, numbered     *)
(* 10 + j, that other variants may refer to.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NO == 4
TypeOf(ob) == IF ob = 3 THEN 2 ELSE 1
A(t, r, c) == [t |-> t, ref |-> r, con |-> c]
\* the variant types: reference, const reference and value alternatives
Kind == << << A(1, TRUE, FALSE), A(2, TRUE, FALSE) >>,                \* 1 variant<T1&, T2&>
           << A(2, TRUE, FALSE), A(1, TRUE, FALSE) >>,                \* 2 variant<T2&, T1&>
           << A(1, TRUE, TRUE), A(2, TRUE, FALSE) >>,                 \* 3 variant<const T1&, T2&>
           << A(1, TRUE, FALSE), A(2, FALSE, FALSE) >>,               \* 4 variant<T1&, T2>
           << A(1, FALSE, FALSE), A(2, FALSE, FALSE) >>,              \* 5 variant<T1, T2>
           << A(2, TRUE, TRUE), A(1, TRUE, TRUE) >>,                  \* 6 variant<const T2&, const T1&>
           << A(1, TRUE, FALSE) >> >>                                 \* 7 variant<T1&>
NK == Len(Kind)
Alt(k, t) == IF \E w \in 1..Len(Kind[k]) : Kind[k][w].t = t THEN CHOOSE w \in 1..Len(Kind[k]) : Kind[k][w].t = t ELSE 0
\* can an object of type t, const or not, become the content of kind k
Takes(k, t, con) == LET w == Alt(k, t) IN w # 0 /\ (~Kind[k][w].ref \/ Kind[k][w].con \/ ~con)
\* the content of alternative a of a variant reached as const variant (c = 1) or not: const?
SeenConst(a, c) == IF a.ref THEN a.con ELSE c = 1
\* the conversion from kind ks to kind kd is well formed (every alternative of the source is taken)
CanConv(ks, kd, c) == ks # kd /\ \A w \in 1..Len(Kind[ks]) : LET a == Kind[ks][w] IN Takes(kd, a.t, SeenConst(a, c))

\* state: vals: values of the caller's objects; slot: sequence of slots, [k, w, r, v]: kind (0: no variant), alternative,
\* referred object (own content: 10 + j), value if held by value
Empty == [k |-> 0, w |-> 0, r |-> 0, v |-> 0]
ValOf(S, ob) == IF ob < 10 THEN S.vals[ob] ELSE S.slot[ob - 10].v
SetVal(S, ob, x) == IF ob < 10 THEN [S EXCEPT !.vals[ob] = x] ELSE [S EXCEPT !.slot[ob - 10].v = x]
TypeAt(S, j) == Kind[S.slot[j].k][S.slot[j].w].t
\* new content of slot d of kind k, of type t, designating or copying object ob
Hold(S, d, k, t, ob) ==
  LET w == Alt(k, t) IN
  [S EXCEPT !.slot[d] = IF Kind[k][w].ref THEN [k |-> k, w |-> w, r |-> ob, v |-> 0] ELSE [k |-> k, w |-> w, r |-> 10 + d, v |-> ValOf(S, ob)]]
ReferredTo(S, j) == \E m \in DOMAIN S.slot : m # j /\ S.slot[m].k # 0 /\ S.slot[m].r = 10 + j

Op(o, d, s, k, c, x) == [o |-> o, d |-> d, s |-> s, k |-> k, c |-> c, x |-> x]
Enabled(S, o) ==
  LET live(j) == j \in DOMAIN S.slot /\ S.slot[j].k # 0 IN
  CASE o.o = "mk" -> ~live(o.d) /\ Takes(o.k, TypeOf(o.s), o.c = 1)
    [] o.o = "cp" -> ~live(o.d) /\ live(o.s)
    [] o.o = "cv" -> ~live(o.d) /\ live(o.s) /\ CanConv(S.slot[o.s].k, o.k, o.c)
    [] o.o = "av" -> live(o.d) /\ live(o.s) /\ o.d # o.s /\ S.slot[o.d].k = 5 /\ S.slot[o.s].k # 5 /\ CanConv(S.slot[o.s].k, 5, o.c) /\ ~ReferredTo(S, o.d)
    [] o.o = "dt" -> live(o.d) /\ ~ReferredTo(S, o.d)
    [] o.o = "wr" -> live(o.d) /\ ~Kind[S.slot[o.d].k][S.slot[o.d].w].con
    [] o.o = "wo" -> o.d \in 1..NO
    [] OTHER -> FALSE
\* the state after the operation
Apply(S, o) ==
  LET src == S.slot[o.s] IN
  CASE o.o = "mk" -> Hold(S, o.d, o.k, TypeOf(o.s), o.s)
    [] o.o = "cp" -> LET S1 == Hold(S, o.d, src.k, TypeAt(S, o.s), src.r) IN
                     IF o.c = 2 /\ ~Kind[src.k][src.w].ref THEN SetVal(S1, src.r, -1) ELSE S1      \* a moved-from value
    [] o.o = "cv" -> Hold(S, o.d, o.k, TypeAt(S, o.s), src.r)
    [] o.o = "av" -> Hold(S, o.d, 5, TypeAt(S, o.s), src.r)
    [] o.o = "dt" -> [S EXCEPT !.slot[o.d] = Empty]
    [] o.o = "wr" -> SetVal(S, S.slot[o.d].r, o.x)
    [] o.o = "wo" -> [S EXCEPT !.vals[o.d] = o.x]
    [] OTHER -> S
\* objects that may be read (copied from) by the operation
MayRead(S, o) ==
  CASE o.o = "mk" -> IF Kind[o.k][Alt(o.k, TypeOf(o.s))].ref THEN {} ELSE {o.s}
    [] o.o = "cp" -> IF Kind[S.slot[o.s].k][S.slot[o.s].w].ref THEN {} ELSE {10 + o.s}
    [] o.o \in {"cv", "av"} -> LET k == IF o.o = "av" THEN 5 ELSE o.k IN
                               IF Kind[k][Alt(k, TypeAt(S, o.s))].ref THEN {} ELSE {S.slot[o.s].r}
    [] OTHER -> {}
\* the operation works on references only: no element may be constructed, copied, assigned or destroyed by it
RefOnly(S, o) ==
  CASE o.o = "mk" -> Kind[o.k][Alt(o.k, TypeOf(o.s))].ref
    [] o.o = "cp" -> Kind[S.slot[o.s].k][S.slot[o.s].w].ref
    [] o.o = "cv" -> Kind[o.k][Alt(o.k, TypeAt(S, o.s))].ref
    [] o.o = "dt" -> Kind[S.slot[o.d].k][S.slot[o.d].w].ref
    [] o.o \in {"wr", "wo"} -> TRUE
    [] OTHER -> FALSE
RefInit(n) == [vals |-> [o \in 1..NO |-> 100 + o], slot |-> [j \in 1..n |-> Empty]]
==============================================================================
