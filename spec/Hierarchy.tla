------------------------------- MODULE Hierarchy -------------------------------
(* get and polymorphic_get on variants whose alternatives are related by         *)
(* inheritance, const-qualified or held through recursive_wrapper.               *)
(* An alternative is <<class, const, wrapped>>; a query is                       *)
(* [fn: function, op: operand, u: class asked for, uc: asked for as const].      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* B : A;  E : B;  C : Z, A (A not at offset 0);  D : virtual A;  Q : P (P has virtual functions);  U unrelated
Classes == {"A", "B", "C", "D", "E", "P", "Q", "U", "Z"}
Super(t) == CASE t = "B" -> {"A"} [] t = "E" -> {"B", "A"} [] t = "C" -> {"Z", "A"} [] t = "D" -> {"A"} [] t = "Q" -> {"P"} [] OTHER -> {}
Is(u, t) == u = t \/ u \in Super(t)

Plain(t) == <<t, FALSE, FALSE>>
Wrap(t)  == <<t, FALSE, TRUE>>
Cst(t)   == <<t, TRUE, FALSE>>
Alts == {Plain(t) : t \in {"A", "B", "C", "D", "E", "Q", "U"}} \cup {Wrap("B"), Wrap("E"), Cst("B"), Cst("A")}
Lists == {<<a, b>> \in Alts \X Alts : a[1] # b[1]}
         \cup {<<Plain("E"), Plain("B"), Plain("A")>>, <<Plain("A"), Plain("B"), Plain("E")>>, <<Plain("P"), Plain("U"), Plain("Q")>>,
               <<Plain("U"), Wrap("D"), Plain("A"), Cst("E")>>, <<Wrap("C"), Plain("Z"), Plain("B")>>}

Fns == {"get", "strict_get", "relaxed_get", "polymorphic_get", "polymorphic_strict_get", "polymorphic_relaxed_get"}
Poly(fn) == fn \in {"polymorphic_get", "polymorphic_strict_get", "polymorphic_relaxed_get"}
Relaxed(fn) == fn \in {"relaxed_get", "polymorphic_relaxed_get"}
Ptr(op) == op \in {"ptr", "cptr", "null", "cnull"}
ConstOp(op) == op \in {"cptr", "clv", "cnull"}
Ops(fn) == IF Poly(fn) THEN {"ptr", "cptr", "null", "cnull", "lv", "clv"} ELSE {"ptr", "cptr", "null", "cnull", "lv", "clv", "rv"}

Match(fn, u, a) == IF Poly(fn) THEN Is(u, a[1]) ELSE u = a[1]
\* asking for T where only const T could be delivered: not specified on const variants (see DESIGN), fails on others
Queries(l) == {q \in [fn : Fns, op : {"ptr", "cptr", "null", "cnull", "lv", "clv", "rv"}, u : Classes, uc : BOOLEAN] :
                 /\ q.op \in Ops(q.fn)
                 /\ (q.op \in {"null", "cnull"} => q.u \in {"A", "B"})
                 /\ (q.uc => q.u \in {"A", "B", "P"})
                 /\ (~q.uc /\ ConstOp(q.op)) => \A j \in DOMAIN l : l[j][2] => ~Match(q.fn, q.u, l[j])
                 /\ (Relaxed(q.fn) \/ \E j \in DOMAIN l : Match(q.fn, q.u, l[j]) /\ (q.uc \/ ~l[j][2]))}
Hit(a, q) == q.op \notin {"null", "cnull"} /\ Match(q.fn, q.u, a) /\ (q.uc \/ ~a[2])
Failure(q) == IF Ptr(q.op) THEN "null" ELSE IF Poly(q.fn) THEN "bad_polymorphic_get" ELSE "bad_get"
\* category of the result: 0 T&/T*, 1 const, 2 T&&, 3 const T&&
Cat(a, q) == LET k == q.uc \/ ConstOp(q.op) \/ a[2] IN IF q.op = "rv" THEN (IF k THEN 3 ELSE 2) ELSE (IF k THEN 1 ELSE 0)
===============================================================================
