------------------------------ MODULE Substitute ------------------------------
(* make_recursive_variant: in the bounded types the placeholder stands for the   *)
(* variant type itself, wherever it occurs.  Types are terms: <<"rec">>,         *)
(* <<"int">>, <<"ptr", t>>, <<"cptr", t>> (pointer to const), <<"vec", t>>,      *)
(* <<"pair", t, u>>, <<"tup", t, u, v>>, <<"fn0", r>>, <<"fn1", r, a>>,          *)
(* <<"fn3", r, a, b, c>> (pointers to functions), in signatures <<"ref", t>> and  *)
(* <<"cref", t>> (reference to const).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Subst(_)
Subst(t) == IF t = <<"rec">> THEN <<"V">>
            ELSE [j \in DOMAIN t |-> IF j = 1 THEN t[1] ELSE Subst(t[j])]
RECURSIVE Mentions(_)
Mentions(t) == t = <<"rec">> \/ \E j \in DOMAIN t \ {1} : Mentions(t[j])
Pointer(t) == t[1] \in {"ptr", "cptr", "fn0", "fn1", "fn3"}
L0 == {<<"rec">>, <<"int">>}
\* below a const qualification only the placeholder itself and data pointers are looked into
Unary(S) == {<<c, t>> : c \in {"ptr", "vec", "fn0"}, t \in S} \cup {<<"cptr", t>> : t \in {x \in S : x[1] \in {"rec", "int", "ptr", "cptr"}}}
L1 == Unary(L0) \cup {<<"pair", t, u>> : t \in L0, u \in L0} \cup {<<"fn1", t, u>> : t \in L0, u \in L0} \cup {<<"fn3", r, a, b, c>> : r \in L0, a \in L0, b \in L0, c \in L0}
      \cup {<<"tup", t, u, v>> : t \in L0, u \in L0, v \in L0}
L2 == Unary(L1) \cup {<<"pair", t, u>> : t \in L1, u \in L0} \cup {<<"pair", u, t>> : t \in L1, u \in L0} \cup {<<"fn1", t, u>> : t \in L1, u \in L0}
      \cup {<<"fn1", u, t>> : t \in L1, u \in L0} \cup {<<"tup", <<"int">>, t, <<"rec">>>> : t \in L1}
\* references in signatures
Refs == {<<r, t>> : r \in {"ref", "cref"}, t \in L0 \cup {<<"ptr", <<"rec">>>>}}
L3 == {<<"fn1", t, u>> : t \in L0, u \in Refs} \cup {<<"fn0", u>> : u \in Refs} \cup {<<"fn3", u, <<"int">>, v, <<"rec">>>> : u \in Refs, v \in Refs}
Terms == L1 \cup L2 \cup L3
===============================================================================
