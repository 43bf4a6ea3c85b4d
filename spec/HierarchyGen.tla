----------------------------- MODULE HierarchyGen -----------------------------
(* A variant over a list is assigned each alternative in turn; all queries are made in every state. *)
EXTENDS Hierarchy, Json, SequencesExt
VARIABLES list, cur
vars == <<list, cur>>
Init == list \in Lists /\ cur = 1 /\ PrintT("LST " \o ToJson([l |-> list, q |-> SetToSeq(Queries(list))]))
Next == cur < Len(list) /\ cur' = cur + 1 /\ UNCHANGED list
Spec == Init /\ [][Next]_vars
Strictly(q) == IF Poly(q.fn) THEN "polymorphic_relaxed_get" ELSE "relaxed_get"
\* whatever the exact form finds the polymorphic one finds; strict and relaxed forms agree; a hit can be made visible by asking for const
Consistent == \A q \in Queries(list) :
   /\ Hit(list[cur], q) => Hit(list[cur], [q EXCEPT !.fn = "polymorphic_relaxed_get"])
   /\ Hit(list[cur], q) = Hit(list[cur], [q EXCEPT !.fn = Strictly(q)])
   /\ Hit(list[cur], q) => Hit(list[cur], [q EXCEPT !.uc = TRUE])
\* exactly one alternative answers an exact query for a class of the list
OnlyOne == \A q \in Queries(list) : ~Poly(q.fn) => Cardinality({j \in DOMAIN list : Hit(list[j], q)}) <= 1
===============================================================================
