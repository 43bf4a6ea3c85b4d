--------------------------- MODULE FunctionVisitorGen ---------------------------
(* Two variables; visits with functions in every content, between assignments.     *)
EXTENDS FunctionVisitor, Json
VARIABLES c, called, last
vars == <<c, called, last>>
Init == c \in Contents /\ called = 0 /\ last = "none"
Visit(q) == /\ called' = Outcome(c, q).n /\ last' = Outcome(c, q).r /\ c' = c
            /\ PrintT("FNV " \o ToJson([c |-> c, q |-> q]))
Next == last = "none" /\ \E q \in Calls : Visit(q)
Spec == Init /\ [][Next]_vars
\* a function is called at most once, and never together with bad_visit
Exclusive == (last = "bad_visit" => called = 0) /\ (last \in {"ok", "fault"} => called = 1)
Reachable == c \in Asked
=================================================================================
