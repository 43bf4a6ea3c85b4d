---------------------------- MODULE SubstituteGen ----------------------------
EXTENDS Substitute, Json
VARIABLES t, done
Init == t \in Terms /\ done = FALSE
Next == ~done /\ done' = TRUE /\ t' = t /\ PrintT("TRM " \o ToJson(t))
Spec == Init /\ [][Next]_<<t, done>>
\* substitution removes every placeholder and changes nothing else
NoneLeft == ~Mentions(Subst(t))
Untouched == ~Mentions(t) => Subst(t) = t
===============================================================================
