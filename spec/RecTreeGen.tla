------------------------------ MODULE RecTreeGen ------------------------------
(* Exhaustive exploration: two variables holding trees of type TY with at most   *)
(* MAXD levels, MAXW children and MAXN nodes, and every operation in every       *)
(* state. Prints (state, operation) pairs.                                       *)
EXTENDS RecTree, Json, SequencesExt
CONSTANTS TYPES, MAXD, MAXW, MAXN
VARIABLES ty, S
vars == <<ty, S>>
Init == ty \in TYPES /\ S = << Leaf(ty, 1), NoTree >>
AnyPath == UNION {Paths(S[j]) : j \in {m \in 1..2 : S[m] # NoTree}}
Ops == {Op(n, d, s, <<>>, 0, c, 0) : n \in {"cp", "as"}, d \in 1..2, s \in 1..2, c \in 0..2}
  \cup {Op("sw", d, s, <<>>, 0, c, 0) : d \in 1..2, s \in 1..2, c \in {0, 1}}
  \cup {Op(n, d, s, p, 0, c, 0) : n \in {"gr", "ex", "ec", "ps"}, d \in 1..2, s \in 1..2, p \in AnyPath, c \in {0, 2}}
  \cup {Op(n, d, 0, p, 0, c, 1) : n \in {"mu", "lf"}, d \in 1..2, p \in AnyPath, c \in {0, 2}}
  \cup {Op("wn", d, s, <<>>, a, c, 1) : d \in 1..2, s \in 1..2, a \in 1..3, c \in {0, 2}}
  \cup {Op("dt", d, 0, <<>>, 0, 0, 0) : d \in 1..2}
RECURSIVE Wide(_)
Wide(T) == Len(Ch(T)) <= MAXW /\ \A j \in DOMAIN Ch(T) : Wide(Ch(T)[j])
Small(T) == T = NoTree \/ (Depth(T) <= MAXD /\ Wide(T) /\ Size(T) <= MAXN)
Norm(T) == T
Next == \E o \in Ops :
          /\ Enabled(ty, S, o)
          /\ PrintT("SCN " \o ToJson([t |-> ty, s |-> S, o |-> o]))
          /\ LET R == Apply(ty, S, o) IN (\A j \in 1..2 : Small(R[j])) /\ S' = R /\ ty' = ty
Spec == Init /\ [][Next]_vars
AllComplete == \A j \in 1..2 : S[j] # NoTree => Complete(ty, S[j])
==============================================================================
