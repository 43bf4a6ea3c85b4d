---------------------------- MODULE RefVariantGen ----------------------------
(* Exhaustive exploration of RefVariant over NS slots; prints, for every         *)
(* distinct shape and every operation enabled in it, the shortest history that   *)
(* ends with it (SCN), and the well-formed conversions (CONV).                   *)
EXTENDS RefVariant, Json, SequencesExt
CONSTANTS NS, KINDS
VARIABLES S, hist
vars == <<S, hist>>
Ops == {Op("mk", d, ob, k, c, 0) : d \in 1..NS, ob \in 1..NO, k \in KINDS, c \in {0, 1}}
  \cup {Op("cp", d, s, 0, c, 0) : d \in 1..NS, s \in 1..NS, c \in {0, 1, 2}}
  \cup {Op("cv", d, s, k, c, 0) : d \in 1..NS, s \in 1..NS, k \in KINDS, c \in {0, 1}}
  \cup {Op("av", d, s, 0, c, 0) : d \in 1..NS, s \in 1..NS, c \in {0, 1}}
  \cup {Op("dt", d, 0, 0, 0, 0) : d \in 1..NS}
  \cup {Op("wr", d, 0, 0, c, 1) : d \in 1..NS, c \in 0..3}
  \cup {Op("wo", d, 0, 0, 0, 1) : d \in 1..NO}
Init == /\ S = RefInit(NS) /\ hist = <<>>
        /\ PrintT("CONV " \o ToJson(SetToSeq({<<a, b, c>> \in (1..NK) \X (1..NK) \X {0, 1} : CanConv(a, b, c)})))
\* values are irrelevant to what is enabled: they are collapsed
Norm(T) == [T EXCEPT !.vals = [o \in 1..NO |-> 0], !.slot = [j \in 1..NS |-> [T.slot[j] EXCEPT !.v = 0]]]
Next == \E o \in Ops : /\ Enabled(S, o)
                       /\ PrintT("SCN " \o ToJson(Append(hist, o)))
                       /\ S' = Norm(Apply(S, o))
                       /\ hist' = IF o.o \in {"wr", "wo"} THEN hist ELSE Append(hist, o)
Spec == Init /\ [][Next]_vars
View == S
\* a reference alternative always designates an object that exists
RefsValid == \A j \in 1..NS : S.slot[j].k # 0 =>
  LET r == S.slot[j].r IN r \in 1..NO \/ (r - 10 \in 1..NS /\ S.slot[r - 10].k # 0 /\ ~Kind[S.slot[r - 10].k][S.slot[r - 10].w].ref)
\* a reference never has the wrong type
RefsTyped == \A j \in 1..NS : S.slot[j].k # 0 /\ S.slot[j].r \in 1..NO => TypeAt(S, j) = TypeOf(S.slot[j].r)
==============================================================================
