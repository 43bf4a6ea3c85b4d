-------------------------------- MODULE Layout --------------------------------
(* Where the content of a variant lies.  Alternatives are blobs <<size, align,   *)
(* kind>>, size a multiple of align, every byte belonging to the value; kind 0:  *)
(* nothing throws; 1: copy, move and assignment throw; 2: the same, but nothrow  *)
(* default constructible.  A state is [w: alternative, v: value of every byte,   *)
(* inl: the content lies inside the variant].                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

HasFallback(l) == \E j \in DOMAIN l : l[j][3] = 2
Fallback(l) == CHOOSE j \in DOMAIN l : l[j][3] = 2 /\ \A i \in DOMAIN l : l[i][3] = 2 => j <= i
Quiet(l, j) == l[j][3] = 0                                   \* storing this alternative cannot fail

\* one call: f in {ctor, vas (value), cas (variant, copy), mas (variant, move), swap}; j the incoming alternative, x its value
After(l, s, f, j, x, ok) ==
  IF ok THEN {[w |-> j, v |-> x, inl |-> i] : i \in IF s.inl = 0 /\ (j = s.w \/ f = "swap") THEN {0, 1} ELSE {1}}
  ELSE (IF ~HasFallback(l) \/ j = s.w THEN {[w |-> s.w, v |-> s.v, inl |-> i] : i \in IF HasFallback(l) \/ (j = s.w /\ s.inl = 1) THEN {1} ELSE {0, 1}} ELSE {})
       \cup (IF HasFallback(l) /\ j # s.w THEN {[w |-> s.w, v |-> s.v, inl |-> 1], [w |-> Fallback(l), v |-> 0, inl |-> 1]} ELSE {})
MayFail(l, s, f, j) == ~Quiet(l, j) \/ (f = "swap" /\ ~Quiet(l, s.w)) \/ (~HasFallback(l) /\ j # s.w /\ ~Quiet(l, j))
\* no allocation is needed
NoHeap(l, s, f, j) == HasFallback(l) \/ (Quiet(l, j) /\ (f = "swap" => Quiet(l, s.w)))
===============================================================================
