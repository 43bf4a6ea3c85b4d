-------------------------------- MODULE Wrapper --------------------------------
(* recursive_wrapper<T> by itself: a value of type T held on the heap.  A wrapper   *)
(* always owns exactly one T of its own.  State: slots <<l, v>> (l live, v value,   *)
(* UNSPEC after a move).  Calls [o, d, s, x]; outcome "ok" or "fault".              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
UNSPEC == -1
Ctors == {"dctor", "cvctor", "mvctor", "cctor", "mctor"}
Assigns == {"cas", "mas", "cvas", "mvas"}
Swaps == {"mswap", "fswap"}
Moves == {"mctor", "mas"}
NoFail == Swaps \cup {"mas", "dtor"}              \* never throw, whatever T does
\* states allowed after call c with outcome r; P[i] = [l, v]
After(P, c, r) ==
  LET d == c.d  s == c.s
      set(i, x) == [P EXCEPT ![i] = [l |-> 1, v |-> x]]
      any(Q, i) == {[Q EXCEPT ![i] = [l |-> 1, v |-> y]] : y \in {UNSPEC, P[i].v}}
  IN IF r = "fault"
     THEN CASE c.o \in NoFail -> {}
            [] c.o \in Ctors -> IF c.o = "mctor" THEN any(P, s) ELSE {P}
            [] OTHER -> any(P, d)
     ELSE CASE c.o = "dctor" -> {set(d, 0)}
            [] c.o \in {"cvctor", "mvctor", "cvas", "mvas"} -> {set(d, c.x)}
            [] c.o \in {"cctor", "cas"} -> {set(d, P[s].v)}
            [] c.o = "mctor" -> {[Q EXCEPT ![d] = [l |-> 1, v |-> P[s].v]] : Q \in any(P, s)}
            [] c.o = "mas" -> IF s = d THEN any(P, d) ELSE {[Q EXCEPT ![d] = [l |-> 1, v |-> P[s].v]] : Q \in {[P EXCEPT ![s] = [l |-> 1, v |-> y]] : y \in {UNSPEC, P[s].v, P[d].v}}}
            [] c.o \in Swaps -> {[P EXCEPT ![d] = P[s], ![s] = P[d]]}
            [] c.o = "dtor" -> {[P EXCEPT ![d] = [l |-> 0, v |-> 0]]}
Enabled(P, c) == IF c.o \in Ctors THEN P[c.d].l = 0 /\ (c.o \in {"cctor", "mctor"} => P[c.s].l = 1)
                 ELSE P[c.d].l = 1 /\ (c.o \in {"cas", "mas"} \cup Swaps => P[c.s].l = 1)
Uses(o) == o \in {"cctor", "mctor", "cas", "mas"} \cup Swaps
================================================================================
