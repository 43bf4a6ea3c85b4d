------------------------------ MODULE WrapperTrace ------------------------------
(* Step: o d s x the call, r outcome, k injected fault point, st the slots after:    *)
(* <<l, p, v, g>> (p address of the owned object, g it is a live object and get() and *)
(* get_pointer() agree), ev <<kind, tag>> of each element event, out blocks, nf: the  *)
(* number of live element objects.                                                    *)
EXTENDS Wrapper, Json, IOUtils, SequencesExt
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
vars == <<sc, i>>
Init == sc \in 1..Len(Tr) /\ i = 0
Next == i < Len(Tr[sc].steps) /\ i' = i + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Chk(c, n) == IF c THEN {} ELSE {<<"C12", n>>}
Abs(st) == [j \in 1..Len(st) |-> [l |-> st[j][1], v |-> IF st[j][1] = 1 THEN st[j][3] ELSE 0]]
Prev(n) == IF n = 1 THEN [j \in 1..Len(Tr[sc].steps[1].st) |-> [l |-> 0, v |-> 0]] ELSE Abs(Tr[sc].steps[n - 1].st)
\* the element types mark a moved-from value as UNSPEC themselves
Viol ==
  IF i = 0 THEN {}
  ELSE LET o == Tr[sc].steps[i] IN
       CASE o.o = "crash" -> {<<"C12", "crash-" \o o.why>>}
         [] OTHER ->
              LET P == Prev(i)  Q == Abs(o.st)  c == [o |-> o.o, d |-> o.d, s |-> o.s, x |-> o.x]
                  live == {j \in 1..Len(o.st) : o.st[j][1] = 1} IN
                   Chk(o.r \in {"ok", "fault"}, "other-exception")
              \cup Chk(o.r # "ok" \/ o.k = 0 \/ o.nx = 0, "exception-swallowed")
              \cup Chk(o.r # "fault" \/ o.nx > 0, "exception-from-nowhere")
              \cup Chk(o.r \notin {"ok", "fault"} \/ Q \in After(P, c, o.r), "wrapper-" \o o.o \o "-" \o o.r)
              \cup Chk(\A j \in live : o.st[j][2] # 0 /\ o.st[j][4] = 1, "wrapper-owns-no-live-object")
              \cup Chk(\A j \in live : \A m \in live : j = m \/ o.st[j][2] # o.st[m][2], "wrappers-share-an-object")
              \cup Chk(o.nf = Cardinality(live) /\ o.out = Cardinality(live), "objects-or-blocks-leaked-or-lost")
              \cup Chk(o.o \notin Swaps \/ (o.ne = 0 /\ o.na = 0), "swap-touches-the-contents")
NoViolation ==
  LET v == {x \in Viol : PROP = "ALL" \/ x[1] = PROP \/ x[1] = "C00"} IN
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([line |-> sc, step |-> i, cfg |-> Tr[sc].cfg, id |-> Tr[sc].id, k |-> Tr[sc].k, what |-> SetToSeq(v)])) /\ FALSE
=================================================================================
