-------------------------- MODULE FunctionVisitorTrace --------------------------
(* Step: c content, t p r v th the call; nc number of calls of the function, va its *)
(* argument's value was the content's, ad it was the content object, res outcome,    *)
(* back the result arrived unchanged, w content still the same afterwards.           *)
EXTENDS FunctionVisitor, Json, IOUtils, SequencesExt
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
vars == <<sc, i>>
Init == sc \in 1..Len(Tr) /\ i = 0
Next == i < Len(Tr[sc].steps) /\ i' = i + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Chk(c, n) == IF c THEN {} ELSE {<<"C19", n>>}
Viol ==
  IF i = 0 THEN {}
  ELSE LET o == Tr[sc].steps[i] IN
       CASE o.o = "fnv" ->
              LET e == Outcome(o.c, [t |-> o.t, p |-> o.p, r |-> o.r, v |-> o.v, th |-> o.th]) IN
                   Chk(o.nc = e.n, IF e.n = 0 THEN "function-over-another-type-called" ELSE "function-not-called-exactly-once")
              \cup Chk(o.res = e.r, "outcome-differs")
              \cup Chk(o.nc = 0 \/ o.va = 1, "argument-has-another-value")
              \cup Chk(o.nc = 0 \/ o.p = "val" \/ o.ad = 1, "argument-is-not-the-content")
              \cup Chk(o.res # "ok" \/ o.back = 1, "result-not-passed-through")
              \cup Chk(o.w = 1, "variant-changed")
         [] o.o = "crash" -> {<<"C19", "crash-" \o o.why>>}
         [] OTHER -> {<<"C00", "unknown-step">>}
NoViolation ==
  LET v == {x \in Viol : PROP = "ALL" \/ x[1] = PROP \/ x[1] = "C00"} IN
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([line |-> sc, step |-> i, cfg |-> Tr[sc].cfg, id |-> Tr[sc].id, k |-> 0, what |-> SetToSeq(v)])) /\ FALSE
=================================================================================
