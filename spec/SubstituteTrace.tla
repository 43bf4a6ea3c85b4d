---------------------------- MODULE SubstituteTrace ----------------------------
(* Step: t the bounded type as written, form, seen the type the visitor was given, *)
(* w which(), got strict get by the expected type designates the content, na       *)
(* allocations of the construction.                                                *)
EXTENDS Substitute, Json, IOUtils, SequencesExt
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
vars == <<sc, i>>
Init == sc \in 1..Len(Tr) /\ i = 0
Next == i < Len(Tr[sc].steps) /\ i' = i + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Chk(c, n) == IF c THEN {} ELSE {<<"C12", n>>}
Viol ==
  IF i = 0 THEN {}
  ELSE LET o == Tr[sc].steps[i] IN
       CASE o.o = "sub" -> Chk(o.seen = Subst(o.t), "placeholder-not-replaced-by-the-variant")
                      \cup Chk(o.w = 1 /\ o.got = 1, "content-not-found-by-its-type")
                      \cup Chk(o.copy = 1, "copy-differs")
                      \cup Chk((Mentions(o.t) /\ ~Pointer(o.t)) \/ o.na = 0, "non-recursive-alternative-on-the-heap")
         [] o.o = "crash" -> {<<"C12", "crash-" \o o.why>>}
         [] OTHER -> {<<"C00", "unknown-step">>}
NoViolation ==
  LET v == {x \in Viol : PROP = "ALL" \/ x[1] = PROP \/ x[1] = "C00"} IN
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([line |-> sc, step |-> i, cfg |-> Tr[sc].cfg, id |-> Tr[sc].id, k |-> 0, what |-> SetToSeq(v)])) /\ FALSE
===============================================================================
