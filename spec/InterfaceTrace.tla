---------------------------- MODULE InterfaceTrace ----------------------------
(* Compiler verdicts on programs and type traits against Interface / Conversion. *)
EXTENDS Interface, Json, IOUtils, SequencesExt
CONSTANTS PROP
CV == INSTANCE Conversion
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
vars == <<sc, i>>
Init == sc \in 1..Len(Tr) /\ i = 0
Next == i < Len(Tr[sc].steps) /\ i' = i + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Chk(c, n) == IF c THEN {} ELSE {<<"C17", n>>}
\* some alternative of the list is constructible from the argument; direct initialisation also allows one implicit
\* conversion to the parameter of its constructor (const char* -> string -> Z, Y -> int -> X)
Taken(l, a) == \E j \in DOMAIN l : CV!Rank(a, l[j]) # CV!NONE \/ <<a, l[j]>> \in {<<"P", "Z">>, <<"Y", "X">>}
TraitViol(o) ==
  LET t == IF o.fv = <<>> THEN Taken(o.l, o.a) ELSE \A j \in DOMAIN o.fv : Taken(o.l, o.fv[j]) IN
     Chk(o.ctor = t, IF t THEN "constructibility-not-reported" ELSE "constructible-from-an-unacceptable-type")
     \cup Chk(o.conv = t, "convertibility") \cup Chk(o.asg = t, "assignability")
Viol ==
  IF i = 0 THEN {}
  ELSE LET o == Tr[sc].steps[i] IN
       IF o.o = "prog" THEN (IF o.p \in Programs THEN Chk(o.ok = Accept(o.p), IF Accept(o.p) THEN "well-formed-program-rejected-" \o o.p.f ELSE "ill-formed-program-accepted-" \o o.p.f) ELSE {<<"C00", "unknown-program">>})
       ELSE IF o.o = "trait" THEN TraitViol(o) ELSE {<<"C00", "step">>}
NoViolation ==
  LET v == {x \in Viol : PROP = "ALL" \/ x[1] = PROP \/ x[1] = "C00"} IN
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([line |-> sc, step |-> i, cfg |-> Tr[sc].cfg, id |-> Tr[sc].id, k |-> 0, what |-> SetToSeq(v)])) /\ FALSE
==============================================================================
