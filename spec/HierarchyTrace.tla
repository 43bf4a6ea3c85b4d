---------------------------- MODULE HierarchyTrace ----------------------------
(* Judges recorded gets. A trace is one variant (l, cur); step fields: fn, op, u,  *)
(* uc, r (ok | null | exception), same (the result designates the content, seen    *)
(* as u), cat; last step "end": which() and the content's own mark.                *)
EXTENDS Hierarchy, Json, IOUtils, SequencesExt
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
vars == <<sc, i>>
Init == sc \in 1..Len(Tr) /\ i = 0
Next == i < Len(Tr[sc].steps) /\ i' = i + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Chk(c, p, n) == IF c THEN {} ELSE {<<p, n>>}
Alt(t) == t.l[t.cur]
GetV(t, o) ==
  LET a == Alt(t)  q == [fn |-> o.fn, op |-> o.op, u |-> o.u, uc |-> o.uc = 1] IN
  IF q \notin Queries(t.l) THEN {<<"C00", "query-not-in-the-specification">>}
  ELSE IF Hit(a, q)
  THEN   Chk(o.r = "ok", "C08", "get-of-the-held-type-failed")
    \cup Chk(o.r # "ok" \/ o.same = 1, "C08", "get-designates-another-object")
    \cup Chk(o.r # "ok" \/ o.cat = Cat(a, q), "C08", "get-result-category")
  ELSE Chk(o.r = Failure(q), "C08", "get-of-another-type")
Viol(s, j) ==
  IF j = 0 THEN {}
  ELSE LET t == Tr[s]  o == t.steps[j] IN
       CASE o.o = "hget"  -> GetV(t, o)
         [] o.o = "end"   -> Chk(o.which = t.cur - 1 /\ o.mark = 40 + t.cur, "C08", "get-changed-the-variant")
         [] o.o = "crash" -> {<<"C08", "crash-" \o o.why>>}
         [] OTHER -> {<<"C00", "unknown-step">>}
NoViolation ==
  LET v == {x \in Viol(sc, i) : PROP = "ALL" \/ x[1] = PROP \/ x[1] = "C00"} IN
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([line |-> sc, step |-> i, cfg |-> Tr[sc].cfg, id |-> Tr[sc].id, k |-> 0, what |-> SetToSeq(v)])) /\ FALSE
===============================================================================
