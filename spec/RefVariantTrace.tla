--------------------------- MODULE RefVariantTrace ---------------------------
(* Replays a recorded history on RefVariant and compares every observation.      *)
EXTENDS RefVariant, Json, IOUtils, SequencesExt
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i, S
vars == <<sc, i, S>>
NSlots == 3
Init == sc \in 1..Len(Tr) /\ i = 0 /\ S = RefInit(NSlots)
Cur(s, j) == Tr[s].steps[j]
Next == /\ i < Len(Tr[sc].steps)
        /\ i' = i + 1 /\ sc' = sc
        /\ LET o == Cur(sc, i + 1) IN S' = IF o.o # "crash" /\ Enabled(S, o) THEN Apply(S, o) ELSE S
Spec == Init /\ [][Next]_vars
Chk(c, n) == IF c THEN {} ELSE {<<"C13", n>>}
RelEq(a, b) == (3 * (a + 100) + (b + 100)) % 4 = 0 \/ (a = b /\ a % 3 # 0)
RelLt(a, b) == (2 * (a + 100) + 3 * (b + 100)) % 5 < 2
\* observation of slot j after the step: every way of reaching the content designates the same, right object
SlotViol(j, b) ==
  LET q == S.slot[j]  a == Kind[q.k][q.w] IN
       Chk(b.w = q.w, "wrong-alternative")
  \cup Chk(b.va = q.r /\ b.vc = q.r /\ b.vl = q.r /\ b.vr = q.r, "visitation-designates-another-object")
  \cup Chk(b.ga = q.r /\ b.gc = q.r /\ b.gr = q.r, "get-designates-another-object")
  \cup Chk(b.sa = q.r /\ b.pa = q.r, "strict-or-polymorphic-get-designates-another-object")
  \cup Chk(b.go = 0, "get-of-another-type-not-null")
  \cup Chk(b.x = ValOf(S, q.r), "value-seen-through-the-variant")
  \cup Chk(b.ty = a.t, "type-of-content")
ObsViol(o) ==
     UNION {LET b == o.obs[m] IN IF b.d \in 1..NSlots /\ S.slot[b.d].k # 0 THEN SlotViol(b.d, b) ELSE {<<"C00", "slot">>} : m \in 1..Len(o.obs)}
  \cup Chk({o.obs[m].d : m \in 1..Len(o.obs)} = {j \in 1..NSlots : S.slot[j].k # 0}, "missing-slot")
  \cup UNION {Chk(o.ob[m][1] = S.vals[m], "object-changed") \cup Chk(o.ob[m][2] = 1, "object-destroyed") : m \in 1..NO}
  \cup UNION {LET p == o.rel[m]  u == S.slot[p[1]]  v == S.slot[p[2]]  x == ValOf(S, u.r)  y == ValOf(S, v.r) IN
              Chk(p[3] = (IF u.w = v.w /\ RelEq(x, y) THEN 1 ELSE 0), "equality-of-the-referred-objects")
         \cup Chk(p[4] = (IF (u.w = v.w /\ RelLt(x, y)) \/ u.w < v.w THEN 1 ELSE 0), "order-of-the-referred-objects")
         \cup Chk(p[5] = u.r /\ p[6] = v.r, "binary-visitation-designates-another-object") : m \in 1..Len(o.rel)}
\* what was done to elements during the call, judged in the state before
EvViol(T, o) ==
     UNION {LET e == o.ev[m] IN
            Chk(e[2] \notin 1..NO, "object-constructed-assigned-or-destroyed")
       \cup Chk(e[3] = 0 \/ e[3] > 19 \/ e[3] \in MayRead(T, o) \/ (o.o = "av" /\ e[3] = 10 + o.d) \/ (o.o = "dt"), "object-copied")
       \cup Chk(e[3] \notin 1..NO \/ e[1] \in {"k", "a"}, "object-moved-from") : m \in 1..Len(o.ev)}
  \cup Chk(RefOnly(T, o) => Len(o.ev) = 0, "reference-operation-touches-objects")
  \cup Chk(RefOnly(T, o) => o.al = 0, "reference-operation-allocates")
\* the state before step j, recomputed
RECURSIVE Before(_, _)
Before(s, j) == IF j <= 1 THEN RefInit(NSlots) ELSE LET T == Before(s, j - 1) o == Cur(s, j - 1) IN IF Enabled(T, o) THEN Apply(T, o) ELSE T
Viol ==
  IF i = 0 THEN {}
  ELSE LET o == Cur(sc, i) IN
       IF o.o = "crash" THEN {<<"C13", "crash-" \o o.why>>}
       ELSE LET T == Before(sc, i) IN
            IF ~Enabled(T, o) THEN {<<"C00", "operation-not-enabled">>}
            ELSE ObsViol(o) \cup EvViol(T, o)
NoViolation ==
  LET v == {x \in Viol : PROP = "ALL" \/ x[1] = PROP \/ x[1] = "C00"} IN
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([line |-> sc, step |-> i, cfg |-> Tr[sc].cfg, id |-> Tr[sc].id, k |-> 0, what |-> SetToSeq(v)])) /\ FALSE
==============================================================================
