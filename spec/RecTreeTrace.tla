----------------------------- MODULE RecTreeTrace -----------------------------
(* Judges recorded operations on trees: each step carries the trees before it    *)
(* (the previous observation) and after it.                                      *)
EXTENDS RecTree, Json, IOUtils, SequencesExt
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
vars == <<sc, i>>
Init == sc \in 1..Len(Tr) /\ i = 0
Next == i < Len(Tr[sc].steps) /\ i' = i + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Chk(c, n) == IF c THEN {} ELSE {<<"C12", n>>}
\* observed trees after step j of trace s (index 0: the initial ones); an absent variable is [0, 0, []]
Obs(s, j) == Tr[s].steps[j].tree
St(q) == [m \in DOMAIN q |-> IF q[m][1] = 0 THEN NoTree ELSE Strip(q[m])]
Blur(T, p) == IF T = NoTree THEN T ELSE Put(T, p, << At(T, p)[1], 0, <<>> >>)
AllAddrs(q) == LET RECURSIVE cat(_) cat(j) == IF j > Len(q) THEN <<>> ELSE (IF q[j][1] = 0 THEN <<>> ELSE Addrs(q[j])) \o cat(j + 1) IN cat(1)
Sane(t, o) ==
  LET q == o.tree  live == {m \in DOMAIN q : q[m][1] # 0}  aa == AllAddrs(q) IN
       Chk(\A m \in live : Complete(t, q[m]), "incomplete-tree")
  \cup Chk(Len(aa) = Cardinality({aa[j] : j \in DOMAIN aa}), "node-shared-between-trees")
  \cup Chk(o.alive = SumSeq([m \in DOMAIN q |-> IF q[m][1] = 0 THEN 0 ELSE Elems(t, q[m])]), "element-leaked-or-destroyed-twice")
  \cup Chk(o.err = 0, "lifetime-error")
  \cup UNION {LET r == o.rel[m]  a == Strip(q[r[1]])  b == Strip(q[r[2]]) IN
              Chk(r[3] = (IF a = b THEN 1 ELSE 0), "equality-of-trees")
         \cup Chk(r[4] = (IF TLt(a, b) THEN 1 ELSE 0), "order-of-trees")
         \cup Chk(a # b \/ r[5] = r[6], "equal-trees-hash-differently") : m \in IF \A m \in live : Complete(t, q[m]) THEN 1..Len(o.rel) ELSE {}}
StepViol(t, pre, o) ==
  LET S == St(pre)  R == St(o.tree)  E == Apply(t, S, o)
      mv == MovesFrom(o) /\ o.s # o.d IN
  IF ~Enabled(t, S, o) THEN {<<"C00", "not-enabled">>} ELSE
       Sane(t, o)
  \cup Chk(o.r \in {"ok", "fault"} /\ (o.k = 0 => o.r = "ok"), "unexpected-exception")
  \cup (IF o.r = "ok"
        THEN   UNION {IF mv /\ m = o.s THEN Chk(R[m] # NoTree /\ R[m][1] = S[m][1] /\ MovedPath(o) \in Paths(R[m]) /\ Blur(R[m], MovedPath(o)) = Blur(S[m], MovedPath(o)), "moved-from-tree")
                      ELSE Chk(R[m] = E[m], IF m = o.d \/ (o.o = "sw" /\ m = o.s) THEN "result-tree" ELSE "other-tree-changed") : m \in DOMAIN S}
        ELSE   UNION {IF m # o.d /\ ~(m = o.s /\ (mv \/ o.o = "sw")) THEN Chk(R[m] = S[m], "other-tree-changed-by-failed-operation")
                      ELSE IF S[m] = NoTree THEN Chk(R[m] = NoTree, "failed-construction-left-a-variant")
                      ELSE Chk(R[m] # NoTree, "variant-lost-its-tree") : m \in DOMAIN S})
Viol ==
  IF i = 0 THEN {}
  ELSE LET o == Tr[sc].steps[i]  t == Tr[sc].cfg IN
       CASE o.o = "crash" -> {<<"C12", "crash-" \o o.why>>}
         [] o.o = "init" -> Sane(t, o)
         [] o.o = "end" -> Chk(o.out = 0, "memory-leaked") \cup Chk(o.alive = 0, "element-leaked") \cup Chk(o.err = 0, "lifetime-error")
         [] OTHER -> StepViol(t, Tr[sc].steps[i - 1].tree, o)
NoViolation ==
  LET v == {x \in Viol : PROP = "ALL" \/ x[1] = PROP \/ x[1] = "C00"} IN
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([line |-> sc, step |-> i, cfg |-> Tr[sc].cfg, id |-> Tr[sc].id, k |-> Tr[sc].k, what |-> SetToSeq(v)])) /\ FALSE
==============================================================================
