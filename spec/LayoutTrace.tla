------------------------------ MODULE LayoutTrace ------------------------------
(* Judges recorded layouts.  Trace: l list, sz sizeof, al alignof the variant.     *)
(* Step: f, j, k, x call; r ok | fault | other; w which() + 1; v common value of   *)
(* all bytes of the content (-1: not uniform); inl; off offset of the content in   *)
(* the variant; mod address modulo the alternative's alignment; g bytes around the *)
(* variant intact; f0, f1 which() + 1 after filling the content with zero / one    *)
(* bits; na allocations by the call; ow, ov the other operand after swap.          *)
EXTENDS Layout, Json, IOUtils, SequencesExt
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
vars == <<sc, i>>
Init == sc \in 1..Len(Tr) /\ i = 0
Next == i < Len(Tr[sc].steps) /\ i' = i + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Chk(c, p, n) == IF c THEN {} ELSE {<<p, n>>}
St(o) == [w |-> o.w, v |-> o.v, inl |-> o.inl]
Where(t, o) ==
  IF o.w \notin DOMAIN t.l THEN {<<"C01", "not-an-alternative">>}
  ELSE LET a == t.l[o.w] IN
       Chk(o.inl = 0 \/ (o.off >= 0 /\ o.off + a[1] <= t.sz), "C15", "content-not-within-the-variant")
  \cup Chk((o.inl = 0 /\ a[2] > 16) \/ o.mod = 0, "C15", "content-misaligned")
  \cup Chk(o.g = 1, "C15", "bytes-outside-the-variant-written")
  \cup Chk(o.f0 = o.w /\ o.f1 = o.w, "C15", "content-overlaps-the-discriminator")
  \cup Chk(o.v # -1, "C15", "content-overwritten")
StepV(t, s, o) ==
       Where(t, o)
  \cup Chk(o.r \in {"ok", "fault"} /\ (o.r = "fault") = (o.fired = 1), "C02", "exception")
  \cup (IF o.f = "ctor" THEN Chk(St(o) = [w |-> o.j, v |-> o.x, inl |-> 1], "C15", "construction")
        ELSE LET ss == [s EXCEPT !.inl = s.inl]  A == After(t.l, ss, o.f, o.j, o.x, o.r = "ok") IN
             Chk(\E z \in A : z.w = o.w /\ z.v = o.v, IF o.r = "ok" THEN "C04" ELSE "C02", "wrong-content")
        \cup Chk(o.inl \in {z.inl : z \in A}, "C15", "content-on-the-heap")
        \cup Chk(o.f # "swap" \/ (o.ow = s.w /\ o.ov = s.v), "C05", "swap-other-operand"))
  \cup Chk(IF o.f = "ctor" THEN o.na = 0 ELSE (NoHeap(t.l, s, o.f, o.j) => o.na = 0), "C15", "needless-allocation")
Viol(q, j) ==
  IF j = 0 THEN {}
  ELSE LET t == Tr[q]  o == t.steps[j] IN
       CASE o.o = "lay" -> StepV(t, IF j = 1 THEN [w |-> 0, v |-> 0, inl |-> 1] ELSE St(t.steps[j - 1]), o)
         [] o.o = "end" -> Chk(o.left = 0, "C03", "heap-blocks-left")
         [] o.o = "crash" -> {<<p, "crash-" \o o.why>> : p \in {"C01", "C03", "C15"}}
         [] OTHER -> {<<"C00", "unknown-step">>}
NoViolation ==
  LET v == {x \in Viol(sc, i) : PROP = "ALL" \/ x[1] = PROP \/ x[1] = "C00"} IN
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([line |-> sc, step |-> i, cfg |-> Tr[sc].cfg, id |-> Tr[sc].id, k |-> 0, what |-> SetToSeq(v)])) /\ FALSE
===============================================================================
