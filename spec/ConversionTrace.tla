--------------------------- MODULE ConversionTrace ---------------------------
(* Judges recorded conversions.  Step fields: l list, a argument type, h held     *)
(* alternative before (0: construction), f form (0 lvalue, 1 const lvalue,        *)
(* 2 rvalue; +10: through a foreign variant; +20: the source variant is itself a  *)
(* bounded type), w which() + 1 afterwards, v value, n conversions into X/Z,      *)
(* ref winner chosen by the compiler for plain functions, sv value of the source  *)
(* afterwards, y value after moving on (foreign).                                 *)
EXTENDS Conversion, Json, IOUtils, SequencesExt
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
vars == <<sc, i>>
Init == sc \in 1..Len(Tr) /\ i = 0
Next == i < Len(Tr[sc].steps) /\ i' = i + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Chk(c, p, n) == IF c THEN {} ELSE {<<p, n>>}

ConvViol(o) ==
  LET win == Winner(o.l, o.a)  t == o.l[win] IN
       Chk(o.ref = win, "C00", "model-of-overload-resolution-differs-from-the-compiler")
  \cup Chk(o.r = "ok", "C11", "conversion-failed")
  \cup Chk(o.w = win, "C11", "not-the-overload-resolution-winner")
  \cup Chk(o.w # win \/ o.v = ConvVal(o.a, t), "C11", "converted-value")
  \cup Chk(o.w # win \/ o.inner = Inner(o.a, t), "C11", "wrong-alternative-of-the-nested-variant")
  \cup Chk(o.w # win \/ o.n = ConvCount(o.a, t), "C11", "not-converted-exactly-once")
  \cup Chk(o.f % 10 = 2 \/ o.sv = ConvVal(o.a, o.a), "C11", "source-of-a-copying-conversion-changed")
Viol(s, j) ==
  IF j = 0 THEN {}
  ELSE LET o == Tr[s].steps[j] IN
       CASE o.o = "conv" -> ConvViol(o)
         [] o.o = "crash" -> {<<"C11", "crash-" \o o.why>>}
         [] OTHER -> {<<"C00", "unknown-step">>}
Mine(v) == {x \in v : PROP = "ALL" \/ x[1] = PROP \/ x[1] = "C00"}
NoViolation ==
  LET v == Mine(Viol(sc, i)) IN
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([line |-> sc, step |-> i, cfg |-> Tr[sc].cfg, id |-> Tr[sc].id, k |-> 0, what |-> SetToSeq(v)])) /\ FALSE
===============================================================================
