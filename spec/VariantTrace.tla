----------------------------- MODULE VariantTrace -----------------------------
(* Checks recorded executions of the real code against VariantContract.         *)
(* The trace file has one JSON line per scenario; every step of every scenario  *)
(* is one TLC state, so the number of distinct states tells that the whole file *)
(* was examined.  The specification is a total monitor: it never blocks on a    *)
(* surprising step but reports the property that the step breaks, and goes on.  *)
EXTENDS VariantQuery, Json, IOUtils

CONSTANTS PROP          \* the property to decide; "ALL" for every one of them

Tr == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc, i
vars == <<sc, i>>
Init == sc \in 1..Len(Tr) /\ i = 0
Next == i < Len(Tr[sc].steps) /\ i' = i + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars

NV0 == [n \in ConfigNames |-> 0]
ListsOf(t, n) == [j \in 1..n |-> Infos[t.cfg][IF j <= t.nv THEN 1 ELSE 2]]
Nobody(n) == [j \in 1..n |-> [w |-> -1]]
Before(t, j) == IF j = 1 THEN Nobody(t.nv + t.nf) ELSE t.steps[j - 1].sl

EndViol(P, o) ==
  LET r == Ledger(OwnedBy(P), o.ev) IN
       {<<"C03", b>> : b \in r.bad}
  \cup Chk(r.lv = {}, {"C03"}, "object-never-destroyed")
  \cup Chk(o.h = 0, {"C03"}, "heap-block-leaked")

CrashProps(o) ==
  IF IsQuery(o.last) THEN {QProp(o.last), "C01", "C03"} ELSE
  LET n == IF o.in = "swap" \/ o.in \in Assigns \cup Ctors THEN o.in ELSE o.last IN
  {"C01", "C03"}
  \cup (IF o.why = "terminate" THEN {"C14", "C02"} ELSE {})
  \cup (CASE n \in Assigns -> {"C02", "C04", "C15"}
          [] n \in Ctors -> {"C02", "C04", "C15"}
          [] n = "swap" -> {"C02", "C05"}
          [] OTHER -> {})
  \cup (IF o.in \in {"observe", "mut"} THEN {"C06", "C08"} ELSE {})
  \cup (IF n \in {"xctor", "xas", "fctor", "fas", "vctor", "vas"} THEN {"C11"} ELSE {})

\* what the compiler reports about the type list, compared with what the specification derives
B(x) == x = 1
HdrViol(t, o) ==
  UNION { LET L == Infos[t.cfg][k]  h == o.kinds[k] IN
            IF L.n = 0 THEN {}
            ELSE Chk(Len(h.alts) = L.n, {"C00"}, "list-length")
            \cup UNION { LET a == h.alts[j]  c == Cls(L, TagAt(L, j)) IN
                         Chk(/\ a.t = TagAt(L, j) /\ (c.hc => B(a.nc) = c.nc) /\ B(a.nm) = c.nm
                             /\ (c.hc => B(a.nca) = c.nca) /\ B(a.nma) = c.nma /\ B(a.nd) = c.nd
                             /\ B(a.hc) = c.hc /\ B(a.hd) = c.hd, {"C00"}, "element-attributes-differ")
                       : j \in 1..Len(h.alts) }
            \cup Chk(B(h.mc) = MoveCtorNoexcept(L), {"C14"}, "noexcept-of-move-construction")
            \cup Chk(B(h.ma) = MoveAsgNoexcept(L), {"C14"}, "noexcept-of-move-assignment")
            \cup Chk(HasDefault(L) => B(h.dc) = DefaultNoexcept(L), {"C14"}, "noexcept-of-default-construction")
            \cup Chk(B(h.de) /\ B(h.wh) /\ B(h.em), {"C14"}, "noexcept-of-destruction-and-queries")
        : k \in 1..2 }

\* hashes taken earlier in the same scenario from variants of the same kind
Earlier(t, j) ==
  LET o == t.steps[j] IN
  IF o.o # "qhash" THEN {}
  ELSE {[p |-> t.steps[m].sl[t.steps[m].d], hv |-> t.steps[m].hv] :
          m \in {m \in 1..(j - 1) : t.steps[m].o = "qhash" /\ t.steps[m].r = "ok" /\ (t.steps[m].d <= t.nv) = (o.d <= t.nv)}}

Viol(s, j) ==
  IF j = 0 THEN {}
  ELSE LET t == Tr[s]  o == t.steps[j]  n == t.nv + t.nf IN
       CASE o.o = "hdr"   -> HdrViol(t, o)
         [] o.o = "crash" -> {<<p, "crash-" \o o.why \o "-in-" \o o.in>> : p \in CrashProps(o)}
         [] o.o = "pre"   -> UNION {SlotViol(ListsOf(t, n)[k], o.sl[k]) : k \in 1..n}
         [] o.o = "end"   -> EndViol(Before(t, j), o)
         [] o.o = "hsum"  -> HashSumViol(o)
         [] IsQuery(o.o)  -> QueryViol(ListsOf(t, n), Before(t, j), o, o.sl, Earlier(t, j))
         [] OTHER         -> StepViol(ListsOf(t, n), Before(t, j), o, o.sl)
                             \cup Chk(o.oe = 0, {"C06", "C01"}, "observing-changes-contents")

Mine(v) == {x \in v : PROP = "ALL" \/ x[1] = PROP \/ x[1] = "C00"}
NoViolation ==
  LET v == Mine(Viol(sc, i)) IN
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([line |-> sc, step |-> i, cfg |-> Tr[sc].cfg, id |-> Tr[sc].id, k |-> Tr[sc].k, what |-> SetToSeq(v)]))
       /\ FALSE
===============================================================================
