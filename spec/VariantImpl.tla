----------------------------- MODULE VariantImpl -----------------------------
(* Implementation-shaped model of boost::variant's value operations.            *)
(*                                                                              *)
(* Memory is a map from locations to contents: an element object, a             *)
(* recursive_wrapper (pointer to a heap element) or a backup_holder (pointer to *)
(* a heap content).  which_ is kept raw: negative means heap backup.  Every     *)
(* element operation and every allocation is a separate primitive that may      *)
(* throw; an operation is a composition of primitives, with the catch blocks    *)
(* and RAII cleanup of the code.  TLC explores every history of calls with      *)
(* every throwing point and checks each call against VariantContract.           *)
(* It also prints the scenarios that are replayed in the real code.             *)
EXTENDS VariantQuery, Json

CONSTANTS CONFIGS,      \* names of the type lists to explore
          NV,           \* number of slots of the variant under test
          NF,           \* number of slots of the foreign variant (0 or 1)
          VALS,         \* values given to new contents
          BUGS,         \* repaired defects to put back, to show that TLC finds them:
                        \*  "holder": a displaced source is handed on as its backup_holder
                        \*  "nothrow-copy": visitation takes the backup of a nothrow copyable content for the content
          QUERIES,      \* names of the queries to print for every distinct state (VariantQuery)
          GEN           \* TRUE: print a scenario for every call in every distinct state

VARIABLES cfg, mem, wh, blk, viol, hist
vars == <<cfg, mem, wh, blk, viol, hist>>

ASSUME GEN => PrintT("CFG " \o ToJson([list |-> ConfigList, attr |-> ClassAttr]))

NONE == 99
Arg == 300            \* the external argument object
TmpV == 203           \* a temporary variant
Slots == (1..NV) \cup {NV + j : j \in 1..NF}
LLs == [c \in CONFIGS |-> [j \in 1..(NV + NF) |-> Infos[c][IF j <= NV THEN 1 ELSE 2]]]
LL(c) == LLs[c]

\* ------------------------------------------------------------- machine state during a call
Start(k) == [mem |-> mem, wh |-> wh @@ (TmpV :> NONE), blk |-> blk, k |-> k, exc |-> "", fired |-> FALSE,
             np |-> 0, ev |-> <<>>, na |-> 0, ns |-> 1000, last |-> 0, bad |-> {}]
Ok(m) == m.exc = ""
Bad(m, why) == [m EXCEPT !.bad = @ \cup {why}]
Rm(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Tick(m, what) ==
  IF ~Ok(m) THEN m
  ELSE IF m.k = 1
  THEN [m EXCEPT !.k = 0, !.exc = what, !.fired = TRUE, !.np = @ + 1, !.ev = Append(@, <<"x", 0, IF what = "alloc" THEN 1 ELSE 0, 0>>)]
  ELSE [m EXCEPT !.k = IF @ > 0 THEN @ - 1 ELSE 0, !.np = @ + 1]

FreeId(m) == CHOOSE i \in 101..140 : i \notin m.blk /\ \A j \in 101..(i - 1) : j \in m.blk
NewBlk(m) ==
  IF ~Ok(m) THEN m
  ELSE LET m1 == Tick([m EXCEPT !.na = @ + 1], "alloc") IN
       IF ~Ok(m1) THEN m1 ELSE LET i == FreeId(m1) IN [m1 EXCEPT !.blk = @ \cup {i}, !.last = i]
FreeBlk(m, i) == IF i \in m.blk THEN [m EXCEPT !.blk = @ \ {i}] ELSE Bad(m, "freed-twice")

Put(m, loc, c) == IF loc \in DOMAIN m.mem THEN Bad(m, "storage-overwritten") ELSE [m EXCEPT !.mem = (loc :> c) @@ @]
Has(m, loc) == loc \in DOMAIN m.mem

\* ------------------------------------------------------------- element primitives
Ev(m, k, a, t, s) == IF t = BlankTag THEN m ELSE [m EXCEPT !.ev = Append(@, <<k, a, t, s>>)]
ElemMake(m, loc, t, v, k, src) ==
  LET s == IF t = BlankTag THEN 0 ELSE m.ns
  IN Ev(Put([m EXCEPT !.ns = @ + 1], loc, [k |-> "obj", t |-> t, v |-> v, s |-> s]), k, loc, t, src)
ElemNew(m, loc, t, v, k, src, throws) ==
  LET m1 == IF throws THEN Tick(m, "fault") ELSE m
  IN IF ~Ok(m1) THEN m1 ELSE ElemMake(m1, loc, t, v, k, src)
ElemCopy(L, m, dst, src) ==
  IF ~Ok(m) THEN m ELSE IF ~Has(m, src) THEN Bad(m, "read-of-nothing")
  ELSE LET c == m.mem[src] IN ElemNew(m, dst, c.t, c.v, "k", src, ~Cls(L, c.t).nc)
ElemMove(L, m, dst, src) ==
  IF ~Ok(m) THEN m ELSE IF ~Has(m, src) THEN Bad(m, "read-of-nothing")
  ELSE LET c == m.mem[src] IN
       IF ~Cls(L, c.t).hm THEN ElemCopy(L, m, dst, src)
       ELSE LET m1 == ElemNew(m, dst, c.t, c.v, "m", src, ~Cls(L, c.t).nm)
            IN IF Ok(m1) /\ c.t # BlankTag THEN [m1 EXCEPT !.mem[src].v = MOVED] ELSE m1
ElemX(L, m, dst, src, mv) == IF mv THEN ElemMove(L, m, dst, src) ELSE ElemCopy(L, m, dst, src)
ElemDel(m, loc) ==          \* destructors also run while an exception is in flight
  IF ~Has(m, loc) THEN Bad(m, "destroyed-nothing")
  ELSE Ev([m EXCEPT !.mem = Rm(@, loc)], "d", loc, m.mem[loc].t, 0)
ElemAsg(L, m, dst, src, mv) ==
  IF ~Ok(m) THEN m ELSE IF ~Has(m, src) \/ ~Has(m, dst) THEN Bad(m, "assignment-of-nothing")
  ELSE LET t == m.mem[dst].t
           really == mv /\ Cls(L, t).hm
           m1 == IF (IF really THEN Cls(L, t).nma ELSE Cls(L, t).nca) THEN m ELSE Tick(m, "fault")
       IN IF ~Ok(m1) THEN m1
          ELSE LET m2 == Ev(m1, IF really THEN "v" ELSE "a", dst, t, src)
                   m3 == [m2 EXCEPT !.mem[dst].v = m2.mem[src].v]
               IN IF really /\ dst # src /\ t # BlankTag THEN [m3 EXCEPT !.mem[src].v = MOVED] ELSE m3

\* ------------------------------------------------------------- stored alternatives (element or recursive_wrapper)
Put1(L, m, dst, t, elem, mv) ==     \* construct alternative t at dst from the element at elem
  IF ~Wrapped(L, t) THEN ElemX(L, m, dst, elem, mv)
  ELSE LET m1 == NewBlk(m) IN
       IF ~Ok(m1) THEN m1
       ELSE LET h == m1.last  m2 == ElemX(L, m1, h, elem, mv) IN
            IF ~Ok(m2) THEN FreeBlk(m2, h) ELSE Put(m2, dst, [k |-> "rw", t |-> t, p |-> h])
RECURSIVE Target(_, _)
Target(m, loc) == IF m.mem[loc].k = "obj" THEN loc ELSE Target(m, m.mem[loc].p)
CNew(L, m, dst, src, mv) ==
  IF ~Ok(m) THEN m
  ELSE IF m.mem[src].k = "bak" THEN Bad(m, "backup-holder-copied")
  ELSE Put1(L, m, dst, m.mem[src].t, Target(m, src), mv)
RECURSIVE CDel(_, _)
CDel(m, loc) ==
  IF ~Has(m, loc) THEN Bad(m, "destroyed-nothing")
  ELSE LET c == m.mem[loc] IN
       IF c.k = "obj" THEN ElemDel(m, loc)
       ELSE FreeBlk(CDel([m EXCEPT !.mem = Rm(@, loc)], c.p), c.p)
CAsg(L, m, dst, src, mv) ==
  IF ~Ok(m) THEN m
  ELSE IF m.mem[dst].k = "rw" /\ mv          \* recursive_wrapper's move assignment swaps the pointers
  THEN [m EXCEPT !.mem[dst].p = m.mem[src].p, !.mem[src].p = m.mem[dst].p]
  ELSE ElemAsg(L, m, Target(m, dst), Target(m, src), mv)

\* ------------------------------------------------------------- variant primitives
Which(m, j) == IF m.wh[j] < 0 THEN -(m.wh[j] + 1) ELSE m.wh[j]
Deref(m, j) == IF m.mem[j].k = "bak" THEN m.mem[j].p ELSE j
SetWhich(m, j, w) == IF Ok(m) THEN [m EXCEPT !.wh[j] = w] ELSE m
CopyInto(L, m, d, s, mv) == IF ~Ok(m) THEN m ELSE SetWhich(CNew(L, m, d, Deref(m, s), mv), d, Which(m, s))

DefaultAt(L, m, loc, i) ==       \* default-construct alternative number i
  LET t == TagAt(L, i) IN
  IF ~Wrapped(L, t) THEN ElemNew(m, loc, t, DEFVAL, "c", 0, ~Cls(L, t).nd)
  ELSE LET m1 == NewBlk(m) IN
       IF ~Ok(m1) THEN m1
       ELSE LET h == m1.last  m2 == ElemNew(m1, h, t, DEFVAL, "c", 0, ~Cls(L, t).nd) IN
            IF ~Ok(m2) THEN FreeBlk(m2, h) ELSE Put(m2, loc, [k |-> "rw", t |-> t, p |-> h])

Catch(m) == [m EXCEPT !.exc = ""]
Rethrow(m, e) == [m EXCEPT !.exc = e]

\* destroy-then-construct with the fallback type constructed on failure
FallbackAssign(L, m, d, src, w, mv) ==
  LET m1 == CDel(m, d)
      m2 == CNew(L, m1, d, src, mv)
      fb == Fallback(L)
  IN IF Ok(m2) THEN SetWhich(m2, d, w)
     ELSE Rethrow(SetWhich(DefaultAt(L, Catch(m2), d, fb), d, fb - 1), m2.exc)

BackupAssign(L, m, d, src, w) ==
  IF m.wh[d] < 0 THEN                         \* already in backup: keep the pointer, drop the holder
    LET h  == m.mem[d].p
        hd == m.mem[d]
        m1 == [m EXCEPT !.mem = Rm(@, d)]
        m2 == CNew(L, m1, d, src, FALSE)
    IN IF Ok(m2) THEN FreeBlk(CDel(SetWhich(m2, d, w), h), h)
       ELSE Rethrow(Put(Catch(m2), d, hd), m2.exc)
  ELSE IF Stored(L, m.mem[d].t).nm THEN       \* back up in a local object
    LET m1 == CDel(CNew(L, m, 202, d, TRUE), d)
        m2 == CNew(L, m1, d, src, FALSE)
    IN IF Ok(m2) THEN CDel(SetWhich(m2, d, w), 202)
       ELSE CDel(Rethrow(CNew(L, Catch(m2), d, 202, TRUE), m2.exc), 202)
  ELSE                                        \* back up on the heap
    LET t  == m.mem[d].t
        m1 == NewBlk(m)
        h  == m1.last
        m2 == CNew(L, m1, h, d, FALSE)
        m3 == CDel(m2, d)
        m4 == CNew(L, m3, d, src, FALSE)
    IN IF ~Ok(m1) THEN m1
       ELSE IF ~Ok(m2) THEN FreeBlk(m2, h)
       ELSE IF ~Ok(m4)
       THEN LET m5 == Put(IF "nothrow-copy" \in BUGS /\ Stored(L, t).nc THEN Bad(Catch(m4), "backup-read-as-content") ELSE Catch(m4),
                           d, [k |-> "bak", t |-> t, p |-> h])
            IN Rethrow([m5 EXCEPT !.wh[d] = -(Which(m5, d) + 1)], m4.exc)
       ELSE FreeBlk(CDel(SetWhich(m4, d, w), h), h)

Assigner(L, m, d, src, w) ==
  LET a == Stored(L, m.mem[src].t) IN
  IF a.nc THEN SetWhich(CNew(L, CDel(m, d), d, src, FALSE), d, w)
  ELSE IF a.nm THEN
    LET m1 == CNew(L, m, 201, src, FALSE)
    IN IF ~Ok(m1) THEN m1
       ELSE CDel(SetWhich(CNew(L, CDel(m1, d), d, 201, TRUE), d, w), 201)
  ELSE IF Fallback(L) # 0 THEN FallbackAssign(L, m, d, src, w, FALSE)
  ELSE BackupAssign(L, m, d, src, w)
MoveAssigner(L, m, d, src, w) ==
  LET a == Stored(L, m.mem[src].t) IN
  IF a.nm THEN SetWhich(CNew(L, CDel(m, d), d, src, TRUE), d, w)
  ELSE IF a.nc THEN Assigner(L, m, d, src, w)
  ELSE IF Fallback(L) # 0 THEN FallbackAssign(L, m, d, src, w, TRUE)
  ELSE BackupAssign(L, m, d, src, w)

VariantAssign(L, m, d, s, mv) ==
  IF ~Ok(m) THEN m
  ELSE IF m.wh[d] = m.wh[s] THEN CAsg(L, m, Deref(m, d), Deref(m, s), mv)
  ELSE LET src == IF "holder" \in BUGS THEN s ELSE Deref(m, s) IN
       IF mv THEN MoveAssigner(L, m, d, src, Which(m, s)) ELSE Assigner(L, m, d, src, Which(m, s))

Drop(m, j) == IF m.wh[j] = NONE THEN m ELSE [CDel(m, j) EXCEPT !.wh[j] = NONE]

\* ------------------------------------------------------------- public operations
Construct(L, m, d, t, elem, mv) == SetWhich(Put1(L, m, d, t, elem, mv), d, IndexOf(L, t) - 1)
ViaTemp(L, m, d, m1) == IF ~Ok(m1) THEN m1 ELSE Drop(VariantAssign(L, m1, d, TmpV, TRUE), TmpV)

Body(c, m, o) ==
  LET L == LL(c)[o.d]
      T0 == IF o.w >= 0 /\ o.w < L.n THEN TagAt(L, o.w + 1) ELSE 0
      mv == o.c = 2
  IN CASE o.o = "dctor" -> SetWhich(DefaultAt(L, m, o.d, 1), o.d, 0)
       [] o.o = "vctor" -> Construct(L, m, o.d, T0, Arg, mv)
       [] o.o = "xctor" -> LET m1 == ElemNew(m, 204, T0, o.x, "c", 0, TRUE) IN
                           IF ~Ok(m1) THEN m1 ELSE ElemDel(Construct(L, m1, o.d, T0, 204, TRUE), 204)
       [] o.o = "cctor" -> CopyInto(L, m, o.d, o.s, FALSE)
       [] o.o = "mctor" -> CopyInto(L, m, o.d, o.s, TRUE)
       [] o.o = "fctor" -> Construct(L, m, o.d, m.mem[Target(m, o.s)].t, Target(m, o.s), mv)
       [] o.o = "cas"   -> VariantAssign(L, m, o.d, o.s, FALSE)
       [] o.o = "mas"   -> VariantAssign(L, m, o.d, o.s, TRUE)
       [] o.o = "vas"   -> IF m.mem[Target(m, o.d)].t = T0
                           THEN ElemAsg(L, m, Target(m, o.d), Arg, mv)
                           ELSE ViaTemp(L, m, o.d, Construct(L, m, TmpV, T0, Arg, mv))
       [] o.o = "xas"   -> LET m1 == ElemNew(m, 204, T0, o.x, "c", 0, TRUE) IN
                           IF ~Ok(m1) THEN m1
                           ELSE ViaTemp(L, m, o.d, ElemDel(Construct(L, m1, TmpV, T0, 204, TRUE), 204))
       [] o.o = "fas"   -> ViaTemp(L, m, o.d, Construct(L, m, TmpV, m.mem[Target(m, o.s)].t, Target(m, o.s), mv))
       [] o.o = "swap"  ->
            IF Which(m, o.d) = Which(m, o.s)
            THEN LET a == Target(m, o.d)  b == Target(m, o.s)
                     m1 == ElemMove(L, m, 202, a)
                     m2 == ElemAsg(L, ElemAsg(L, m1, a, b, TRUE), b, 202, TRUE)
                 IN IF ~Ok(m1) THEN m1 ELSE ElemDel(m2, 202)
            ELSE LET m1 == CopyInto(L, m, TmpV, o.s, TRUE)
                     m2 == VariantAssign(L, VariantAssign(L, m1, o.s, o.d, TRUE), o.d, TmpV, TRUE)
                 IN IF ~Ok(m1) THEN m1 ELSE Drop(m2, TmpV)
       [] o.o = "mut"   -> LET a == Target(m, o.d) IN IF m.mem[a].t = BlankTag THEN m ELSE [m EXCEPT !.mem[a].v = o.x]
       [] o.o = "dtor"  -> Drop(m, o.d)

HasArgObj(o) == o.o \in {"vctor", "vas"}
Run(c, o, k) ==
  LET m0 == Start(k)
      t  == TagAt(LL(c)[o.d], o.w + 1)
      m1 == IF HasArgObj(o) THEN ElemMake(m0, Arg, t, IF t = BlankTag THEN DEFVAL ELSE o.x, "c", 0) ELSE m0
      m2 == Body(c, m1, o)
      xv == IF HasArgObj(o) THEN m2.mem[Arg].v ELSE -1000
      m3 == IF HasArgObj(o) THEN ElemDel(m2, Arg) ELSE m2
  IN [m |-> m3, xv |-> xv]

\* ------------------------------------------------------------- observation
Obs(m, L, j) ==
  IF m.wh[j] = NONE THEN [w |-> -1]
  ELSE IF ~Has(m, j) THEN [w |-> Which(m, j), t |-> -1, u |-> -1, v |-> -1, s |-> -1, a |-> -1, b |-> -1, ga |-> -1,
                           i |-> 1, q |-> 1, f |-> 1, ok |-> 0, e |-> 0, g |-> <<>>, y |-> <<>>]
  ELSE LET a == Target(m, j)  c == m.mem[a] IN
       [w |-> Which(m, j), t |-> c.t, u |-> c.t, v |-> c.v, s |-> c.s, a |-> a, b |-> a, ga |-> a,
        i |-> IF a = j THEN 1 ELSE 0, q |-> 1, f |-> 1, ok |-> 1, e |-> 0, g |-> <<c.t>>, y |-> <<c.t>>]
ObsAll(m, c) == [j \in 1..(NV + NF) |-> Obs(m, LL(c)[j], j)]
StateM == [mem |-> mem, wh |-> wh]

\* give contents their resting serial number: the slot that owns them
RECURSIVE Renum(_, _)
Renum(m, js) ==
  IF js = {} THEN m
  ELSE LET j == CHOOSE x \in js : TRUE IN
       IF m.wh[j] = NONE \/ ~Has(m, j) THEN Renum(m, js \ {j})
       ELSE LET a == Target(m, j) IN
            Renum(IF m.mem[a].t = BlankTag THEN m ELSE [m EXCEPT !.mem[a].s = j], js \ {j})

\* locations reachable from the live slots
RECURSIVE Reach(_, _)
Reach(m, loc) == IF m.mem[loc].k = "obj" THEN {loc} ELSE {loc} \cup Reach(m, m.mem[loc].p)
Owning(m) == UNION {Reach(m, j) : j \in {x \in Slots : m.wh[x] # NONE /\ Has(m, x)}}

Tidy(m) == Chk(DOMAIN m.mem = Owning(m), {"C03"}, "unreachable-content")
      \cup Chk({l \in Owning(m) : l > 100} = m.blk, {"C03"}, "heap-block-leaked")
      \cup {<<"C03", b>> : b \in m.bad}

\* ------------------------------------------------------------- calls
Mk(n, d, s, w, x, c) == [o |-> n, d |-> d, s |-> s, w |-> w, x |-> x, c |-> c]
Alive == {j \in Slots : wh[j] # NONE}
Absent == Slots \ Alive
SameKind(i, j) == (i <= NV) = (j <= NV)
ArgCats(L, w) == IF Cls(L, TagAt(L, w + 1)).hc THEN {0, 1, 2} ELSE {2}
ArgOps(n, d, L) ==
  UNION {{Mk(n, d, 0, w, x, c) : x \in IF IsBlank(L, w + 1) THEN {0} ELSE VALS, c \in ArgCats(L, w)} : w \in 0..(L.n - 1)}
ConvOps(n, d, L) ==
  UNION {{Mk(n, d, 0, w, x, c) : x \in VALS, c \in {1, 2}} : w \in {y \in 0..(L.n - 1) : ~IsBlank(L, y + 1) /\ ~L.alts[y + 1].wrap}}
FCats(c) == IF Copyable(Infos[c][2]) THEN {0, 1, 2} ELSE {2}
OpsFor(c, d) ==
  LET L == LL(c)[d] IN
  IF L.n = 0 THEN {}
  ELSE IF d \in Absent THEN
         (IF HasDefault(L) THEN {Mk("dctor", d, 0, 0, 0, 0)} ELSE {})
    \cup ArgOps("vctor", d, L) \cup ConvOps("xctor", d, L)
    \cup (IF Copyable(L) THEN {Mk("cctor", d, s, 0, 0, cc) : s \in {x \in Alive : SameKind(x, d)}, cc \in {0, 1, 3}} ELSE {})
    \cup {Mk("mctor", d, s, 0, 0, 2) : s \in {x \in Alive : SameKind(x, d)}}
    \cup (IF d <= NV THEN {Mk("fctor", d, s, 0, 0, cc) : s \in {x \in Alive : x > NV}, cc \in FCats(c)} ELSE {})
  ELSE ArgOps("vas", d, L) \cup ConvOps("xas", d, L)
    \cup (IF Copyable(L) THEN {Mk("cas", d, s, 0, 0, cc) : s \in {x \in Alive : SameKind(x, d)}, cc \in {0, 1, 3}} ELSE {})
    \cup {Mk("mas", d, s, 0, 0, 2) : s \in {x \in Alive : SameKind(x, d)}}
    \cup (IF d <= NV THEN {Mk("fas", d, s, 0, 0, cc) : s \in {x \in Alive : x > NV}, cc \in FCats(c)} ELSE {})
    \cup {Mk("swap", d, s, 0, 0, cc) : s \in {x \in Alive : SameKind(x, d)}, cc \in {0, 1}}
    \cup {Mk("mut", d, 0, 0, x, cc) : x \in VALS, cc \in 0..3}
    \cup {Mk("dtor", d, 0, 0, 0, 0)}

\* value categories that the model treats alike are printed as scenarios but explored once
Canon(o) == \/ o.o \in {"vctor", "vas", "fctor", "fas"} /\ o.c # 1
            \/ o.o \in {"cctor", "cas"} /\ o.c = 1
            \/ o.o \in {"xctor", "xas"} /\ o.c = 1
            \/ o.o \in {"swap", "mut"} /\ o.c = 0
            \/ o.o \in {"dctor", "mctor", "mas", "dtor"}

Points(o) == Run(cfg, o, 0).m.np        \* how many primitives of the call may throw
Emit(o) == GEN => PrintT("SCN " \o ToJson([cfg |-> cfg, ops |-> Append(hist, o @@ [k |-> 0])]))

Call(o, k) ==
  LET P == ObsAll(StateM, cfg)
      r == Run(cfg, o, k)
      m == r.m
      Q == ObsAll(m, cfg)
      out == o @@ [r |-> IF m.exc = "" THEN "ok" ELSE m.exc, na |-> m.na, xv |-> r.xv, ev |-> m.ev]
      n == Renum(m, Slots)
  IN /\ viol' = StepViol(LL(cfg), P, out, Q) \cup Tidy(m) \cup Chk(k = 0 \/ m.fired, {"C00"}, "fault-point-not-reached")
     /\ mem' = n.mem
     /\ wh' = [j \in Slots |-> n.wh[j]]
     /\ blk' = n.blk
     /\ cfg' = cfg
     /\ hist' = IF GEN THEN Append(hist, o @@ [k |-> k]) ELSE hist

Init == /\ cfg \in CONFIGS
        /\ mem = [x \in {} |-> 0] /\ wh = [j \in Slots |-> NONE] /\ blk = {} /\ viol = {} /\ hist = <<>>
Next == \E d \in Slots : \E o \in OpsFor(cfg, d) : /\ Emit(o)
                                                   /\ Canon(o)
                                                   /\ \E k \in 0..Points(o) : Call(o, k)
Spec == Init /\ [][Next]_vars

\* which call in which state: values and history are irrelevant for generation
Shape(loc) == IF loc \notin DOMAIN mem THEN "?" ELSE mem[loc].k
ShapeView == <<cfg, wh, [j \in Slots |-> IF wh[j] = NONE THEN "-" ELSE Shape(j)]>>

\* evaluated once per distinct state: print how to get there and what to ask there
QueryGen == (QUERIES # {} /\ Alive # {}) =>
              PrintT("QRY " \o ToJson([cfg |-> cfg, ops |-> hist, q |-> SetToSeq(QueryOps(QUERIES, LL(cfg), Alive, NV))]))
Contract == viol = {}
NeverEmpty == \A j \in Slots : wh[j] # NONE => j \in DOMAIN mem
===============================================================================
