---------------------------- MODULE VariantContract ----------------------------
(* The contract of boost::variant's value operations, as a relation between the  *)
(* observable state before a call (P), the call with its outcome and the element *)
(* operations it performed (o), and the observable state after it (Q).           *)
(*                                                                               *)
(* StepViol(K, P, o, Q) is the set of <<property, clause>> pairs that the step   *)
(* breaks; the empty set means the step is allowed.  The same operator judges    *)
(* the implementation-shaped model (VariantImpl) and recorded executions of the  *)
(* real code (VariantTrace).                                                     *)
(*                                                                               *)
(* Slot observation: [w |-> -1] if no variant is alive there, else               *)
(*   w which(); t/u type tag seen by a const / non-const visit; v value;         *)
(*   s serial number of the content object; a/b its address (const/non-const     *)
(*   visit); ga address by get; i 1 iff inside the variant; q 1 iff aligned;     *)
(*   ok 1 iff the object is alive and undamaged; e empty(); g tags for which get *)
(*   succeeds; y tags whose type_info equals type().                             *)
(* Call: o name, d target slot, s source slot (0: none), w alternative index,    *)
(*   x value, c value category (0 lvalue, 1 const lvalue, 2 rvalue, 3 const      *)
(*   rvalue), r outcome (ok/fault/alloc/other), na allocations, xv value of the  *)
(*   argument object afterwards, ev element events <<kind, addr, tag, src>>.     *)
EXTENDS VariantConfigs, SequencesExt, FiniteSetsExt

Ctors   == {"dctor", "vctor", "xctor", "cctor", "mctor", "fctor"}
Assigns == {"cas", "mas", "vas", "xas", "fas"}

Live(s) == s.w # -1
SameVal(p, q) == Live(p) /\ Live(q) /\ p.w = q.w /\ p.t = q.t /\ p.v = q.v
SameObj(p, q) == SameVal(p, q) /\ p.s = q.s /\ p.a = q.a
Unchanged(p, q) == (~Live(p) /\ ~Live(q)) \/ SameObj(p, q)

Chk(cond, props, name) == IF cond THEN {} ELSE {<<p, name>> : p \in props}

\* ------------------------------------------------------------------ one slot
\* which(), type(), visitation, get and empty() describe one live object of one bounded type
SlotViol(L, s) ==
  IF ~Live(s) THEN {}
  ELSE IF ~(s.w \in 0..(L.n - 1)) THEN {<<"C01", "which-out-of-range">>}
  ELSE LET t == TagAt(L, s.w + 1) IN
       Chk(s.t = t, {"C01", "C06"}, "visit-type-differs-from-which")
  \cup Chk(s.u = s.t /\ s.a = s.b, {"C01", "C06"}, "const-and-nonconst-visit-differ")
  \cup Chk(s.ok = 1, {"C01", "C03"}, "content-not-a-live-object")
  \cup Chk(s.y = <<t>>, {"C01"}, "type-differs-from-which")
  \cup Chk(s.g = <<t>>, {"C01", "C08"}, "get-differs-from-which")
  \cup Chk(s.ga = s.a, {"C01", "C08"}, "get-designates-another-object")
  \cup Chk(s.e = 0, {"C01"}, "empty-true")
  \cup Chk(s.q = 1, {"C15"}, "content-misaligned")
  \cup Chk(s.f = 1, {"C15"}, "content-extends-beyond-the-variant")
  \cup Chk(s.ok = 1, {"C15"}, "content-damaged")

Displaced(L, s) == Live(s) /\ s.i = 0 /\ HasTag(L, s.t) /\ ~Wrapped(L, s.t)

\* ------------------------------------------------------------------ object lifetime
Owned(s) == IF Live(s) /\ s.s # 0 THEN {<<s.a, s.t>>} ELSE {}
OwnedBy(S) == UNION {Owned(S[i]) : i \in 1..Len(S)}
LiveAt(lv, a) == \E x \in lv : x[1] = a
\* accumulator: [lv |-> live objects, bad |-> names of violated rules]
LedgerStep(acc, e) ==
  LET k == e[1]  a == e[2]  t == e[3]  src == e[4]  lv == acc.lv IN
  CASE k = "x" -> acc
    [] k \in {"c", "k", "m"} ->
         [lv  |-> lv \cup {<<a, t>>},
          bad |-> acc.bad \cup (IF LiveAt(lv, a) THEN {"constructed-over-a-live-object"} ELSE {})
                          \cup (IF k # "c" /\ <<src, t>> \notin lv THEN {"read-of-a-dead-object"} ELSE {})]
    [] k \in {"a", "v"} ->
         [lv  |-> lv,
          bad |-> acc.bad \cup (IF <<a, t>> \notin lv THEN {"assignment-to-a-dead-object"} ELSE {})
                          \cup (IF <<src, t>> \notin lv THEN {"read-of-a-dead-object"} ELSE {})]
    [] k = "d" ->
         [lv  |-> lv \ {<<a, t>>},
          bad |-> acc.bad \cup (IF <<a, t>> \notin lv THEN {"destroyed-a-dead-object"} ELSE {})]
    [] OTHER -> [lv |-> lv, bad |-> acc.bad \cup {"unknown-event"}]
Ledger(lv0, ev) == FoldLeft(LedgerStep, [lv |-> lv0, bad |-> {}], ev)
LedgerViol(P, ev, Q) ==
  LET r == Ledger(OwnedBy(P), ev) IN
       {<<"C03", b>> : b \in r.bad}
  \cup Chk(r.lv \subseteq OwnedBy(Q), {"C03"}, "object-outlives-its-owner")
  \cup Chk(OwnedBy(Q) \subseteq r.lv, {"C03", "C01"}, "content-was-never-constructed-or-already-destroyed")

\* ------------------------------------------------------------------ one call
Threw(o, tag) == \E i \in 1..Len(o.ev) : o.ev[i][1] = "x" /\ o.ev[i][3] = tag
Copied(o, t)  == \E i \in 1..Len(o.ev) : o.ev[i][1] \in {"k", "a"} /\ o.ev[i][3] = t
CopiedFrom(o, a) == a # 0 /\ \E i \in 1..Len(o.ev) : o.ev[i][1] \in {"k", "a"} /\ o.ev[i][4] = a
ArgAddr(o)    == IF Len(o.ev) > 0 /\ o.ev[1][1] = "c" THEN o.ev[1][2] ELSE 0      \* the argument is created first
AssignedAt(o, a) == \E i \in 1..Len(o.ev) : o.ev[i][1] \in {"a", "v"} /\ o.ev[i][2] = a

IsMove(o) == o.o \in {"mctor", "mas"} \/ (o.o \in {"vctor", "vas", "fctor", "fas"} /\ o.c = 2)
IsCopyOfSlot(o) == o.o \in {"cctor", "cas"} \/ (o.o \in {"fctor", "fas"} /\ o.c # 2)
HasArg(o) == o.o \in {"vctor", "vas"}

\* the alternative and value that a successful call must store in slot d
Expected(L, o, ps) ==
  CASE o.o = "dctor" -> [t |-> TagAt(L, 1), v |-> DEFVAL]
    [] o.o \in {"vctor", "vas", "xctor", "xas"} ->
         [t |-> TagAt(L, o.w + 1), v |-> IF IsBlank(L, o.w + 1) THEN DEFVAL ELSE o.x]
    [] OTHER -> [t |-> ps.t, v |-> ps.v]

ValueProps(o) ==
  CASE o.o \in {"cctor", "mctor", "cas", "mas"} -> {"C04"}
    [] o.o = "dctor" -> {"C04", "C11"}
    [] OTHER -> {"C04", "C11"}

\* exceptions: exactly those thrown by elements or the allocator, unchanged
ExcViol(o) ==
  LET own == IF o.o \in Assigns \cup Ctors THEN {"C02", "C04"} ELSE IF o.o = "swap" THEN {"C05", "C02"} ELSE {"C01"} IN
       Chk(o.r = "ok" => ~Threw(o, 0) /\ ~Threw(o, 1), {"C02"}, "exception-swallowed")
  \cup Chk(o.r = "fault" => Threw(o, 0), {"C02"}, "exception-replaced")
  \cup Chk(o.r = "alloc" => Threw(o, 1), {"C02"}, "exception-replaced")
  \cup Chk(o.r # "other", own, "unexpected-exception")

CtorViol(L, P, o, Q) ==
  LET ps == IF o.s = 0 THEN [w |-> -1] ELSE P[o.s]
      exp == Expected(L, o, ps)
      qd == Q[o.d]
  IN IF o.r # "ok" THEN Chk(~Live(qd), {"C02"}, "failed-construction-left-a-variant")
     ELSE Chk(Live(qd), {"C01"}, "no-variant-constructed")
       \cup (IF ~Live(qd) THEN {} ELSE
                Chk(qd.t = exp.t /\ qd.v = exp.v, ValueProps(o), "constructed-value")
           \cup Chk(qd.w = IndexOf(L, exp.t) - 1, {"C01"} \cup ValueProps(o), "constructed-alternative")
           \cup Chk(~Displaced(L, qd), {"C15"}, "constructed-outside-the-variant"))
       \cup Chk(AnyWrap(L) \/ o.na = 0, {"C15"}, "construction-allocates")

\* is the source of a copying operation intact, the source of a move still valid?
SourceViol(LS, P, o, Q) ==
     (IF IsCopyOfSlot(o) /\ o.s # o.d
      THEN Chk(SameObj(P[o.s], Q[o.s]), {"C04", "C02"}, "copy-source-changed") ELSE {})
  \cup (IF IsMove(o) /\ o.s # 0 /\ o.s # o.d
      THEN Chk(Live(Q[o.s]) /\ Q[o.s].t = P[o.s].t /\ Q[o.s].w = P[o.s].w, {"C04", "C01"}, "moved-from-variant-changed-alternative")
      ELSE {})
  \cup (IF HasArg(o) /\ o.c # 2
      THEN Chk(o.xv = (IF IsBlank(LS, o.w + 1) THEN DEFVAL ELSE o.x), {"C04", "C02"}, "argument-changed") ELSE {})

NoCopyViol(L, P, o) ==
  IF ~IsMove(o) THEN {}
  ELSE LET t == IF HasArg(o) THEN TagAt(L, o.w + 1) ELSE P[o.s].t IN
       (IF HasTag(L, t) /\ Stored(L, t).nm /\ (o.o \in Assigns => Stored(L, t).nma)
        THEN Chk(~Copied(o, t), {"C04"}, "nothrow-movable-content-was-copied") ELSE {})
       \* whatever the move may throw: construction never copies, conversion never copies from what it was given
       \cup (IF o.r = "ok" /\ HasTag(L, t) /\ Cls(L, t).hm
             THEN      Chk(o.o \in Ctors => ~Copied(o, t), {"C04"} \cup (IF o.o = "mctor" THEN {} ELSE {"C11"}), "moved-content-was-copied")
                  \cup Chk(o.o \in {"fas", "vas"} => ~CopiedFrom(o, IF o.o = "fas" THEN P[o.s].a ELSE ArgAddr(o)), {"C11"}, "moved-content-was-copied")
             ELSE {})

AssignViol(L, P, o, Q) ==
  LET pd == P[o.d]  qd == Q[o.d]
      ps == IF o.s = 0 THEN [w |-> -1] ELSE P[o.s]
      exp == Expected(L, o, ps)
      fb == Fallback(L)
      self == o.s = o.d
      incoming == NothrowIn(L, exp.t)
      inplace == pd.t = exp.t /\ Cls(L, exp.t) # ClassAttr["blank"]
                 /\ (   (o.o \in {"cas", "mas"} /\ pd.i = 1 /\ ps.i = 1)
                     \/ o.o = "vas")
      isfb == /\ fb # 0 /\ exp.t # pd.t /\ ~incoming
              /\ qd.w = fb - 1 /\ qd.t = TagAt(L, fb) /\ qd.v = DEFVAL
  IN IF ~Live(qd) THEN {<<"C01", "assignment-left-no-variant">>}
     ELSE IF o.r = "ok" THEN
            Chk(qd.t = exp.t /\ qd.w = IndexOf(L, exp.t) - 1, ValueProps(o), "assigned-alternative")
       \cup Chk((self /\ o.o = "mas") \/ qd.v = exp.v, ValueProps(o), "assigned-value")
       \cup Chk(inplace => qd.s = pd.s /\ qd.a = pd.a /\ AssignedAt(o, pd.a), {"C04"}, "not-assigned-into-the-existing-object")
       \cup Chk(pd.t # qd.t => ~Displaced(L, qd), {"C15"}, "new-content-outside-the-variant")
       \cup Chk((~AnyWrap(L) /\ (fb # 0 \/ incoming \/ inplace)) => o.na = 0, {"C15"}, "assignment-allocates")
     ELSE   Chk(SameVal(pd, qd) \/ isfb, {"C02"}, "failed-assignment-lost-the-value")
       \cup Chk(incoming \/ pd.t = exp.t => SameVal(pd, qd), {"C14", "C02"}, "old-value-given-up-before-a-failure")
       \cup Chk((~AnyWrap(L) /\ (fb # 0 \/ incoming)) => o.na = 0 /\ qd.i = pd.i, {"C15"}, "assignment-allocates")

SwapViol(L, P, o, Q) ==
  LET pd == P[o.d]  qd == Q[o.d]  ps == P[o.s]  qs == Q[o.s]
      fbt == IF Fallback(L) = 0 THEN {} ELSE {TagAt(L, Fallback(L))}
      eq(p, q) == p.w = q.w /\ p.t = q.t /\ p.v = q.v
  IN IF ~Live(qd) \/ ~Live(qs) THEN {<<"C01", "swap-left-no-variant">>, <<"C05", "swap-left-no-variant">>}
     ELSE IF o.r = "ok"
          THEN Chk(eq(ps, qd) /\ eq(pd, qs), {"C05"}, "contents-not-exchanged")
          \cup Chk((~AnyWrap(L) /\ (\A t \in {pd.t, ps.t} : NothrowIn(L, t))) => o.na = 0, {"C15"}, "swap-allocates")
          ELSE Chk({qd.t, qs.t} \subseteq {pd.t, ps.t} \cup fbt, {"C02", "C05"}, "failed-swap-invalid-alternative")
          \cup Chk(pd.t = ps.t => qd.t = pd.t /\ qs.t = ps.t, {"C02", "C05"}, "failed-swap-changed-alternative")

MutViol(P, o, Q) ==
  LET pd == P[o.d]  qd == Q[o.d] IN
  Chk(o.r = "ok" => Live(qd) /\ qd.w = pd.w /\ qd.t = pd.t /\ qd.s = pd.s /\ qd.a = pd.a
                    /\ (qd.v = (IF pd.s = 0 THEN DEFVAL ELSE o.x)), {"C06", "C08", "C01"}, "change-through-visit-or-get-not-visible")

BystanderViol(P, o, Q) ==
  LET ch == {i \in 1..Len(P) : i # o.d /\ i # o.s /\ ~Unchanged(P[i], Q[i])} IN
  Chk(ch = {}, {"C01", "C04"} \cup (IF o.o = "swap" THEN {"C05"} ELSE {}), "bystander-changed")

\* content may leave the variant's own storage only to preserve it across a failed assignment
DisplacementViol(LL, P, o, Q) ==
  UNION { LET L == LL[i] IN
          IF ~Displaced(L, Q[i]) THEN {}
          ELSE Chk(Fallback(L) = 0, {"C15"}, "displaced-although-a-fallback-type-exists")
          \cup Chk(/\ Live(P[i]) /\ P[i].t = Q[i].t
                   /\ (Displaced(L, P[i]) \/ (o.r # "ok" /\ o.o \in Assigns \cup {"swap"} /\ i \in {o.d, o.s})),
                   {"C15"}, "displaced-without-a-failure")
        : i \in 1..Len(Q) }

\* after the call, the operands must hold live objects: which promise that breaks depends on the call
OpProps(o) ==
  IF o.r # "ok" THEN (IF o.o \in Assigns \cup {"swap"} THEN {"C02"} ELSE {})
  ELSE CASE o.o = "swap" -> {"C05"}
         [] o.o \in Ctors \cup Assigns -> ValueProps(o)
         [] OTHER -> {}
DeadOperandViol(P, o, Q) ==
  LET r == Ledger(OwnedBy(P), o.ev)
      dead(i) == i # 0 /\ Live(Q[i]) /\ (Q[i].ok # 1 \/ ~(Owned(Q[i]) \subseteq r.lv)) IN
  Chk(~dead(o.d) /\ ~dead(o.s), OpProps(o), "operand-holds-a-dead-object")

\* LL: type list of each slot
StepViol(LL, P, o, Q) ==
  LET L == LL[o.d] IN
       ExcViol(o)
  \cup UNION {SlotViol(LL[i], Q[i]) : i \in 1..Len(Q)}
  \cup LedgerViol(P, o.ev, Q)
  \cup DeadOperandViol(P, o, Q)
  \cup BystanderViol(P, o, Q)
  \cup DisplacementViol(LL, P, o, Q)
  \cup (CASE o.o \in Ctors   -> CtorViol(L, P, o, Q) \cup SourceViol(L, P, o, Q) \cup NoCopyViol(L, P, o)
          [] o.o \in Assigns -> AssignViol(L, P, o, Q) \cup SourceViol(L, P, o, Q) \cup NoCopyViol(L, P, o)
          [] o.o = "swap"    -> SwapViol(L, P, o, Q)
          [] o.o = "mut"     -> MutViol(P, o, Q)
          [] o.o = "dtor"    -> Chk(o.r = "ok", {"C14"}, "destructor-threw")
          [] OTHER           -> {<<"C00", "unknown-operation">>})
===============================================================================
