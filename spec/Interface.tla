------------------------------ MODULE Interface ------------------------------
(* Which programs against the interface are well formed.  A program is a record  *)
(* [f: family, ...]; Accept(p) says whether it has to compile.  InterfaceGen     *)
(* builds programs step by step and prints every complete one, the driver turns  *)
(* them into C++ and asks the compiler, InterfaceTrace compares.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* classes: A (derived from Bs), B, C unrelated; D derived from A
InList(l, u) == \E j \in DOMAIN l : l[j] = u
BaseOf(u, t) == u = t \/ <<u, t>> \in {<<"Bs", "A">>, <<"Bs", "D">>, <<"A", "D">>}
Lists == { <<"A">>, <<"A", "B">>, <<"B", "A">>, <<"A", "B", "C">> }
Cats == {"lv", "clv", "rv"}

\* ---- visitation: every alternative, reached through a variant of the given category, must bind to its handler
Handlers == {"none", "ref", "cref", "val", "rref"}
VCats == Cats \cup {"crv"}
Binds(h, cat) == CASE h = "none" -> FALSE
                   [] h = "ref"  -> cat = "lv"
                   [] h = "cref" -> TRUE
                   [] h = "val"  -> TRUE
                   [] h = "rref" -> cat = "rv"
                   [] h = "crref" -> cat \in {"rv", "crv"}
Visits == {[f |-> "visit", l |-> l, h |-> h, cat |-> c, st |-> s] : l \in {<<"A">>, <<"A", "B">>}, h \in (Handlers \X Handlers) \cup {<<x>> : x \in Handlers \cup {"crref"}}, c \in VCats, s \in {"sv", "gen"}}
VisitOK(p) == Len(p.h) = Len(p.l)
Long == {[f |-> "visit", l |-> <<"A", "B", "C">>, h |-> h, cat |-> c, st |-> s] : h \in {<<"cref", "cref", "cref">>, <<"none", "cref", "cref">>, <<"cref", "none", "cref">>, <<"cref", "cref", "none">>}, c \in Cats, s \in {"sv", "gen"}}
\* visitors whose call operator is (not) const, passed as an lvalue, const lvalue or temporary
VConst == {[f |-> "vconst", op |-> o, pass |-> q, cat |-> c] : o \in {"const", "mut"}, q \in {"lv", "clv", "tmp"}, c \in {"lv", "clv"}}
\* visitors of two and three variants over <A, B>: handlers for all combinations but the missing one
Multi == {[f |-> "multi", n |-> n, miss |-> m, cat |-> c] : n \in {2, 3}, m \in 0..8, c \in Cats}
MultiOK(p) == p.miss <= (IF p.n = 2 THEN 4 ELSE 8)
\* the same with operands of different categories, all handlers taking the n-th operand in the n-th way
Mixed2 == {[f |-> "mixed", h |-> <<h1, h2>>, c |-> <<c1, c2>>] : h1 \in Handlers \ {"none"}, h2 \in Handlers \ {"none"}, c1 \in Cats, c2 \in Cats}
Mixed3 == {[f |-> "mixed", h |-> h, c |-> <<c1, c2, c3>>] : h \in {<<x, "cref", "cref">> : x \in {"ref", "rref"}} \cup {<<"cref", x, "val">> : x \in {"ref", "rref"}} \cup {<<"val", "cref", x>> : x \in {"ref", "rref"}},
           c1 \in Cats, c2 \in Cats, c3 \in Cats}
\* delayed visitation: the visitor has to outlive the call, so it cannot be a temporary
Delays == {[f |-> "delay", op |-> o, pass |-> q, n |-> n, used |-> u] : o \in {"const", "mut"}, q \in {"lv", "clv", "tmp"}, n \in {1, 2, 3}, u \in BOOLEAN}
DelayAccept(p) == p.pass # "tmp" /\ (p.used /\ p.pass = "clv" => p.op = "const")
\* every public header is self-sufficient, under every configuration macro; std::hash is the library's unless it is told to leave it alone
Hdrs == {"variant.hpp", "variant/apply_visitor.hpp", "variant/bad_visit.hpp", "variant/get.hpp", "variant/multivisitors.hpp", "variant/polymorphic_get.hpp", "variant/recursive_variant.hpp",
         "variant/recursive_wrapper.hpp", "variant/recursive_wrapper_fwd.hpp", "variant/static_visitor.hpp", "variant/variant.hpp", "variant/variant_fwd.hpp", "variant/visitor_ptr.hpp"}
CfgMacros == {"", "-DBOOST_VARIANT_DO_NOT_SPECIALIZE_STD_HASH", "-DBOOST_NO_IOSTREAM", "-fno-exceptions", "-DBOOST_VARIANT_MINIMIZE_SIZE", "-DBOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT"}
Headers == {[f |-> "hdr", h |-> h, m |-> m, u |-> "alone"] : h \in Hdrs, m \in CfgMacros}
           \cup {[f |-> "hdr", h |-> "variant.hpp", m |-> m, u |-> u] : m \in CfgMacros, u \in {"stdhash", "boosthash", "io"}}
           \cup {[f |-> "hdr", h |-> "variant.hpp", m |-> "-DBOOST_VARIANT_DO_NOT_SPECIALIZE_STD_HASH", u |-> "ownhash"]}
HdrAccept(p) == CASE p.u = "stdhash" -> p.m # "-DBOOST_VARIANT_DO_NOT_SPECIALIZE_STD_HASH"
                  [] p.u = "io" -> p.m # "-DBOOST_NO_IOSTREAM"
                  [] OTHER -> TRUE
\* a static_visitor<int> one of whose handlers returns something else
VRet == {[f |-> "vret", l |-> <<"A", "B">>, bad |-> b, cat |-> c] : b \in 0..2, c \in {"lv", "clv"}}
\* the k-th of 20 alternatives is not handled (0: all are)
VLong == {[f |-> "vlong", miss |-> m] : m \in {0, 1, 10, 11, 20}}

\* ---- get: strict forms reject a type that is not in the list, polymorphic ones one that is neither in it nor a base of one in it
GetFns == {"get", "strict_get", "relaxed_get", "polymorphic_get", "polymorphic_strict_get", "polymorphic_relaxed_get"}
Poly(fn) == fn \in {"polymorphic_get", "polymorphic_strict_get", "polymorphic_relaxed_get"}
Operands == {"lv", "clv", "ptr", "cptr", "rv"}
Gets == {[f |-> "get", fn |-> fn, l |-> l, u |-> u, o |-> o] : fn \in GetFns, l \in Lists, u \in {"A", "B", "C", "D", "Bs"}, o \in Operands}
GetOK(p) == ~(Poly(p.fn) /\ p.o = "rv")
GetAccept(p) == CASE p.fn \in {"relaxed_get", "polymorphic_relaxed_get"} -> TRUE
                  [] p.fn \in {"get", "strict_get"} -> InList(p.l, p.u)
                  [] OTHER -> \E j \in DOMAIN p.l : BaseOf(p.u, p.l[j])
\* the same with BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT: the unqualified forms are relaxed, the strict ones stay strict
RGets == {[f |-> "rget", fn |-> fn, l |-> l, u |-> u, o |-> o] : fn \in GetFns, l \in {<<"A", "B">>}, u \in {"A", "C", "Bs"}, o \in Operands}
RGetAccept(p) == p.fn \in {"get", "polymorphic_get"} \/ GetAccept(p)
\* what the result of get<A> can be bound to
Binds2 == {[f |-> "bind", fn |-> fn, o |-> o, to |-> t] : fn \in {"get", "strict_get", "relaxed_get", "polymorphic_get"}, o \in Operands, t \in {"ref", "cref", "rref", "p", "cp", "amp"}}
BindOK(p) == /\ (p.o \in {"ptr", "cptr"}) = (p.to \in {"p", "cp"})
             /\ ~(Poly(p.fn) /\ p.o = "rv") /\ (p.to = "amp" => p.o = "rv" /\ p.fn # "relaxed_get")
BindAccept(p) == CASE p.to = "cref" \/ p.to = "cp" -> TRUE
                   [] p.to = "ref" -> p.o = "lv"
                   [] p.to = "rref" -> p.o = "rv"
                   [] p.to = "p" -> p.o = "ptr"
                   [] OTHER -> FALSE                 \* get<A&> of an rvalue

\* ---- comparison: only with the same variant type; equality needs ==, order needs <
CmpOps == {"==", "!=", "<", ">", "<=", ">="}
\* u: the result is used, not used, or the operands are exchanged
Cmps == {[f |-> "cmp", op |-> o, rhs |-> r, u |-> u] : o \in CmpOps, r \in {"same", "bounded", "other", "foreign", "foreign-sub", "noops", "eqonly", "ltonly", "int"}, u \in {"used", "unused", "left"}}
CmpAccept(p) == CASE p.rhs = "same" -> TRUE
                  [] p.rhs = "eqonly" -> p.op \in {"==", "!="}
                  [] p.rhs = "ltonly" -> p.op \notin {"==", "!="}
                  [] OTHER -> FALSE

\* ---- special members: <A, t> or <t, A>
\* c copy constructible, m move constructible, a copy assignable, b move assignable, d default constructible
Feat == [B |-> [c |-> TRUE, m |-> TRUE, a |-> TRUE, b |-> TRUE, d |-> TRUE],
         M |-> [c |-> FALSE, m |-> TRUE, a |-> FALSE, b |-> TRUE, d |-> TRUE],        \* move only
         Q |-> [c |-> TRUE, m |-> TRUE, a |-> FALSE, b |-> FALSE, d |-> TRUE],        \* not assignable
         K |-> [c |-> TRUE, m |-> TRUE, a |-> FALSE, b |-> FALSE, d |-> TRUE],        \* const B
         R |-> [c |-> TRUE, m |-> TRUE, a |-> FALSE, b |-> FALSE, d |-> FALSE],       \* B&
         Nd |-> [c |-> TRUE, m |-> TRUE, a |-> TRUE, b |-> TRUE, d |-> FALSE],        \* not default constructible
         W |-> [c |-> TRUE, m |-> TRUE, a |-> TRUE, b |-> TRUE, d |-> TRUE]]          \* recursive_wrapper<B>
Specs == {[f |-> "special", t |-> t, first |-> q, op |-> o] : t \in DOMAIN Feat, q \in BOOLEAN,
          o \in {"cctor", "mctor", "casg", "masg", "vasg", "swap", "dctor", "vctor", "visit", "unused"}}
SpecAccept(p) == LET e == Feat[p.t] IN
  CASE p.op = "cctor" -> e.c
    [] p.op = "mctor" -> e.m
    [] p.op = "casg" -> e.c /\ e.a
    [] p.op = "masg" -> e.m /\ e.b
    [] p.op = "vasg" -> e.m /\ e.b
    [] p.op = "swap" -> e.m /\ e.b
    [] p.op = "dctor" -> p.first => e.d
    [] OTHER -> TRUE

\* ---- output and hashing need the operation for every alternative, but only where used
Uses == {[f |-> "use", op |-> o, l |-> l, used |-> q] : o \in {"io", "hash"}, l \in {<<"ok", "ok">>, <<"ok", "no">>, <<"no", "ok">>}, q \in BOOLEAN}
UseAccept(p) == ~p.used \/ \A j \in DOMAIN p.l : p.l[j] = "ok"

\* ---- construction from and assignment of something no alternative accepts, without evaluating: see ConversionTrace for traits
Makes == {[f |-> "make", l |-> l, a |-> a, op |-> o] : l \in Lists, a \in {"A", "B", "C", "D", "none"}, o \in {"ctor", "asg", "implicit", "arg"}}
MakeAccept(p) == p.a # "none" /\ \E j \in DOMAIN p.l : BaseOf(p.l[j], p.a)
FMakes == {[f |-> "fmake", l |-> l, s |-> s, op |-> o, cat |-> c] : l \in Lists, s \in {<<"A", "B">>, <<"B", "A">>, <<"A", "C">>, <<"D", "B">>, <<"D">>, <<"C">>}, o \in {"ctor", "asg"}, c \in Cats}
FMakeAccept(p) == \A j \in DOMAIN p.s : \E i \in DOMAIN p.l : BaseOf(p.l[i], p.s[j])

Programs == {p \in Visits : VisitOK(p)} \cup Long \cup VConst \cup {p \in Multi : MultiOK(p)} \cup VRet \cup VLong \cup Mixed2 \cup Mixed3 \cup Delays \cup Headers
            \cup {p \in Gets \cup RGets : GetOK(p)} \cup {p \in Binds2 : BindOK(p)} \cup Cmps \cup Specs \cup Uses \cup Makes \cup FMakes
Accept(p) ==
  CASE p.f = "visit" -> \A j \in DOMAIN p.l : Binds(p.h[j], p.cat)
    [] p.f = "vconst" -> p.op = "const" \/ p.pass = "lv"
    [] p.f = "multi" -> p.miss = 0
    [] p.f = "mixed" -> \A j \in DOMAIN p.h : Binds(p.h[j], p.c[j])
    [] p.f = "delay" -> DelayAccept(p)
    [] p.f = "hdr" -> HdrAccept(p)
    [] p.f = "vret" -> p.bad = 0
    [] p.f = "vlong" -> p.miss = 0
    [] p.f = "get" -> GetAccept(p)
    [] p.f = "rget" -> RGetAccept(p)
    [] p.f = "bind" -> BindAccept(p)
    [] p.f = "cmp" -> CmpAccept(p)
    [] p.f = "special" -> SpecAccept(p)
    [] p.f = "use" -> UseAccept(p)
    [] p.f = "make" -> MakeAccept(p)
    [] p.f = "fmake" -> FMakeAccept(p)
==============================================================================
