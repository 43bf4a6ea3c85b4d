----------------------------- MODULE InterfaceGen -----------------------------
EXTENDS Interface, Json
VARIABLES prog, done
vars == <<prog, done>>
Init == prog \in Programs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ prog' = prog /\ PrintT("PRG " \o ToJson([p |-> prog, ok |-> Accept(prog)]))
Spec == Init /\ [][Next]_vars
\* monotone: handling more alternatives never makes a visitor unacceptable
MoreHandlers == prog.f = "visit" => \A j \in DOMAIN prog.h : prog.h[j] = "none" => ~Accept(prog)
\* what is rejected for a non-const operand is rejected for a const one
ConstWorse == prog.f = "visit" /\ prog.cat = "clv" /\ Accept(prog) => Accept([prog EXCEPT !.cat = "lv"])
StrictInRelaxed == prog.f = "get" /\ Accept(prog) => Accept([prog EXCEPT !.fn = "relaxed_get"])
StrictInPoly == prog.f = "get" /\ prog.fn = "strict_get" /\ Accept(prog) => Accept([prog EXCEPT !.fn = "polymorphic_get"])
==============================================================================
