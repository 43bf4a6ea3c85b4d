---------------------------- MODULE FunctionVisitor ----------------------------
(* visitor_ptr: a function over one type as a visitor.  The variant is a machine    *)
(* with one component, its content's type; a visit with a function over type t      *)
(* calls the function with the content if the content is exactly of type t (and may  *)
(* be bound to the parameter), otherwise fails with bad_visit.  That values of one   *)
(* type convert to another, or that classes are related, makes no difference.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Contents == {"int", "short", "long", "double", "char", "bool", "base", "derived", "fromint", "toint", "string", "cptr"}
Asked == Contents \cup {"float", "unsigned", "other"}        \* also types that are no alternatives
Params == {"val", "cref", "ref"}
Results == {"int", "void", "ref", "move"}
Vars == {"lv", "clv", "rv"}
\* which types convert implicitly to which, as far as it makes the question interesting (not used by Called)
Hit(c, t, p, v) == c = t /\ (p = "ref" => v = "lv")
Calls == [t : Asked, p : Params, r : Results, v : Vars, th : {0, 1}]
Outcome(c, q) == IF ~Hit(c, q.t, q.p, q.v) THEN [r |-> "bad_visit", n |-> 0]
                 ELSE [r |-> IF q.th = 1 THEN "fault" ELSE "ok", n |-> 1]
================================================================================
