------------------------------ MODULE Conversion ------------------------------
(* Converting construction and assignment: a model of C++ overload resolution    *)
(* among one function per bounded type, over a universe of scalar, pointer and   *)
(* class types, and the state machine of a variant that is assigned converted    *)
(* values.  State: a type list and the alternative currently held; actions:      *)
(* construction from, and assignment of, a value of each argument type for which *)
(* overload resolution has a unique winner, or of a foreign variant all of whose *)
(* alternatives have one.  TLC prints every edge; the generated driver performs  *)
(* it with every value category.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* b bool, c char, s short, i int, u unsigned, l long, f float, d double, P const char*, S std::string, e enum,
\* B Base*, D Derived*, X class with X(int), Y class with operator int, Z class with Z(std::string), A char array (argument only),
\* N variant<int, std::string> as a bounded type of its own
Arith  == {"b", "c", "s", "i", "u", "l", "f", "d"}
AltTypes == Arith \cup {"P", "S", "e", "B", "D", "X", "Y", "Z", "N"}
ArgTypes == AltTypes \cup {"A"}
NONE == 999

NList == <<"i", "S">>                                            \* the bounded types of N
\* lower is better; equal ranks of different targets make the call ambiguous
Rank0(a, t) ==
  CASE a = t -> 0
    [] a = "A" -> CASE t = "P" -> 0 [] t = "b" -> 3 [] t = "S" -> 50 [] OTHER -> NONE
    [] a \in Arith /\ t \in Arith ->
         IF (a \in {"b", "c", "s"} /\ t = "i") \/ (a = "f" /\ t = "d") THEN 1 ELSE 2
    [] a = "e" /\ t \in Arith -> IF t = "i" THEN 1 ELSE 2
    [] a \in Arith \cup {"e"} /\ t = "X" -> 50
    [] a = "P" -> CASE t = "b" -> 3 [] t = "S" -> 50 [] OTHER -> NONE
    [] a \in {"B", "D"} -> CASE a = "D" /\ t = "B" -> 2 [] t = "b" -> 3 [] OTHER -> NONE
    [] a = "Y" /\ t \in Arith -> IF t = "i" THEN 50 ELSE 52      \* the same conversion function, then a standard conversion
    [] a = "S" /\ t = "Z" -> 50
    [] OTHER -> NONE

WinnerOf(rk(_, _), list, a) ==
  LET D == 1..Len(list)
      best == CHOOSE r \in {rk(a, list[j]) : j \in D} : \A j \in D : r <= rk(a, list[j])
      W == {j \in D : rk(a, list[j]) = best}
  IN IF best = NONE \/ Cardinality(W) # 1 THEN 0 ELSE CHOOSE j \in W : TRUE
\* anything some alternative of N accepts converts to N by its (user-defined) converting constructor
Rank(a, t) == IF t = "N" /\ a # "N" THEN (IF \E j \in DOMAIN NList : Rank0(a, NList[j]) # NONE THEN 50 ELSE NONE) ELSE Rank0(a, t)
\* index of the winner in list, 0 if none or ambiguous
Winner(list, a) == IF a = "Y" /\ (\E j \in DOMAIN list : list[j] = "N") /\ (\A j \in DOMAIN list : list[j] # "Y") THEN 0 ELSE WinnerOf(Rank, list, a)
Usable(list) == {a \in ArgTypes : Winner(list, a) # 0 /\ (list[Winner(list, a)] # "N" \/ a = "N" \/ WinnerOf(Rank0, NList, a) # 0)}
\* alternative held inside a stored N (0: not inside); an N given as the argument holds an int
Inner(a, t) == IF t # "N" THEN 0 ELSE IF a = "N" THEN 1 ELSE WinnerOf(Rank0, NList, a)
\* the value stored: 7 everywhere, except that bool holds 1
ConvVal(a, t) == IF a = "b" \/ t = "b" THEN 1 ELSE 7
\* number of conversions into the tracked classes X and Z, which must happen exactly once
ConvCount(a, t) == IF t \in {"X", "Z"} /\ a # t THEN 1 ELSE 0
===============================================================================
