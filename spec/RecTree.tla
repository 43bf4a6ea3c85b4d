------------------------------- MODULE RecTree -------------------------------
(* Recursive variants as values: trees, the operations on variables holding      *)
(* trees, and what each operation must leave behind.  A tree is <<alternative,   *)
(* own value, <<children>>, address>>; the address of a node's element (0: none) *)
(* is only used to see that no node is shared.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* tree types: for each alternative its arity (-1: any number of children) and whether the node carries a value of its own
N(ar, v) == [ar |-> ar, v |-> v]
Types == [vec |-> << N(0, TRUE), N(-1, FALSE) >>,
          bin |-> << N(0, TRUE), N(2, TRUE) >>,
          ovr |-> << N(0, TRUE), N(2, FALSE), N(-1, FALSE) >>,
          add |-> << N(2, TRUE), N(0, TRUE), N(1, TRUE) >>,
          map |-> << N(0, TRUE), N(-1, FALSE) >>,
          nst |-> << N(0, TRUE), N(-1, TRUE) >> ]
LeafAlt == [vec |-> 1, bin |-> 1, ovr |-> 1, add |-> 2, map |-> 1, nst |-> 1]
\* the alternatives that can grow (push)
Grows(t, a) == Types[t][a].ar = -1

Ch(T) == T[3]
RECURSIVE Strip(_)
Strip(T) == << T[1], T[2], [j \in DOMAIN Ch(T) |-> Strip(Ch(T)[j])] >>
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Size(_)
Size(T) == 1 + SumSeq([j \in DOMAIN Ch(T) |-> Size(Ch(T)[j])])
RECURSIVE Depth(_)
Depth(T) == IF Ch(T) = <<>> THEN 0 ELSE 1 + (CHOOSE m \in {Depth(Ch(T)[j]) : j \in DOMAIN Ch(T)} : \A j \in DOMAIN Ch(T) : Depth(Ch(T)[j]) <= m)
RECURSIVE Elems(_, _)                        \* instrumented elements of a tree of type t
Elems(t, T) == (IF t # "nst" /\ Types[t][T[1]].v THEN 1 ELSE IF t = "nst" /\ T[1] = 1 THEN 1 ELSE 0) + SumSeq([j \in DOMAIN Ch(T) |-> Elems(t, Ch(T)[j])])
RECURSIVE Addrs(_)
Addrs(T) == (IF T[4] = 0 THEN <<>> ELSE <<T[4]>>) \o
            LET RECURSIVE cat(_) cat(j) == IF j > Len(Ch(T)) THEN <<>> ELSE Addrs(Ch(T)[j]) \o cat(j + 1) IN cat(1)
RECURSIVE Complete(_, _)                     \* a tree of the type, every element alive
Complete(t, T) == /\ T[1] \in 1..Len(Types[t]) /\ T[2] # -99
                  /\ Types[t][T[1]].ar = -1 \/ Len(Ch(T)) = Types[t][T[1]].ar
                  /\ \A j \in DOMAIN Ch(T) : Complete(t, Ch(T)[j])
RECURSIVE At(_, _)
At(T, p) == IF p = <<>> THEN T ELSE At(Ch(T)[Head(p)], Tail(p))
RECURSIVE Put(_, _, _)
Put(T, p, U) == IF p = <<>> THEN U ELSE << T[1], T[2], [Ch(T) EXCEPT ![Head(p)] = Put(@, Tail(p), U)] >>
RECURSIVE Paths(_)
Paths(T) == {<<>>} \cup UNION {{<<j>> \o q : q \in Paths(Ch(T)[j])} : j \in DOMAIN Ch(T)}
\* equality and order of trees: alternative first, then own value, then children lexicographically
RECURSIVE TLt(_, _)
SeqLt(a, b) == \E n \in 0..Len(a) : /\ n <= Len(b) /\ (\A j \in 1..n : ~TLt(a[j], b[j]) /\ ~TLt(b[j], a[j]))
                                    /\ \/ n = Len(a) /\ n < Len(b)
                                       \/ n < Len(a) /\ n < Len(b) /\ TLt(a[n + 1], b[n + 1])
TLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ SeqLt(a[3], b[3]))))

Leaf(t, x) == << LeafAlt[t], x, <<>> >>
\* d = node of alternative a around (a copy of) U
Wrapped(t, a, U, x) == << a, IF Types[t][a].v THEN x ELSE 0,
                          CASE Types[t][a].ar = 2 -> << U, Leaf(t, x) >> [] Types[t][a].ar = 1 -> <<U>> [] OTHER -> <<U>> >>
Push(T, U) == << T[1], T[2], Append(Ch(T), U) >>
NoTree == << 0, 0, <<>> >>
\* result of operation o on the (stripped) trees of all variables, if nothing throws and nothing is moved from
Op(o, d, s, p, a, c, x) == [o |-> o, d |-> d, s |-> s, p |-> p, a |-> a, c |-> c, x |-> x]
Apply(t, S, o) ==
  CASE o.o \in {"cp", "as"} -> [S EXCEPT ![o.d] = S[o.s]]
    [] o.o = "sw" -> [S EXCEPT ![o.d] = S[o.s], ![o.s] = S[o.d]]
    [] o.o = "gr" -> [S EXCEPT ![o.d] = Put(S[o.d], o.p, S[o.s])]
    [] o.o \in {"ex", "ec"} -> [S EXCEPT ![o.d] = At(S[o.s], o.p)]
    [] o.o = "mu" -> [S EXCEPT ![o.d] = Put(S[o.d], o.p, << At(S[o.d], o.p)[1], o.x, Ch(At(S[o.d], o.p)) >>)]
    [] o.o = "lf" -> [S EXCEPT ![o.d] = Put(S[o.d], o.p, Leaf(t, o.x))]
    [] o.o = "wn" -> [S EXCEPT ![o.d] = Wrapped(t, o.a, S[o.s], o.x)]
    [] o.o = "ps" -> [S EXCEPT ![o.d] = Put(S[o.d], o.p, Push(At(S[o.d], o.p), S[o.s]))]
    [] o.o = "dt" -> [S EXCEPT ![o.d] = NoTree]
    [] OTHER -> S
Enabled(t, S, o) ==
  LET live(j) == j \in DOMAIN S /\ S[j] # NoTree IN
  CASE o.o \in {"cp"} -> ~live(o.d) /\ live(o.s)
    [] o.o = "as" -> live(o.d) /\ live(o.s) /\ (o.d # o.s \/ o.c < 2)
    [] o.o = "sw" -> live(o.d) /\ live(o.s)
    [] o.o = "gr" -> live(o.d) /\ live(o.s) /\ o.d # o.s /\ o.p \in Paths(S[o.d])
    [] o.o = "ex" -> live(o.d) /\ live(o.s) /\ o.d # o.s /\ o.p \in Paths(S[o.s])
    [] o.o = "ec" -> ~live(o.d) /\ live(o.s) /\ o.p \in Paths(S[o.s])
    [] o.o = "mu" -> live(o.d) /\ o.p \in Paths(S[o.d]) /\ Types[t][At(S[o.d], o.p)[1]].v
    [] o.o = "lf" -> live(o.d) /\ o.p \in Paths(S[o.d])
    [] o.o = "wn" -> ~live(o.d) /\ live(o.s) /\ o.a \in 1..Len(Types[t]) /\ o.a # LeafAlt[t]
    [] o.o = "ps" -> live(o.d) /\ live(o.s) /\ o.d # o.s /\ o.p \in Paths(S[o.d]) /\ Grows(t, At(S[o.d], o.p)[1])
    [] o.o = "dt" -> live(o.d)
    [] OTHER -> FALSE
\* operations that move from (part of) variable s: the path of the part
MovesFrom(o) == o.c = 2 /\ o.o \in {"cp", "as", "gr", "ex", "ec", "wn", "ps"}
MovedPath(o) == IF o.o \in {"ex", "ec"} THEN o.p ELSE <<>>
==============================================================================
