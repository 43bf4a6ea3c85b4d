------------------------------- MODULE LayoutGen -------------------------------
(* Histories over lists of N alternatives; whether a call fails is decided by the *)
(* injected fault and the list, so both outcomes are explored.                    *)
EXTENDS Layout, Json, IOUtils
CONSTANTS N, DEPTH, KINDS
VARIABLES l, s, h
vars == <<l, s, h>>
Lists == [1..N -> {<<1, 1, k>> : k \in KINDS}]
Call(f, j, k) == [f |-> f, j |-> j - 1, k |-> k]
Init == /\ l \in Lists /\ \E j \in 1..N : s = [w |-> j, v |-> 1, inl |-> 1] /\ h = <<Call("ctor", j, 0)>>
Step(f, j, k) == /\ (k > 0 => MayFail(l, s, f, j))
                 /\ \E ok \in (IF k = 0 THEN {TRUE} ELSE BOOLEAN) : s' \in After(l, s, f, j, Len(h) + 1, ok)
                 /\ h' = Append(h, Call(f, j, k)) /\ l' = l
Next == /\ Len(h) < DEPTH + 1
        /\ \E f \in {"vas", "cas", "mas", "swap"}, j \in 1..N, k \in {0, 1, 2} : (f = "swap" => k = 0) /\ Step(f, j, k)
Spec == Init /\ [][Next]_vars
\* displaced content exists only without a fallback type, and only if something can fail
Displaced == s.inl = 0 => ~HasFallback(l) /\ \E j \in DOMAIN l : ~Quiet(l, j)
Valid == s.w \in DOMAIN l
Out == Len(h) = DEPTH + 1 => PrintT("HIS " \o ToJson([n |-> N, k |-> [i \in DOMAIN l |-> l[i][3]], h |-> h]))
View == <<l, h, s>>
===============================================================================
