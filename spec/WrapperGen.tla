------------------------------- MODULE WrapperGen -------------------------------
EXTENDS Wrapper, Json
CONSTANTS NS, DEPTH
VARIABLES P, h
vars == <<P, h>>
Dead == [l |-> 0, v |-> 0]
Calls == {[o |-> o, d |-> d, s |-> IF Uses(o) THEN s ELSE 0, x |-> IF o \in {"cvctor", "mvctor", "cvas", "mvas"} THEN Len(h) + 1 ELSE 0]
            : o \in Ctors \cup Assigns \cup Swaps \cup {"dtor"}, d \in 1..NS, s \in 1..NS}
Init == P = [i \in 1..NS |-> Dead] /\ h = <<>>
Next == /\ Len(h) < DEPTH
        /\ \E c \in Calls : /\ Enabled(P, c)
                            /\ \E r \in {"ok", "fault"} : P' \in After(P, c, r) /\ (r = "fault" => Len(h) + 1 = DEPTH)
                            /\ h' = Append(h, c)
                            /\ PrintT("WRP " \o ToJson(h'))
Spec == Init /\ [][Next]_vars
\* a live wrapper always holds something that some call put there, or is moved from
Sane == \A i \in 1..NS : P[i].l = 1 => P[i].v \in {UNSPEC, 0} \cup 1..Len(h)
Dead0 == \A i \in 1..NS : P[i].l = 0 => P[i] = Dead
=================================================================================
