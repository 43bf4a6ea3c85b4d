---------------------------- MODULE ConversionGen ----------------------------
(* State machine of a variant that is assigned converted values: the type list,  *)
(* the alternative held.  Explored exhaustively over LISTS; prints every edge    *)
(* (EDGE) and, per list, the foreign variants usable as a source (FOR).          *)
EXTENDS Conversion, Json, IOUtils, SequencesExt
CONSTANTS PAIRS, FROMFILE
Lists == {<<a, b>> \in PAIRS \X PAIRS : a # b} \cup (IF FROMFILE THEN ToSet(ndJsonDeserialize(IOEnv.LISTS)) ELSE {})
VARIABLES list, held
vars == <<list, held>>
Foreign(l) == {<<a, c>> \in (Usable(l) \ {"A"}) \X (Usable(l) \ {"A"}) : a # c}
Init == /\ list \in Lists /\ held = 0
        /\ PrintT("FOR " \o ToJson([l |-> list, f |-> SetToSeq(Foreign(list))]))
Store(a) == /\ PrintT("EDGE " \o ToJson([l |-> list, h |-> held, a |-> a, w |-> Winner(list, a)]))
            /\ held' = Winner(list, a) /\ list' = list
Next == \E a \in Usable(list) : Store(a)
Spec == Init /\ [][Next]_vars
TypeOK == held \in 0..Len(list)
\* every alternative can be stored as itself, and every alternative is reachable
ExactWins == \A j \in 1..Len(list) : Winner(list, list[j]) = j
\* a better match is never displaced by adding an alternative that ranks worse
Stable == \A a \in ArgTypes : Winner(list, a) # 0 => \A j \in 1..Len(list) : Rank(a, list[Winner(list, a)]) <= Rank(a, list[j])
===============================================================================
