---------------------------- MODULE VariantConfigs ----------------------------
(* The type lists under study.  A bounded type is abstracted to the guarantees  *)
(* its special members give (nothrow or not, present or not), because those are *)
(* what boost::variant's strategy selection depends on.  The harness generates  *)
(* its C++ types from these records, and the trace specification checks that    *)
(* the compiler agrees with the attributes assumed here.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Attr(nc, nm, nca, nma, nd, hc, hm, hd) ==
  [nc |-> nc, nm |-> nm, nca |-> nca, nma |-> nma, nd |-> nd, hc |-> hc, hm |-> hm, hd |-> hd]

T == TRUE
F == FALSE
\* nc/nm: nothrow copy/move construction, nca/nma: assignment, nd: default construction; h*: declared at all
ClassAttr ==
  [ EN  |-> Attr(T, T, T, T, F, T, T, F),
    ENd |-> Attr(T, T, T, T, T, T, T, T),
    EM  |-> Attr(F, T, F, T, F, T, T, F),
    EMd |-> Attr(F, T, F, T, T, T, T, T),
    EMa |-> Attr(F, T, F, F, F, T, T, F),
    ET  |-> Attr(F, F, F, F, F, T, T, F),
    ETd |-> Attr(F, F, F, F, T, T, T, T),
    ETt |-> Attr(F, F, F, F, F, T, T, T),
    EA  |-> Attr(F, F, F, F, F, T, T, F),      \* like ET, with an overloaded operator&
    EC  |-> Attr(F, F, F, F, F, T, F, F),
    ECd |-> Attr(F, F, F, F, T, T, F, T),
    EX  |-> Attr(T, F, T, F, F, T, T, F),
    EO  |-> Attr(F, T, F, T, F, F, T, F),
    EOd |-> Attr(F, T, F, T, T, F, T, T),
    blank |-> Attr(T, T, T, T, T, T, T, T) ]

BlankTag == 90
MOVED  == -1
DEFVAL == 0

\* an alternative: element class, tag (type identity), held through recursive_wrapper?, extra size
Alt(c, t)  == [cls |-> c, tag |-> t, wrap |-> FALSE, pad |-> 0, al |-> 8]
AltP(c, t, p) == [cls |-> c, tag |-> t, wrap |-> FALSE, pad |-> p, al |-> 8]
AltA(c, t, p, al) == [cls |-> c, tag |-> t, wrap |-> FALSE, pad |-> p, al |-> al]   \* over-aligned
AltW(c, t) == [cls |-> c, tag |-> t, wrap |-> TRUE, pad |-> 0, al |-> 8]
Blank      == [cls |-> "blank", tag |-> BlankTag, wrap |-> FALSE, pad |-> 0, al |-> 8]

\* kinds[1]: the variant under test; kinds[2]: another variant over (some of) the same types, or <<>>
Cfg(n, a, b) == [name |-> n, kinds |-> <<a, b>>]

ConfigList == <<
  Cfg("TT",   <<Alt("ET", 1), AltP("ET", 2, 24)>>, <<AltP("ET", 2, 24), Alt("ET", 1)>>),
  Cfg("TC",   <<Alt("ET", 1), Alt("EC", 2)>>, <<>>),
  Cfg("CC",   <<AltP("EC", 1, 8), Alt("EC", 2)>>, <<Alt("EC", 2), AltP("EC", 1, 8)>>),
  Cfg("MT",   <<Alt("EM", 1), Alt("ET", 2)>>, <<>>),
  Cfg("NTC",  <<Alt("EN", 1), Alt("ET", 2), AltP("EC", 3, 40)>>, <<>>),
  Cfg("XT",   <<Alt("EX", 1), Alt("ET", 2)>>, <<>>),
  Cfg("TCB",  <<Alt("ET", 1), Alt("EC", 2), Blank>>, <<>>),
  Cfg("BTM",  <<Blank, Alt("ET", 1), Alt("EM", 2)>>, <<>>),
  Cfg("TDC",  <<Alt("ET", 1), Alt("ETd", 2), Alt("EC", 3)>>, <<Alt("EC", 3), Alt("ET", 1)>>),
  Cfg("TDB",  <<Alt("ET", 1), Alt("ETd", 2), Blank>>, <<>>),
  Cfg("DDT",  <<Alt("ECd", 1), Alt("ENd", 2), Alt("ET", 3)>>, <<>>),
  Cfg("RtC",  <<AltW("ET", 1), Alt("EC", 2)>>, <<Alt("EC", 2), AltW("ET", 1)>>),
  Cfg("RnT",  <<AltW("EN", 1), Alt("ET", 2)>>, <<>>),
  Cfg("RtD",  <<AltW("ET", 1), Alt("ETd", 2), AltW("EM", 3)>>, <<AltW("EM", 3), Alt("ETd", 2)>>),
  Cfg("tTR",  <<Alt("ETt", 1), AltW("EC", 2)>>, <<AltW("EC", 2), Alt("ETt", 1)>>),
  Cfg("MN",   <<Alt("EM", 1), Alt("EN", 2), Alt("EMd", 3)>>, <<>>),
  Cfg("Ma",   <<Alt("EMa", 1), Alt("EM", 2)>>, <<>>),
  Cfg("OO",   <<Alt("EOd", 1), Alt("EO", 2)>>, <<Alt("EO", 2)>>),
  Cfg("AL",   <<Alt("EM", 1), AltA("ET", 2, 5, 64), AltA("EC", 3, 0, 32)>>, <<AltA("ET", 2, 5, 64)>>),
  Cfg("AA",   <<Alt("EA", 1), Alt("EA", 2)>>, <<Alt("EA", 2)>>),
  Cfg("Rdd",  <<AltW("ENd", 1), Alt("ECd", 2), Blank>>, <<>>)
  >>

ConfigNames == {ConfigList[i].name : i \in 1..Len(ConfigList)}
UsualNames  == ConfigNames \ {"AA"}
ConfigOf(n) == ConfigList[CHOOSE i \in 1..Len(ConfigList) : ConfigList[i].name = n]

-------------------------------------------------------------------------------
\* A type list with everything derived from it, computed once.
\*   alts the alternatives; n how many; tags; idx tag -> index; cls / st tag -> guarantees of the element / of what
\*   is actually stored (a recursive_wrapper allocates whenever it is created); fb index of the fallback type, 0: none
Info(A) ==
  LET D == 1..Len(A)
      tg == {A[i].tag : i \in D}
      ix == [t \in tg |-> CHOOSE i \in D : A[i].tag = t]
      cl == [t \in tg |-> ClassAttr[A[ix[t]].cls]]
      stor == [t \in tg |-> IF A[ix[t]].wrap
                           THEN [cl[t] EXCEPT !.nc = FALSE, !.nm = FALSE, !.nca = FALSE, !.nma = TRUE, !.nd = FALSE]
                           ELSE cl[t]]
      bl == {i \in D : A[i].cls = "blank"}
      nd == {i \in D : stor[A[i].tag].nd}
      min(S) == CHOOSE i \in S : \A j \in S : i <= j
  IN [alts |-> A, n |-> Len(A), tags |-> tg, idx |-> ix, cls |-> cl, st |-> stor,
      wrap |-> [t \in tg |-> A[ix[t]].wrap],
      \* boost::blank if present, else the first nothrow default constructible type
      fb |-> IF bl # {} THEN min(bl) ELSE IF nd # {} THEN min(nd) ELSE 0,
      anywrap |-> \E i \in D : A[i].wrap]
Infos == [n \in ConfigNames |-> [k \in 1..2 |-> Info(ConfigOf(n).kinds[k])]]

Cls(L, t)     == L.cls[t]
Stored(L, t)  == L.st[t]
HasTag(L, t)  == t \in L.tags
IndexOf(L, t) == L.idx[t]
Wrapped(L, t) == L.wrap[t]
Fallback(L)   == L.fb
AnyWrap(L)    == L.anywrap
NothrowIn(L, t) == Stored(L, t).nc \/ Stored(L, t).nm   \* can be put into a variant without failing
TagAt(L, i)   == L.alts[i].tag
IsBlank(L, i) == L.alts[i].cls = "blank"

\* C14: what the compiler must report
MoveCtorNoexcept(L) == \A t \in L.tags : L.st[t].nm
MoveAsgNoexcept(L)  == MoveCtorNoexcept(L) /\ \A t \in L.tags : L.st[t].nma
DefaultNoexcept(L)  == L.st[TagAt(L, 1)].nd
HasDefault(L) == L.cls[TagAt(L, 1)].hd
Copyable(L)   == \A t \in L.tags : L.cls[t].hc
===============================================================================
