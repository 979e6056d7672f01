------------------------------- MODULE Torus -------------------------------
(* The periodic L x L square lattice: sites 0..L*L-1 numbered row by row,    *)
(* horizontal bond b (0 <= b < L*L) joins site b and its right neighbour,    *)
(* vertical bond L*L+s joins site s and its lower neighbour.                 *)
EXTENDS Integers, FiniteSets, Sequences

Sites(L) == 0 .. (L*L - 1)
Bonds(L) == 0 .. (2*L*L - 1)
Row(L, s) == s \div L
Col(L, s) == s % L
SiteAt(L, r, c) == (r % L) * L + (c % L)

(* directions in the order right, down, left, up *)
Dirs == 1 .. 4
StepR == <<0, 1, 0, -1>>
StepC == <<1, 0, -1, 0>>
Opp == <<3, 4, 1, 2>>
Nbr(L, s, d) == SiteAt(L, Row(L, s) + StepR[d], Col(L, s) + StepC[d])
BondTo(L, s, d) ==
  CASE d = 1 -> s
    [] d = 2 -> L*L + s
    [] d = 3 -> Nbr(L, s, 3)
    [] d = 4 -> L*L + Nbr(L, s, 4)
BondEnds(L, b) == IF b < L*L THEN <<b, Nbr(L, b, 1)>>
                  ELSE <<b - L*L, Nbr(L, b - L*L, 2)>>
BondType(L, b) == IF b < L*L THEN 0 ELSE 1
BondRow(L, b) == (b % (L*L)) \div L
BondCol(L, b) == (b % (L*L)) % L
SiteBonds(L, s) == {BondTo(L, s, d) : d \in Dirs}
SiteNbrs(L, s) == {Nbr(L, s, d) : d \in Dirs}

(* tables, so that TLC evaluates them once per lattice size *)
NbrTable(L) == [s \in Sites(L) |-> <<Nbr(L, s, 1), Nbr(L, s, 2), Nbr(L, s, 3), Nbr(L, s, 4)>>]
BondTable(L) == [s \in Sites(L) |-> <<BondTo(L, s, 1), BondTo(L, s, 2), BondTo(L, s, 3), BondTo(L, s, 4)>>]
EndTable(L) == [b \in Bonds(L) |-> BondEnds(L, b)]

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(x) == IF x < 0 THEN -x ELSE x
=============================================================================
