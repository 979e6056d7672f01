------------------------------ MODULE MCTorus ------------------------------
(* The definitions of Torus.tla describe a periodic square lattice: checked  *)
(* for every side length up to LMAX.                                         *)
EXTENDS Torus
CONSTANT LMAX
VARIABLE L
Init == L = 3
Next == L < LMAX /\ L' = L + 1
Spec == Init /\ [][Next]_L

Counts == Cardinality(Sites(L)) = L * L /\ Cardinality(Bonds(L)) = 2 * L * L
FourBonds == \A s \in Sites(L) : Cardinality(SiteBonds(L, s)) = 4 /\ Cardinality(SiteNbrs(L, s)) = 4
Incidence ==
  /\ \A s \in Sites(L) : \A d \in Dirs : {BondEnds(L, BondTo(L, s, d))[1], BondEnds(L, BondTo(L, s, d))[2]} = {s, Nbr(L, s, d)}
  /\ \A b \in Bonds(L) : {s \in Sites(L) : b \in SiteBonds(L, s)} = {BondEnds(L, b)[1], BondEnds(L, b)[2]}
  /\ \A b \in Bonds(L) : BondEnds(L, b)[1] # BondEnds(L, b)[2]
Back == \A s \in Sites(L) : \A d \in Dirs : Nbr(L, Nbr(L, s, d), Opp[d]) = s
Commute == \A s \in Sites(L) : Nbr(L, Nbr(L, s, 1), 2) = Nbr(L, Nbr(L, s, 2), 1)
RECURSIVE Walk(_, _, _)
Walk(s, d, k) == IF k = 0 THEN s ELSE Walk(Nbr(L, s, d), d, k - 1)
Period == \A s \in Sites(L) : \A d \in Dirs : Walk(s, d, L) = s /\ \A k \in 1 .. L - 1 : Walk(s, d, k) # s
SiteIds == /\ \A s \in Sites(L) : SiteAt(L, Row(L, s), Col(L, s)) = s /\ Row(L, s) \in 0 .. L-1 /\ Col(L, s) \in 0 .. L-1
           /\ Cardinality({<<Row(L, s), Col(L, s)>> : s \in Sites(L)}) = L * L
BondIds == /\ \A b \in Bonds(L) : BondType(L, b) * L * L + BondRow(L, b) * L + BondCol(L, b) = b
           /\ Cardinality({<<BondType(L, b), BondRow(L, b), BondCol(L, b)>> : b \in Bonds(L)}) = 2 * L * L
OneStep == \A s \in Sites(L) : \A n \in SiteNbrs(L, s) :
  LET Gap(a, b) == IF Abs(a - b) = L - 1 THEN 1 ELSE Abs(a - b)
  IN Gap(Row(L, s), Row(L, n)) + Gap(Col(L, s), Col(L, n)) = 1
=============================================================================
