------------------------------- MODULE MCNear -------------------------------
(* What NearFails (Walk.tla) says of a path and a row but for one site,       *)
(* against the lattice: every choice of them on a lattice of side LEN.        *)
EXTENDS Walk
CONSTANTS LEN
VARIABLES e, put
vars == <<e, put>>
Init == /\ put = FALSE
        /\ e \in {x \in [L : {LEN}, t : {0, 1}, c : 0 .. LEN - 2, m : 3 .. LEN - 3, r : 0 .. LEN - 1, h : 0 .. LEN - 1,
                         dr : {0, LEN - 1}, dc : {0, 1}] : IsNear(x)}
Next == ~put /\ put' = TRUE /\ e' = e
Spec == Init /\ [][Next]_vars
Occ == IF put THEN NearAll(e) ELSE NearAll(e) \ {NearHole(e)}
N_Row(i) == {SiteAt(LEN, i, j) : j \in 0 .. LEN - 1}
N_Col(j) == {SiteAt(LEN, i, j) : i \in 0 .. LEN - 1}
Lines == <<{j \in 0 .. LEN - 1 : N_Col(j) \subseteq Occ}, {i \in 0 .. LEN - 1 : N_Row(i) \subseteq Occ}>>
NoLineBefore == ~put => Lines = <<{}, {}>>
LineAfter == put => IF e.t = 1 THEN Lines[2] = {} /\ Lines[1] # {} ELSE Lines[1] = {} /\ Lines[2] # {}
(* all of it in one cluster, and the path winds: a displacement for every site cannot exist *)
RECURSIVE N_Reach(_, _, _)
N_Reach(S, C, F) == IF F = {} THEN C ELSE LET N == {s \in S \ C : \E f \in F : s \in SiteNbrs(LEN, f)} IN N_Reach(S, C \cup N, N)
OneCluster == LET s == CHOOSE x \in Occ : TRUE IN N_Reach(Occ, {s}, {s}) = Occ
(* crossing every line of the direction of the path, also the edge: it closes only round the lattice *)
Lift(r, c) == NearSite(e, r, c)
Winds == /\ \A r \in 0 .. LEN - 1 : Lift(r, IF r < e.m - 1 THEN e.c ELSE e.c + 1) \in Occ
         /\ Lift(e.m - 1, e.c) \in Occ /\ Lift(LEN - 1, e.c) \in Occ /\ Lift(0, e.c) \in SiteNbrs(LEN, Lift(LEN - 1, e.c))
Counted == Cardinality(Occ) <= 2 * LEN + 2
=============================================================================
