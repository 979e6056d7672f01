------------------------------- MODULE MCWalk -------------------------------
(* Every walk on a lattice of side LEN that never touches itself except by    *)
(* closing: what Walk.tla says of its pieces, against the lattice.            *)
EXTENDS Walk
CONSTANTS LEN, MAX
VARIABLES path, dir
vars == <<path, dir>>
Init == path = <<0>> /\ dir = <<>>
Ev == [L |-> LEN, path |-> path, dir |-> dir, order |-> [k \in 1 .. Len(path) |-> k]]
W_Set == {path[k] : k \in 1 .. Len(path)}
Step(d) == LET x == Nbr(LEN, path[Len(path)], d) IN
  /\ x \notin W_Set /\ path' = Append(path, x) /\ dir' = Append(dir, d)
Close(d) == /\ Len(path) > 3 /\ Nbr(LEN, path[Len(path)], d) = path[1]
            /\ path' = path /\ dir' = Append(dir, d)
(* a walk that touches itself may still become chordless by closing *)
Touches == Cardinality({<<k, d>> \in (1 .. Len(path)) \X Dirs : Nbr(LEN, path[k], d) \in W_Set})
Next == /\ Len(dir) = Len(path) - 1 /\ Len(path) < MAX
        /\ \E d \in Dirs : Step(d) \/ Close(d)
Spec == Init /\ [][Next]_vars
Small == Touches <= 2 * Len(path)
RECURSIVE Reach(_, _, _)
Reach(S, C, F) == IF F = {} THEN C ELSE LET N == {s \in S \ C : \E f \in F : s \in SiteNbrs(LEN, f)} IN Reach(S, C \cup N, N)
Components(S) == LET R(s) == Reach(S, {s}, {s}) IN {R(s) : s \in S}
SitesIn(I) == {path[k] : k \in I}
SamePieces == IsWalk(Ev) => \A j \in 1 .. Len(path) :
                {SitesIn(I) : I \in Pieces(Ev, j)} = Components(W_Set \ {path[j]})
OnePiece == IsWalk(Ev) => Cardinality(Components(W_Set)) = 1
SameBonds == IsWalk(Ev) => Cardinality(WalkBonds(Ev, 1 .. Len(path))) =
                Cardinality({b \in Bonds(LEN) : BondEnds(LEN, b)[1] \in W_Set \/ BondEnds(LEN, b)[2] \in W_Set})
(* a closed walk winds when its steps do not cancel; then it has at least LEN sites *)
WindsLong == IsWalk(Ev) /\ WalkWinds(Ev) => Len(path) >= LEN
(* no occupied neighbours but those one step apart on the walk: displacements along it are the only ones *)
OnlySteps == IsWalk(Ev) => \A j, k \in 1 .. Len(path) : path[k] \in SiteNbrs(LEN, path[j]) =>
                Abs(j - k) = 1 \/ (Closed(Ev) /\ {j, k} = {1, Len(path)})
=============================================================================
