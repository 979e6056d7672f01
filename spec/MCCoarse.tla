------------------------------ MODULE MCCoarse ------------------------------
(* The coarse view agrees with the lattice: two rectangles and up to two      *)
(* cells in every position, and every hole at every moment of its filling, on *)
(* a lattice of side LEN, against sites and bonds one by one.                 *)
EXTENDS Coarse, Json, IOUtils
CONSTANTS LEN, CELLS
VARIABLES rects, cells, hole
vars == <<rects, cells, hole>>
M == LEN - 2
Rects == {r \in (0 .. M) \X (0 .. M) \X (1 .. M + 1) \X (1 .. M + 1) : r[1] + r[3] <= LEN - 1 /\ r[2] + r[4] <= LEN - 1}
Apart(p, q) == CoGap(p[1], p[3], q[1], q[3]) + CoGap(p[2], p[4], q[2], q[4]) > 0
NoHole == <<0, 0, 0, 0, 0>>
Init == \/ /\ \E p, q \in Rects : ~CoTouch(p, q) /\ rects = <<p, q>>
           /\ cells = <<>> /\ hole = NoHole
        \/ /\ rects = <<>> /\ cells = <<>>
           /\ \E h, w \in 1 .. LEN - 2 : \E b \in {0, 1} : hole = <<h, w, b, 0, 1>>
Next == \/ /\ Len(rects) = 2 /\ Len(cells) < CELLS
           /\ \E c \in (0 .. M) \X (0 .. M) :
                /\ \A i \in 1 .. 2 + Len(cells) : Apart(CoThings([rects |-> rects, cells |-> cells], Len(cells))[i], CoCell(c))
                /\ cells' = Append(cells, c)
           /\ UNCHANGED <<rects, hole>>
        \/ /\ hole[5] = 1 /\ hole[4] < hole[1] * hole[2]
           /\ hole' = [hole EXCEPT ![4] = @ + 1]
           /\ UNCHANGED <<rects, cells>>
Spec == Init /\ [][Next]_vars

Off == <<LEN - 2, 2>>
At(p) == SiteAt(LEN, p[1] + Off[1], p[2] + Off[2])
Positions(t) == (t[1] .. t[1] + t[3] - 1) \X (t[2] .. t[2] + t[4] - 1)
SitesOf(t) == {At(p) : p \in Positions(t)}
RECURSIVE Reach(_, _, _)
Reach(S, C, F) == IF F = {} THEN C ELSE LET N == {s \in S \ C : \E f \in F : s \in SiteNbrs(LEN, f)} IN Reach(S, C \cup N, N)
Components(S) == LET R(s) == Reach(S, {s}, {s}) IN {R(s) : s \in S}
AllBonds(S) == UNION {SiteBonds(LEN, s) : s \in S}

T == CoThings([rects |-> rects, cells |-> cells], Len(cells))
S == UNION {SitesOf(T[i]) : i \in 1 .. Len(T)}
SameComponents == LET J(C) == UNION {SitesOf(T[i]) : i \in C} IN {J(C) : C \in CoComps(T)} = Components(S)
SameCounts == \A C \in CoComps(T) : LET X == UNION {SitesOf(T[i]) : i \in C} IN
                CSites(T, C) = Cardinality(X) /\ CBonds(T, C) = Cardinality(AllBonds(X))
(* a step between occupied neighbours never leaves the frame: nothing winds, and displacements are those of the frame *)
Inside == UNION {Positions(T[i]) : i \in 1 .. Len(T)}
StaysInFrame == \A p, q \in Inside : At(q) \in SiteNbrs(LEN, At(p)) => Abs(p[1] - q[1]) + Abs(p[2] - q[2]) = 1

HRect == <<0, 0, hole[1], hole[2]>>
HSite(k) == IF hole[3] = 1 THEN <<(k - 1) \div hole[2], (k - 1) % hole[2]>> ELSE <<(k - 1) % hole[1], (k - 1) \div hole[1]>>
Rest == {At(HSite(k)) : k \in (hole[4] + 1) .. (hole[1] * hole[2])}
Full == Sites(LEN) \ Rest
HoleCount == hole[5] = 1 =>
  LoneBonds(HRect, hole[3], hole[4]) = Cardinality({b \in Bonds(LEN) : BondEnds(LEN, b)[1] \in Rest /\ BondEnds(LEN, b)[2] \in Rest})
HoleConnected == hole[5] = 1 => Cardinality(Components(Full)) = 1 /\ Cardinality(Full) = LEN * LEN - hole[1] * hole[2] + hole[4]
HoleWinds == hole[5] = 1 => \E r \in 0 .. LEN - 1 : \A c \in 0 .. LEN - 1 : SiteAt(LEN, r, c) \in Full
(* the formula for the entropy of a nearly full lattice, against the table, where that reaches *)
Ln == JsonDeserialize(IOEnv.LNFILE)
EntropyFormula == (hole[4] = 0 /\ hole[5] = 1) => \A k \in {24, 30, 36} : \A b \in 0 .. 45 :
  Abs(SeriesEntropy(Ln, k, b) - ExactEntropy(Ln, k, b)) <= 200 + ((k * k) \div 10)
=============================================================================
