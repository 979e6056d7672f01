-------------------------------- MODULE Perc --------------------------------
(* Site percolation on the torus: the abstract lattice state and its one     *)
(* transition, "occupy site s".  A cluster is named by its smallest site.    *)
(* The definitions against which this incremental model is checked (by TLC,  *)
(* over every order on small lattices) are in the second half.               *)
EXTENDS Torus, FiniteSetsExt

(* lattice state:                                                            *)
(*   n     number of occupied sites                                          *)
(*   cell  site -> <<label, dr, dc>>; label -1 = empty; (dr,dc) is the       *)
(*         displacement from the labelling site, 0 in winding clusters       *)
(*   ns/nb label -> number of sites / bonds of that cluster (0 = no label)   *)
(*   wind  labels of clusters that contain a winding closed path             *)
(*   first label of the cluster that contains the first winding path, or -1  *)
(*   maxb  largest number of bonds of any cluster so far (0 if none)         *)
EmptyLattice(L) ==
  [ L |-> L, n |-> 0,
    cell |-> [s \in Sites(L) |-> <<-1, 0, 0>>],
    ns |-> [s \in Sites(L) |-> 0],
    nb |-> [s \in Sites(L) |-> 0],
    wind |-> {}, first |-> -1, maxb |-> 0 ]

Lab(st, s) == st.cell[s][1]
Occ(st, s) == st.cell[s][1] >= 0
Occupied(st) == {s \in Sites(st.L) : st.cell[s][1] >= 0}
Labels(st) == {s \in Sites(st.L) : st.cell[s][1] = s}
Members(st, r) == {s \in Sites(st.L) : st.cell[s][1] = r}

SumNs(st, M) == LET F(x) == st.ns[x] IN MapThenSumSet(F, M)
SumNb(st, M) == LET F(x) == st.nb[x] IN MapThenSumSet(F, M)

(* T = NbrTable(L), BT = BondTable(L) *)
Occupy(T, BT, st, s) ==
  LET nbr   == T[s]
      occD  == {d \in Dirs : st.cell[nbr[d]][1] >= 0}
      M     == {st.cell[nbr[d]][1] : d \in occD}
      r     == MinOf(M \cup {s})
      ref   == [m \in M |-> CHOOSE d \in occD : st.cell[nbr[d]][1] = m]
      (* coordinate, relative to s, of the labelling site of cluster m *)
      sh    == [m \in M |-> LET d == ref[m] IN
                  << StepR[d] - st.cell[nbr[d]][2], StepC[d] - st.cell[nbr[d]][3] >>]
      closes == \E d \in occD : LET c == st.cell[nbr[d]] IN
                  \/ StepR[d] # c[2] + sh[c[1]][1]
                  \/ StepC[d] # c[3] + sh[c[1]][2]
      winds == closes \/ M \cap st.wind # {}
      o     == IF r = s THEN <<0, 0>> ELSE sh[r]
      newb  == Cardinality({BT[s][d] : d \in Dirs \ occD})
      nbr_  == SumNb(st, M) + newb
      nsr_  == SumNs(st, M) + 1
      own   == IF winds THEN <<r, 0, 0>> ELSE <<r, -o[1], -o[2]>>
      cell_ == IF M = {} THEN [st.cell EXCEPT ![s] = own]
               ELSE [i \in DOMAIN st.cell |->
                      IF i = s THEN own
                      ELSE LET c == st.cell[i] IN
                           IF c[1] \in M
                           THEN IF winds THEN <<r, 0, 0>>
                                ELSE <<r, c[2] + sh[c[1]][1] - o[1], c[3] + sh[c[1]][2] - o[2]>>
                           ELSE c]
      Upd(f, v) == IF M \ {r} = {} THEN [f EXCEPT ![r] = v]
                   ELSE [i \in DOMAIN f |-> IF i = r THEN v ELSE IF i \in M THEN 0 ELSE f[i]]
  IN [ L |-> st.L, n |-> st.n + 1, cell |-> cell_,
       ns |-> Upd(st.ns, nsr_), nb |-> Upd(st.nb, nbr_),
       wind |-> IF winds THEN (st.wind \ M) \cup {r} ELSE st.wind \ M,
       first |-> IF st.first = -1 THEN (IF winds THEN r ELSE -1)
                 ELSE IF st.first \in M THEN r ELSE st.first,
       maxb |-> IF nbr_ > st.maxb THEN nbr_ ELSE st.maxb ]

WrapBonds(st) == IF st.first = -1 THEN 0 ELSE st.nb[st.first]

(* Entropy.  Real numbers are pairs <<hi, lo>>, units 10^-5 and 10^-10;      *)
(* Ln[k] = ln k.  With B bonds and cluster sizes b_i,                        *)
(* B * H = B ln B - sum b_i ln b_i; free bonds are clusters of size 1.       *)
SumB(Ln, st, X, j) == LET F(x) == st.nb[x] * Ln[st.nb[x]][j] IN MapThenSumSet(F, X)
Carry(h) == << h[1] + (h[2] \div 100000), h[2] % 100000 >>
BTimesEntropy(Ln, st) ==
  LET B == 2 * st.L * st.L
      X == Labels(st)
  IN IF B > Len(Ln) THEN <<0, 0>>       \* beyond the table: not compared
     ELSE Carry(<< B * Ln[B][1] - SumB(Ln, st, X, 1), B * Ln[B][2] - SumB(Ln, st, X, 2) >>)
(* a <= b up to tol * 10^-10 *)
NotMore(a, b, tol) == a[1] - b[1] <= 2 /\ (a[1] - b[1] < -20000 \/ (a[1] - b[1]) * 100000 + a[2] - b[2] <= tol)

(* a complete row or column inside cluster r *)
FullRow(st, r, i) == \A c \in 0 .. st.L - 1 : Lab(st, i * st.L + c) = r
FullCol(st, r, j) == \A i \in 0 .. st.L - 1 : Lab(st, i * st.L + j) = r
HasRow(st, r) == r >= 0 /\ \E i \in 0 .. st.L - 1 : FullRow(st, r, i)
HasCol(st, r) == r >= 0 /\ \E j \in 0 .. st.L - 1 : FullCol(st, r, j)

(***************************** definitions *********************************)
(* connected component of s in the set occ *)
Component(L, occ, s) ==
  LET RECURSIVE Grow(_)
      Grow(C) == LET D == C \cup {t \in occ : \E u \in C : t \in SiteNbrs(L, u)}
                 IN IF D = C THEN C ELSE Grow(D)
  IN Grow({s})

(* Copies of the sites in the covering plane: <<site, cell row, cell col>>.  *)
(* A cluster winds iff two copies of one of its sites are connected.         *)
Lifted(L, occ, s, W) ==
  LET Go(x, d) == LET r == Row(L, x[1]) + StepR[d]
                      c == Col(L, x[1]) + StepC[d]
                  IN << SiteAt(L, r, c), x[2] + (r \div L), x[3] + (c \div L) >>
      In(y) == y[1] \in occ /\ Abs(y[2]) <= W /\ Abs(y[3]) <= W
      RECURSIVE Grow(_, _)
      Grow(C, New) == LET D == {y \in {Go(x, d) : x \in New, d \in Dirs} : In(y)} \ C
                 IN IF D = {} THEN C ELSE Grow(C \cup D, D)
  IN Grow({<<s, 0, 0>>}, {<<s, 0, 0>>})
Winds(L, occ, s, W) == \E y \in Lifted(L, occ, s, W) : y[1] = s /\ (y[2] # 0 \/ y[3] # 0)

(* net displacement from s to each site of a non-winding component *)
LiftedCoord(L, y) == << y[1], y[2] * L + Row(L, y[1]), y[3] * L + Col(L, y[1]) >>

(* bonds touching a set of sites *)
BondsOf(L, C) == UNION {SiteBonds(L, s) : s \in C}
=============================================================================
