------------------------------- MODULE Coarse -------------------------------
(* Lattices of any size, most of their sites: a coarse view in which a whole  *)
(* rectangle of occupied sites is one thing.                                  *)
(*                                                                            *)
(* First the rectangles e.rects = <<row, column, height, width>> are filled   *)
(* in any order, then the single sites e.cells one by one.  Positions are     *)
(* those of a frame that is moved by e.off over the periodic lattice and      *)
(* leaves one row and one column of it free, so that nothing winds; no two    *)
(* rectangles touch.  Clusters, counts and displacements follow from the      *)
(* rectangles and cells alone.                                                *)
(* Then everything but the rectangle e.hole is filled, and the hole last, row *)
(* by row (or column by column).  What is left of the hole never separates    *)
(* the occupied sites: there is one cluster, which winds, and the bonds       *)
(* inside the rest of the hole, each a cluster of its own.                    *)
EXTENDS Torus, SequencesExt, FiniteSetsExt

LOCAL C_Range(q) == {q[k] : k \in 1 .. Len(q)}
LOCAL C_Chk(c, name) == IF c THEN {} ELSE {name}
LOCAL CoSum(F(_), S) == MapThenSumSet(F, S)

(* two rectangles (a cell is one of height and width 1) with a common edge, or a common site *)
CoGap(a, la, b, lb) == IF a > b + lb - 1 THEN a - (b + lb - 1) ELSE IF b > a + la - 1 THEN b - (a + la - 1) ELSE 0
CoTouch(p, q) == CoGap(p[1], p[3], q[1], q[3]) + CoGap(p[2], p[4], q[2], q[4]) <= 1
(* common edges of two that touch without a common site *)
CoShared(p, q) ==
  IF ~CoTouch(p, q) THEN 0 ELSE
  LET over(a, la, b, lb) == (IF a + la < b + lb THEN a + la ELSE b + lb) - (IF a > b THEN a ELSE b)
  IN IF CoGap(p[1], p[3], q[1], q[3]) = 1 THEN over(p[2], p[4], q[2], q[4]) ELSE over(p[1], p[3], q[1], q[3])
CoSitesIn(p) == p[3] * p[4]
CoBondsIn(p) == 2 * p[3] * p[4] + p[3] + p[4]
CoInFrame(L, p) == p[1] >= 0 /\ p[2] >= 0 /\ p[3] >= 1 /\ p[4] >= 1 /\ p[1] + p[3] <= L - 1 /\ p[2] + p[4] <= L - 1
CoCell(c) == <<c[1], c[2], 1, 1>>

(* the things after k cells, and the connected sets of them *)
CoThings(e, k) == e.rects \o [j \in 1 .. k |-> CoCell(e.cells[j])]
RECURSIVE CoGrow(_, _, _)
CoGrow(T, C, F) == IF F = {} THEN C ELSE
  LET N == {j \in 1 .. Len(T) : j \notin C /\ \E i \in F : CoTouch(T[i], T[j])} IN CoGrow(T, C \cup N, N)
CoComps(T) == LET R(i) == CoGrow(T, {i}, {i}) IN {R(i) : i \in 1 .. Len(T)}
CSites(T, C) == LET F(i) == CoSitesIn(T[i]) IN CoSum(F, C)
CBonds(T, C) == LET F(i) == CoBondsIn(T[i])
                    G(i) == LET H(j) == CoShared(T[i], T[j]) IN CoSum(H, {j \in C : j > i})
                IN CoSum(F, C) - CoSum(G, C)

IsCoarse(e) ==
  LET T == CoThings(e, Len(e.cells)) IN
  /\ e.L >= 5
  /\ \A i \in 1 .. Len(T) : CoInFrame(e.L, T[i])
  /\ \A i, j \in 1 .. Len(T) : i < j => CoGap(T[i][1], T[i][3], T[j][1], T[j][3]) + CoGap(T[i][2], T[i][4], T[j][2], T[j][4]) > 0
  /\ \A i, j \in 1 .. Len(e.rects) : i < j => ~CoTouch(e.rects[i], e.rects[j])
  /\ \A i \in 1 .. Len(e.rects) : \A k \in 1 .. Len(e.at[i]) :
        /\ e.at[i][k][1] \in T[i][1] .. (T[i][1] + T[i][3] - 1)
        /\ e.at[i][k][2] \in T[i][2] .. (T[i][2] + T[i][4] - 1)

(* one look, after k cells: o.lab, o.rel: labels and coordinates of e.at for every rectangle, then of the cells; *)
(* o.pool: sites and bonds of the pool's cluster with the first label of every thing                            *)
StepFails(e, k, o) ==
  LET L == e.L
      T == CoThings(e, k)
      Cs == CoComps(T)
      at == e.at \o [j \in 1 .. k |-> <<e.cells[j]>>]
      all == 1 .. Len(T)
      n == CSites(T, all)
  IN C_Chk(o.n = n /\ o.occ = n, "P02.occupied")
     \cup C_Chk(o.p = n, "P02.probability")
     \cup C_Chk(\A i \in all : \A a \in 1 .. Len(at[i]) : o.lab[i][a] = o.lab[i][1] /\ o.lab[i][1] >= 0, "P03.sitelabels")
     \cup C_Chk(\A C \in Cs : \A i \in C : o.lab[i][1] = o.lab[MinOf(C)][1], "P03.sitelabels")
     \cup C_Chk(Cardinality({o.lab[i][1] : i \in all}) = Cardinality(Cs), "P03.sitelabels")
     \cup C_Chk(\A C \in Cs : \A i \in C : o.pool[i] = <<CSites(T, C), CBonds(T, C)>>, "P03.pool")
     \cup C_Chk(o.det = 0, "P04.early")
     \cup C_Chk(o.pc = <<0, 0, 0>>, "P06.critical")
     \cup C_Chk(o.w = 0, "P07.wrapping")
     \cup C_Chk(o.m = MaxOf({CBonds(T, C) : C \in Cs}), "P08.largest")
     \cup C_Chk(o.hd <= 100, "P09.agree")
     \cup C_Chk(\A C \in Cs : \A i \in C : LET z == MinOf(C) IN \A a \in 1 .. Len(at[i]) :
                  /\ o.rel[i][a][1] - o.rel[z][1][1] = at[i][a][1] - at[z][1][1]
                  /\ o.rel[i][a][2] - o.rel[z][1][2] = at[i][a][2] - at[z][1][2], "P05.displacement")

(* bonds inside the hole once its first k sites are filled: the rest is whole lines and one part of a line *)
LoneBonds(h, byrow, k) ==
  LET w == IF byrow = 1 THEN h[4] ELSE h[3]
      m == h[3] * h[4] - k
      lines == m \div w
      part == m % w
      inlines == lines * (w - 1) + (IF lines > 0 THEN (lines - 1) * w ELSE 0)
  IN inlines + (IF part > 0 THEN part - 1 + (IF lines > 0 THEN part ELSE 0) ELSE 0)
(* B times the entropy in units of 10^-5: one cluster of B - b bonds, b clusters of one; *)
(* from the table of logarithms where that reaches, beyond it as a series, b being small  *)
ExactEntropy(Ln, L, b) ==
  LET B_ == 2 * L * L IN
  (B_ * Ln[B_][1] - (B_ - b) * Ln[B_ - b][1]) + ((B_ * Ln[B_][2] - (B_ - b) * Ln[B_ - b][2]) \div 100000)
SeriesEntropy(Ln, L, b) ==
  LET B_ == 2 * L * L IN
  b * (Ln[2][1] + 2 * Ln[L][1]) + b * 100000 - ((b * b * 50000) \div B_) - (((b * b * b) \div 6) * (100000000 \div B_)) \div (1000 * B_)
FullEntropy(Ln, L, b) == IF 2 * L * L <= 2592 THEN ExactEntropy(Ln, L, b) ELSE SeriesEntropy(Ln, L, b)
HoleFails(e, Ln, k, o) ==
  LET L == e.L
      h == e.hole
      m == h[3] * h[4]
      b == LoneBonds(h, e.byrow, k)
      big == 2 * L * L - b
      n == L * L - m + k
  IN C_Chk(o.n = n /\ o.occ = n, "P02.occupied")
     \cup C_Chk(o.p = n, "P02.probability")
     \cup C_Chk(\A a \in 1 .. Len(o.lab) : o.lab[a] = o.lab[1] /\ o.lab[1] >= 0, "P03.sitelabels")
     \cup C_Chk(o.pool = <<n, big>> /\ o.own = b /\ o.empty = 1, "P03.pool")
     \cup C_Chk(o.det = 1, "P04.missed")
     \cup C_Chk(o.wid = o.lab[1], "P04.cluster")
     \cup C_Chk(o.pc = e.first, "P06.critical")
     \cup C_Chk(o.w = big, "P07.wrapping")
     \cup C_Chk(o.m = big, "P08.largest")
     \cup C_Chk(o.hd <= 100, "P09.agree")
     \cup C_Chk(Abs(o.bh - FullEntropy(Ln, L, b)) <= 200 + ((L * L) \div 10), "P09.entropy")
     \cup C_Chk(\A a \in 1 .. Len(o.lab) :
                  /\ (o.rel[a][1] - o.rel[1][1] - e.on[a][1] + e.on[1][1]) % L = 0
                  /\ (o.rel[a][2] - o.rel[1][2] - e.on[a][2] + e.on[1][2]) % L = 0, "P05.modulo")

(* e.first: site count, cluster sites, cluster bonds at the first yes; e.seen: what was reported all the way *)
CoarseFails(e, Ln) ==
  IF ~IsCoarse(e) \/ Len(e.steps) # Len(e.cells) + 1 THEN {"ANY.exception"} ELSE
  UNION {StepFails(e, k - 1, e.steps[k]) : k \in 1 .. Len(e.steps)}
  \cup (IF "hole" \notin DOMAIN e THEN {} ELSE
        IF Len(e.full) # e.hole[3] * e.hole[4] + 1 THEN {"ANY.exception"} ELSE
        UNION {HoleFails(e, Ln, k - 1, e.full[k]) : k \in 1 .. Len(e.full)}
        \cup C_Chk(e.firstn = e.first[1] /\ e.first[2] <= e.first[1] /\ e.firstw = e.first[3], "P06.critical")
        \cup C_Chk(e.mono[1] = 1, "P08.monotone") \cup C_Chk(e.mono[2] = 1, "P07.monotone")
        \cup C_Chk(e.mono[3] = 1, "P09.monotone") \cup C_Chk(e.mono[4] = 1, "P04.withdrawn") \cup C_Chk(e.mono[5] = 1, "P02.return"))
=============================================================================
