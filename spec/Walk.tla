-------------------------------- MODULE Walk --------------------------------
(* Lattices of any size, few sites: the sites of a walk of unit steps, no     *)
(* two of them neighbours except along the walk, are occupied in some order.  *)
(* Then the clusters, the windings, the displacements and the counts follow   *)
(* from the walk alone, and no state of the whole lattice is needed.          *)
(* e.path: the sites; e.dir: the steps between them (1..4: right, down, left, *)
(* up), one more if the walk is closed; e.order: positions on the walk in the *)
(* order in which they are occupied.                                          *)
EXTENDS Torus, SequencesExt

LOCAL W_Range(q) == {q[k] : k \in 1 .. Len(q)}
LOCAL W_Chk(c, name) == IF c THEN {} ELSE {name}
LOCAL W_Has(o, f) == f \in DOMAIN o

Closed(e) == Len(e.dir) = Len(e.path)
(* the witness: a chordless walk *)
IsWalk(e) ==
  LET n == Len(e.path)
      S == W_Range(e.path)
      next(k) == (k % n) + 1
  IN /\ n >= 2 /\ Len(e.dir) \in {n - 1, n}
     /\ Cardinality(S) = n /\ S \subseteq Sites(e.L)
     /\ \A k \in 1 .. Len(e.dir) : Nbr(e.L, e.path[k], e.dir[k]) = e.path[next(k)]
     /\ FoldLeft(LAMBDA x, k : x + Cardinality({d \in Dirs : Nbr(e.L, e.path[k], d) \in S}), 0, [k \in 1 .. n |-> k]) = 2 * Len(e.dir)
     /\ Len(e.order) = n /\ W_Range(e.order) = 1 .. n
(* net displacement of the whole walk *)
WalkTotal(e) == FoldLeft(LAMBDA x, d : <<x[1] + StepR[d], x[2] + StepC[d]>>, <<0, 0>>, e.dir)
WalkWinds(e) == Closed(e) /\ WalkTotal(e) # <<0, 0>>
WalkBonds(e, I) == UNION {SiteBonds(e.L, e.path[k]) : k \in I}
(* the pieces of the walk without position j *)
Pieces(e, j) ==
  LET n == Len(e.path) IN
  IF Closed(e) THEN {(1 .. n) \ {j}} ELSE {1 .. (j - 1), (j + 1) .. n} \ {{}}
Most(e, Ps) == MaxOf({Cardinality(WalkBonds(e, I)) : I \in Ps} \cup {0})

WalkFails(e) ==
  LET L == e.L
      n == Len(e.path)
      next(k) == (k % n) + 1
      last == e.order[n]
      wind == WalkWinds(e)
      all == 1 .. n
      nb == Cardinality(WalkBonds(e, all))
      Ps == Pieces(e, last)
  IN IF ~IsWalk(e) THEN {"ANY.exception"} ELSE
     W_Chk(\A k \in 1 .. n : e.ret[k] = 1 /\ e.p[k] = k, "P02.probability")
     \cup W_Chk(e.occ = n, "P02.occupied")
     \cup W_Chk(\A k \in 1 .. n : e.det[k] = 1 => k = n /\ wind, "P04.early")
     \cup W_Chk(wind => e.det[n] = 1, "P04.missed")
     \cup W_Chk(\A k \in 1 .. n : e.pc[k] = IF k = n /\ wind THEN <<n, n, nb>> ELSE <<0, 0, 0>>, "P06.critical")
     \cup W_Chk(\A k \in 1 .. n : e.w[k] = IF k = n /\ wind THEN nb ELSE 0, "P07.wrapping")
     \cup W_Chk(e.m[n] = nb /\ (n > 1 => e.m[n-1] = Most(e, Ps)), "P08.largest")
     \cup W_Chk(\A k \in 1 .. n - 1 : e.m[k] <= e.m[k+1], "P08.monotone")
     \cup W_Chk(\A k \in 1 .. n : e.hd[k] <= 100, "P09.agree")
     \* labels: one cluster in the end, the pieces before the last placement
     \cup W_Chk(/\ \A k \in 1 .. n : e.g2[k] = e.g2[1] /\ e.g2[k] >= 0
                /\ \A I \in Ps : \A a, b \in {MinOf(I), MaxOf(I)} \cup {x \in I : x % 7 = 0} : e.g1[a] = e.g1[b]
                /\ \A I, J \in Ps : I # J => e.g1[MinOf(I)] # e.g1[MinOf(J)]
                /\ e.g1[last] = -1, "P03.sitelabels")
     \cup W_Chk(e.pool = <<n, nb>> /\ e.bg = nb, "P03.pool")
     \cup W_Chk(\A k \in 1 .. Len(e.dir) : k # last /\ next(k) # last =>
                  <<e.r1[next(k)][1] - e.r1[k][1], e.r1[next(k)][2] - e.r1[k][2]>> = <<StepR[e.dir[k]], StepC[e.dir[k]]>>, "P05.displacement")
     \cup W_Chk(IF wind
                THEN \A k \in 1 .. n : /\ (e.r2[k][1] - e.r2[1][1] - Row(L, e.path[k]) + Row(L, e.path[1])) % L = 0
                                       /\ (e.r2[k][2] - e.r2[1][2] - Col(L, e.path[k]) + Col(L, e.path[1])) % L = 0
                ELSE \A k \in 1 .. Len(e.dir) :
                       <<e.r2[next(k)][1] - e.r2[k][1], e.r2[next(k)][2] - e.r2[k][2]>> = <<StepR[e.dir[k]], StepC[e.dir[k]]>>, "P05.modulo")

(* a shortest-path run over the walk's sites, then the sites e.more: it ends at the last site of a straight *)
(* closed walk (which is a complete row or column); otherwise with the list, and reports 0                  *)
(* (e.more: three sites at most, which with a walk of both directions make no line of five or more)         *)
LineFails(e) ==
  LET n == Len(e.path)
      straight == \A k \in 1 .. Len(e.dir) : e.dir[k] = e.dir[1]
      down == e.dir[1] \in {2, 4}
  IN IF ~IsWalk(e) \/ ~WalkWinds(e) \/ Len(e.more) > 3 THEN {"ANY.exception"} ELSE
     W_Chk(e.star = IF straight THEN n ELSE 0, "P18.value")
     \cup W_Chk(e.occ = IF straight THEN n ELSE n + Len(e.more), IF straight THEN "P18.late" ELSE "P18.early")
     \cup W_Chk(e.scan = IF ~straight THEN <<0, 0>> ELSE IF down THEN <<1, 0>> ELSE <<0, 1>>, "P18.scan")
     \cup W_Chk(e.pc = n, "P06.critical")

(* A winding path that is no line and, attached to it, a complete row (column, if e.t = 1) but for one site:  *)
(* there is no line as long as that site is empty, and one when it is occupied.  Path: position e.c of the    *)
(* lines 0 .. e.m-1 and L-1, position e.c+1 of the lines e.m-1 .. L-1; the row: line e.r without position e.h; *)
(* all moved by e.dr, e.dc.                                                                                    *)
NearSite(e, r, c) ==
  LET x == (r + e.dr) % e.L
      y == (c + e.dc) % e.L
  IN IF e.t = 1 THEN SiteAt(e.L, y, x) ELSE SiteAt(e.L, x, y)
NearWind(e) == {NearSite(e, r, e.c) : r \in 0 .. e.m - 1} \cup {NearSite(e, e.L - 1, e.c)}
               \cup {NearSite(e, r, e.c + 1) : r \in e.m - 1 .. e.L - 1}
NearHole(e) == NearSite(e, e.r, e.h)
NearAll(e) == NearWind(e) \cup {NearSite(e, e.r, c) : c \in 0 .. e.L - 1}
IsNear(e) == /\ e.L >= 6 /\ e.m \in 3 .. e.L - 3 /\ e.c \in 0 .. e.L - 2 /\ e.t \in {0, 1}
             /\ e.r \in 0 .. e.L - 1 /\ e.h \in (0 .. e.L - 1) \ {e.c, e.c + 1}
(* e.order: the sites occupied, the missing one last; e.one: <<value, occupied, column scan, row scan>> after   *)
(* a run over the others only, e.two: after a run over all of them                                              *)
NearFails(e) ==
  LET S == NearAll(e)
      n == Cardinality(S)
      line == IF e.t = 1 THEN <<1, 0>> ELSE <<0, 1>>
  IN IF ~IsNear(e) \/ W_Range(e.order) # S \/ Len(e.order) # n \/ e.order[n] # NearHole(e) THEN {"ANY.exception"} ELSE
     W_Chk(e.one[1] = 0, "P18.value") \cup W_Chk(e.one[2] = n - 1, "P18.early")
     \cup W_Chk(e.one[3] = <<0, 0>>, "P18.scan")
     \cup W_Chk(e.two[1] = n, "P18.value") \cup W_Chk(e.two[2] = n, "P18.late")
     \cup W_Chk(e.two[3] = line, "P18.scan")
=============================================================================
