-------------------------------- MODULE Algo --------------------------------
(* The algorithm by which the simulator keeps its state: every bond starts   *)
(* as a cluster of its own; occupying a site merges the clusters of its four *)
(* bonds into one of them (the largest, or the wrapping cluster once there   *)
(* is one), relabels relative coordinates of the absorbed ones, subtracts    *)
(* and adds the entropy terms of the clusters concerned, and the wrapping    *)
(* test looks only at the neighbours of the site placed last.  Checked (TLC, *)
(* MCAlgo) as a refinement of Perc/Sim: it runs next to the abstract model   *)
(* and everything observable is compared in every reachable state.           *)
EXTENDS Perc

(*  sg, bg   cluster number of each site (-1: empty) and of each bond        *)
(*  ps, pb   cluster number -> its sites, its bonds                          *)
(*  rel      relative coordinates of sites                                   *)
(*  bh       B * entropy, kept by subtraction and addition                   *)
(*  lsz      bonds in the largest cluster;  wrap, wid, crit: after the test  *)
(*  sel      site occupied last                                              *)
AlgInit(Ln, L) ==
  LET B == 2 * L * L IN
  [ L |-> L, n |-> 0,
    sg |-> [s \in Sites(L) |-> -1], bg |-> [b \in Bonds(L) |-> b],
    ps |-> [g \in Bonds(L) |-> {}], pb |-> [g \in Bonds(L) |-> {g}],
    rel |-> [s \in Sites(L) |-> <<0, 0>>],
    bh |-> Carry(<<B * Ln[B][1], B * Ln[B][2]>>),
    lsz |-> 0, wrap |-> FALSE, wid |-> -1, crit |-> <<0, 0, 0>>, sel |-> -1 ]

Sgn(x) == IF x > 0 THEN 1 ELSE -1
(* a difference of positions more than one apart goes across the edge *)
Corr(x) == IF Abs(x) > 1 THEN -Sgn(x) ELSE x
Delta(L, a, b) == <<Corr(Row(L, b) - Row(L, a)), Corr(Col(L, b) - Col(L, a))>>
Plus(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Minus(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Other(L, b, s) == LET e == BondEnds(L, b) IN IF e[1] = s THEN e[2] ELSE e[1]
XLogX(Ln, k) == IF k = 0 THEN <<0, 0>> ELSE <<k * Ln[k][1], k * Ln[k][2]>>

Size(a, g) == Cardinality(a.pb[g])
Gids(a, s) == {a.bg[b] : b \in SiteBonds(a.L, s)}
(* which clusters may be chosen to absorb the others: ties are free *)
Roots(a, s) ==
  LET G == Gids(a, s) IN
  IF a.wrap /\ a.wid \in G THEN {a.wid}
  ELSE {g \in G : \A h \in G : Size(a, g) >= Size(a, h)}
(* one bond of the site for each cluster it touches: any such choice *)
Reps(a, s) ==
  LET G == Gids(a, s) IN
  {f \in [G -> SiteBonds(a.L, s)] : \A g \in G : a.bg[f[g]] = g}

AlgPlace(Ln, a, s, root, rep) ==
  LET L == a.L
      G == Gids(a, s)
      via(g) == Other(L, rep[g], s)
      own == IF a.sg[via(root)] >= 0 THEN Plus(a.rel[via(root)], Delta(L, via(root), s)) ELSE <<0, 0>>
      change(g) == Minus(Plus(own, Delta(L, s, via(g))), a.rel[via(g)])
      rel_ == [x \in Sites(L) |-> IF x = s THEN own
                 ELSE IF a.sg[x] \in G \ {root} THEN Plus(a.rel[x], change(a.sg[x])) ELSE a.rel[x]]
      ps_ == [g \in Bonds(L) |-> IF g = root THEN {s} \cup UNION {a.ps[h] : h \in G} ELSE IF g \in G THEN {} ELSE a.ps[g]]
      pb_ == [g \in Bonds(L) |-> IF g = root THEN UNION {a.pb[h] : h \in G} ELSE IF g \in G THEN {} ELSE a.pb[g]]
      out(j) == MapThenSumSet(LAMBDA g : XLogX(Ln, Size(a, g))[j], G)
      new == XLogX(Ln, Cardinality(pb_[root]))
  IN [a EXCEPT !.n = @ + 1, !.sel = s,
               !.sg = [x \in Sites(L) |-> IF x = s \/ a.sg[x] \in G THEN root ELSE @[x]],
               !.bg = [b \in Bonds(L) |-> IF @[b] \in G THEN root ELSE @[b]],
               !.ps = ps_, !.pb = pb_, !.rel = rel_,
               !.bh = Carry(<<@[1] + out(1) - new[1], @[2] + out(2) - new[2]>>),
               !.lsz = IF Cardinality(pb_[root]) > @ THEN Cardinality(pb_[root]) ELSE @]

(* the test after a placement: a neighbour in the same cluster whose relative *)
(* coordinates are not those of a neighbour (side 2: reached by two bonds)    *)
Closes(a) ==
  \E d \in Dirs : LET x == Nbr(a.L, a.sel, d)
                      q == Minus(a.rel[a.sel], a.rel[x]) IN
     /\ a.sg[x] = a.sg[a.sel]
     /\ Abs(q[1]) > 1 \/ Abs(q[2]) > 1
        \/ \E e \in Dirs \ {d} : Nbr(a.L, a.sel, e) = x
AlgDetect(a) ==
  IF a.wrap \/ a.n = 0 \/ ~Closes(a) THEN a
  ELSE LET g == a.sg[a.sel] IN
       [a EXCEPT !.wrap = TRUE, !.wid = g, !.crit = <<a.n, Cardinality(a.ps[g]), Cardinality(a.pb[g])>>]
=============================================================================
