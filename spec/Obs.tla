-------------------------------- MODULE Obs --------------------------------
(* What a user may observe of a simulator in a given state.  An observation  *)
(* o is a record with some of the fields below; ObsFails is the set of       *)
(* clauses it contradicts ({} = a possible observation of that state).       *)
(* Fractions are given as numerators over the number of sites / bonds,       *)
(* entropies as pairs <<hi, lo>> (10^-5, 10^-10); -999999 stands for anything else.            *)
EXTENDS Sim

Chk(c, name) == IF c THEN {} ELSE {name}
Has(o, f) == f \in DOMAIN o
(* h: a reported entropy; bh: B times the true one; agreement to 10^-8 *)
Near(B_, h, bh) ==
  LET d == B_ * h[1] - bh[1] IN
  IF B_ > 2592 THEN h[1] >= 0 ELSE      \* beyond the table of logarithms
  /\ h[1] >= 0 /\ h[1] <= bh[1] \div B_ + 2 /\ Abs(d) <= 2 * B_ + 2
  /\ Abs(d * 100000 + B_ * h[2] - bh[2]) <= 100 * B_

(* P03 labels and pool *)
SiteLabelFails(lat, g) ==
  LET Ls == Labels(lat) IN
  Chk(/\ \A s \in Sites(lat.L) : IF Occ(lat, s) THEN g[s+1] >= 0 /\ g[s+1] = g[Lab(lat, s)+1] ELSE g[s+1] = -1
      /\ Cardinality({g[r+1] : r \in Ls}) = Cardinality(Ls), "P03.sitelabels")
BondLabelFails(lat, g, bg, ET) ==
  LET Free == {b \in Bonds(lat.L) : ~Occ(lat, ET[b][1]) /\ ~Occ(lat, ET[b][2])} IN
  Chk(/\ \A b \in Bonds(lat.L) \ Free :
           bg[b+1] = IF Occ(lat, ET[b][1]) THEN g[ET[b][1]+1] ELSE g[ET[b][2]+1]
      /\ \A b \in Free : bg[b+1] >= 0
      /\ Cardinality({bg[b+1] : b \in Bonds(lat.L)}) = Cardinality(Free) + Cardinality(Labels(lat)), "P03.bondlabels")
PoolFails(lat, g, bg, ps, pb) ==
  Chk(/\ Len(ps) = lat.n
      /\ Range_(ps) = {<<s, g[s+1]>> : s \in Occupied(lat)}, "P03.poolsites")
  \cup Chk(/\ Len(pb) = 2 * lat.L * lat.L
      /\ Range_(pb) = {<<b, bg[b+1]>> : b \in Bonds(lat.L)}, "P03.poolbonds")
(* P04 the wrapping cluster *)
WrapClusterFails(sim, g, wid) ==
  IF sim.rep /\ ~sim.missed
  THEN Chk({s \in Sites(sim.lat.L) : g[s+1] = wid} = Members(sim.lat, sim.lat.first), "P04.cluster")
  ELSE {}
(* P05 relative coordinates *)
CoordFails(lat, rx, ry) ==
  LET Base(s) == Lab(lat, s)
      DX(s) == rx[s+1] - rx[Base(s)+1]
      DY(s) == ry[s+1] - ry[Base(s)+1]
  IN Chk(\A s \in Sites(lat.L) : Occ(lat, s) /\ Base(s) \notin lat.wind =>
            DX(s) = lat.cell[s][2] /\ DY(s) = lat.cell[s][3], "P05.displacement")
     \cup Chk(\A s \in Sites(lat.L) : Occ(lat, s) /\ Base(s) \in lat.wind =>
            /\ (DX(s) - (Row(lat.L, s) - Row(lat.L, Base(s)))) % lat.L = 0
            /\ (DY(s) - (Col(lat.L, s) - Col(lat.L, Base(s)))) % lat.L = 0, "P05.modulo")
(* P10 the table *)
TableFails(sim, tab) ==
  Chk(Len(tab) = Len(sim.rows), "P10.tablelength")
  \cup Chk(\A i \in 1 .. Len(tab) : Len(tab[i]) = 4, "P10.tablewidth")
  \cup Chk(\A i \in 1 .. Len(tab) : i <= Len(sim.rows) /\ Len(tab[i]) = 4 =>
             /\ tab[i][1] = sim.rows[i][1]
             /\ Near(B(sim), tab[i][2], sim.rows[i][2])
             /\ tab[i][3] = sim.rows[i][3]
             /\ (sim.missed \/ tab[i][4] = sim.rows[i][4]), "P10.tablevalues")

ObsFails(Ln, ET, sim, o) ==
  LET lat == sim.lat IN
  (IF Has(o, "occ") THEN Chk(Range_(o.occ) = Occupied(lat), "P02.occupied") ELSE {})
  \cup (IF Has(o, "p") THEN Chk(o.p = lat.n, "P02.probability") ELSE {})
  \cup (IF Has(o, "g") THEN SiteLabelFails(lat, o.g) ELSE {})
  \cup (IF Has(o, "bg") THEN BondLabelFails(lat, o.g, o.bg, ET) ELSE {})
  \cup (IF Has(o, "ps") THEN PoolFails(lat, o.g, o.bg, o.ps, o.pb) ELSE {})
  \cup (IF Has(o, "wid") THEN WrapClusterFails(sim, o.g, o.wid) ELSE {})
  \cup (IF Has(o, "rx") /\ lat.L >= 3 THEN CoordFails(lat, o.rx, o.ry) ELSE {})
  \cup (IF Has(o, "pc") /\ ~sim.missed THEN Chk(o.pc = sim.pc, "P06.critical") ELSE {})
  \cup (IF Has(o, "w") /\ ~sim.missed THEN Chk(o.w = WrapValue(sim), "P07.wrapping") ELSE {})
  \cup (IF Has(o, "m") THEN Chk(o.m = lat.maxb, "P08.largest") ELSE {})
  \cup (IF Has(o, "lc") THEN Chk(o.lc = lat.maxb, "P08.largestcount") ELSE {})
  \cup (IF Has(o, "h") THEN Chk(Near(B(sim), o.h, BTimesEntropy(Ln, lat)), "P09.entropy") ELSE {})
  \cup (IF Has(o, "h1") THEN Chk(Near(B(sim), o.h1, BTimesEntropy(Ln, lat)), "P09.recomputed") ELSE {})
  \cup (IF Has(o, "hd") THEN Chk(o.hd <= 100, "P09.agree") ELSE {})
  \cup (IF Has(o, "tab") THEN TableFails(sim, o.tab) ELSE {})
  \cup (IF Has(o, "lens") THEN Chk(\A i \in 1 .. 4 : o.lens[i] = Len(sim.rows), "P10.serieslengths") ELSE {})
  \cup (IF Has(o, "seq") THEN
          Chk(IF Plain(sim.kind)
              THEN sim.mixed \/ (Len(o.seq) >= lat.n /\ SubSeq(o.seq, 1, lat.n) = sim.order
                                 /\ Cardinality(Range_(o.seq)) = Len(o.seq)
                                 /\ (IF sim.cust THEN Range_(o.seq) = Range_(sim.list) ELSE Range_(o.seq) = Sites(lat.L)))
              ELSE o.seq = sim.order, "P17.sequence") ELSE {})
  \cup (IF Has(o, "idx") THEN
          Chk(/\ Len(o.idx) = Len(o.seq)
              /\ \A i \in 1 .. Len(o.seq) : o.idx[i] = <<Row(lat.L, o.seq[i]), Col(lat.L, o.seq[i])>>, "P17.positions") ELSE {})
  \cup (IF Has(o, "scan") /\ sim.rep /\ ~sim.missed THEN
          Chk(o.scan[1] = (IF HasCol(lat, lat.first) THEN 1 ELSE 0), "P18.scanrows")
          \cup Chk(o.scan[2] = (IF HasRow(lat, lat.first) THEN 1 ELSE 0), "P18.scancolumns") ELSE {})
  \cup (IF Has(o, "scan") /\ ~sim.rep /\ ~sim.missed THEN Chk(o.scan = <<0, 0>>, "P18.scanempty") ELSE {})
  \cup (IF Has(o, "star") THEN Chk(o.star = sim.pstar, "P18.value") ELSE {})
  (* printed views: labels, relative coordinates, cluster contents *)
  \cup (IF Has(o, "vg") THEN Chk(o.vg = o.g, "P22.viewlabels") ELSE {})
  \cup (IF Has(o, "vrx") THEN Chk(o.vrg = o.g /\ o.vrx = o.rx /\ o.vry = o.ry, "P22.viewcoordinates") ELSE {})
  \cup (IF Has(o, "vlx") THEN Chk(o.vlx = o.rx /\ o.vly = o.ry, "P22.listedcoordinates") ELSE {})
  \cup (IF Has(o, "vps") THEN Chk(Range_(o.vps) = Range_(o.ps) /\ Len(o.vps) = Len(o.ps)
                                  /\ Range_(o.vpb) = Range_(o.pb) /\ Len(o.vpb) = Len(o.pb), "P22.viewclusters") ELSE {})
  \cup (IF Has(o, "vpg") THEN Chk(\A p \in Range_(o.vpg) : p[1] < 0 \/ (p[1] + 1 \in DOMAIN o.bg /\ o.bg[p[1] + 1] = p[2]), "P22.viewclusterlabel") ELSE {})
  \cup (IF Has(o, "vqs") THEN Chk(Range_(o.vqs) = Range_(o.ps) /\ Len(o.vqs) = Len(o.ps)
                                  /\ Range_(o.vqb) = Range_(o.pb) /\ Len(o.vqb) = Len(o.pb), "P22.clusterbynumber") ELSE {})
  \cup (IF Has(o, "vroot") THEN Chk(\A k \in DOMAIN o.g : o.g[k] >= 0 => (o.vroot[k] = 1) = (o.rx[k] = 0 /\ o.ry[k] = 0), "P22.root") ELSE {})
  \cup (IF Has(o, "vnc") THEN Chk(o.vnc = Cardinality(Range_(o.bg)), "P22.clusternumber") ELSE {})
  \cup (IF Has(o, "vsl") THEN Chk(\A v \in Range_(o.vsl) : v = o.g, "P22.printedsites")
                             \cup Chk(\A v \in Range_(o.vbl) : v = o.bg, "P22.printedbonds")
                             \cup Chk(Range_(o.vsg) = Range_(o.g) /\ Len(o.vsg) = Cardinality(Range_(o.g)), "P22.sitelabelset")
                             \cup Chk(Range_(o.vbg) = Range_(o.bg) /\ Len(o.vbg) = Cardinality(Range_(o.bg)), "P22.bondlabelset") ELSE {})
=============================================================================
