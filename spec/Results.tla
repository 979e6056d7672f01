------------------------------ MODULE Results ------------------------------
(* What may be observed outside one simulator object: the lattice as a       *)
(* table, crossings of curves, guide lines, and the files ensembles, parallel*)
(* launches and single realizations leave behind.  Each operator gives the   *)
(* set of violated clauses.                                                  *)
EXTENDS Obs, Ensemble, Crossing

SetOf(q) == {q[k] : k \in 1 .. Len(q)}

(* P01: a batch of sites, each <<id, bonds, neighbours, <<row, col>>, ids computed back from the position, distances>> *)
LatSitesFails(L, q) ==
  Chk(\A k \in 1 .. Len(q) : Len(q[k].b) = 4 /\ SetOf(q[k].b) = SiteBonds(L, q[k].s), "P01.sitebonds")
  \cup Chk(\A k \in 1 .. Len(q) : \A j \in 1 .. Len(q[k].nb) :
             Len(q[k].nb[j]) = 4 /\ SetOf(q[k].nb[j]) = SiteNbrs(L, q[k].s), "P01.neighbours")
  \cup Chk(\A k \in 1 .. Len(q) : Len(q[k].along) = Len(q[k].b)
             /\ \A j \in 1 .. Len(q[k].b) : q[k].along[j] \in SetOf(BondEnds(L, q[k].b[j])) \ {q[k].s}, "P01.alongbond")
  \cup Chk(\A k \in 1 .. Len(q) : q[k].pos = <<Row(L, q[k].s), Col(L, q[k].s)>>, "P01.position")
  \cup Chk(\A k \in 1 .. Len(q) : \A j \in 1 .. Len(q[k].back) : q[k].back[j] = q[k].s, "P01.siteid")
  \cup Chk(\A k \in 1 .. Len(q) : \A j \in 1 .. Len(q[k].dist) : q[k].dist[j] = 1, "P01.onestep")
LatBondsFails(L, q) ==
  Chk(\A k \in 1 .. Len(q) : Len(q[k].ends) = 2 /\ SetOf(q[k].ends) = SetOf(BondEnds(L, q[k].b)), "P01.bondends")
  \cup Chk(\A k \in 1 .. Len(q) : /\ q[k].pos = <<BondType(L, q[k].b), BondRow(L, q[k].b), BondCol(L, q[k].b)>>, "P01.bondposition")
  \cup Chk(\A k \in 1 .. Len(q) : \A j \in 1 .. Len(q[k].back) : q[k].back[j] = q[k].b, "P01.bondid")
LatticeFails(e) ==
  Chk(e.ns = e.L * e.L /\ e.nb = 2 * e.L * e.L, "P01.counts")
  \cup LatSitesFails(e.L, e.sites) \cup LatBondsFails(e.L, e.bonds)

(* P24 *)
CrossFails(e) == Chk(Answer(Signs(e.a, e.b), e.idx), "P24.crossing") \cup Chk(e.plot = e.idx, "P24.plotting")
GuideFails(e) ==
  LET lo == IF e.lo <= e.hi THEN e.lo ELSE e.hi
      hi == IF e.lo <= e.hi THEN e.hi ELSE e.lo IN
  Chk(Len(e.fixed) = e.size /\ Len(e.run) = e.size, "P24.points")
  \cup Chk(\A k \in 1 .. Len(e.fixed) : Abs(e.fixed[k] - e.pos) <= 1, "P24.position")
  \cup Chk(~Has(e, "dev") \/ (e.dev <= 100 /\ e.ends <= 100), "P24.position")
  \cup (IF Len(e.run) < 2 THEN {} ELSE
        Chk(/\ Abs(e.run[1] - e.lo) <= 1 /\ Abs(e.run[Len(e.run)] - e.hi) <= 1
            /\ \A k \in 1 .. Len(e.run) : e.run[k] >= lo - 1 /\ e.run[k] <= hi + 1, "P24.extent"))

(* P19, P21: an ensemble of n realizations recorded as they happened *)
(* tabs: the n recorded tables (columns p, H, largest, wrapping, scaled); mean: the file;  *)
(* crit / critf: recorded and stored critical values; qcols / qcrit: the quantity the      *)
(* header says each column holds (1..4, 1..3; 0 = unintelligible)                          *)
MeanCol(e, c, q) == \A r \in 1 .. Len(e.mean) : IsMean(e.mean[r][c], Total(e.tabs, r, q, 1, e.n), Total(e.tabs, r, q, 2, e.n), e.n)
EnsFails(e) ==
  Chk(Len(e.tabs) = e.n /\ \A k \in 1 .. Len(e.fresh) : e.fresh[k] = 0, "P19.realizations")
  \cup Chk(e.L < 4 \/ Cardinality(SetOf(e.orders)) = Len(e.orders), "P19.repeated")
  \cup (IF Len(e.tabs) # e.n THEN {} ELSE
       (IF \E k \in 1 .. Len(e.tabs) : Len(e.tabs[k]) # Len(e.mean) \/ \E r \in 1 .. Len(e.mean) : Len(e.mean[r]) # 4
        THEN {"P19.shape"}
        ELSE Chk(\A c \in 1 .. 4 : MeanCol(e, c, c), "P19.mean")
             \cup (IF Has(e, "qcols") THEN
                   Chk(Len(e.qcols) = 4 /\ SetOf(e.qcols) = 1 .. 4
                       /\ \A c \in 1 .. 4 : MeanCol(e, c, e.qcols[c]), "P21.columns") ELSE {})))
  \cup (IF Has(e, "critf") THEN
          Chk(e.critf = e.crit, "P19.critical")
          \cup Chk(/\ Len(e.qcrit) = 3 /\ SetOf(e.qcrit) = 1 .. 3
                   /\ \A r \in 1 .. Len(e.critf) : r <= Len(e.crit) => \A c \in 1 .. 3 : e.critf[r][c] = e.crit[r][e.qcrit[c]], "P21.criticalcolumns")
        ELSE {})

(* P21: a file's name and header.  want: what the caller asked for *)
FileFails(e) ==
  Chk(e.hL = e.L /\ e.hlength = e.L, "P21.length")
  \cup Chk(e.hEn = e.n /\ e.hsize = e.n, "P21.realizations")
  \cup Chk(e.sigok = 1, "P21.namekind") \cup Chk(e.qok = 1, "P21.namequantity")
  \cup Chk(e.fL = e.L, "P21.namelength") \cup Chk(e.th = e.worker, "P21.nameworker")
  \cup Chk(e.ncols = e.width, "P21.columncount")

(* P26 *)
SpFails(e) ==
  Chk(Len(e.rec) = e.n /\ \A k \in 1 .. Len(e.fresh) : e.fresh[k] = 0, "P26.realizations")
  \cup Chk(e.rows = e.rec, "P26.rows")
  \cup Chk(\A k \in 1 .. Len(e.rows) : Len(e.rows[k]) = 2 /\ (e.rows[k][1] <= e.rows[k][2] \/ (Has(e, "partial") /\ e.partial = 1 /\ e.rows[k][2] = 0)), "P26.order")
  \cup Chk(e.L < 4 \/ Cardinality(SetOf(e.orders)) = Len(e.orders), "P26.repeated")
  \cup Chk(e.qcols = <<1, 2>>, "P21.pathcolumns")

(* P20: what a parallel launch left.  files: per file its quantity q, worker th, En, rows (-1 if *)
(* not one per realization), L, kind ok;  runs: per process / thread the number of completed     *)
(* realizations and what simulator ran;  dead: number of workers that died                       *)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
FilesOf(e, q) == SelectSeq(e.files, LAMBDA f : f.q = q)
LaunchFails(e) ==
  LET W == IF e.n < e.kk THEN e.n ELSE e.kk
      alive == W - e.dead
      Ths(F) == {F[j].th : j \in 1 .. Len(F)}
  IN UNION {LET F == FilesOf(e, e.qs[j])
                En == SumSeq([x \in 1 .. Len(F) |-> F[x].en])
            IN Chk(Len(F) = alive /\ Cardinality(Ths(F)) = Len(F) /\ \A x \in 1 .. Len(F) : F[x].th >= 0, "P20.files")
               \cup Chk(IF e.dead = 0 THEN En = e.n ELSE En < e.n /\ En >= e.least, "P20.total")
               \cup Chk(\A x \in 1 .. Len(F) : F[x].rows = -1 \/ F[x].rows = F[x].en, "P20.ownrows")
               \cup Chk(\A x \in 1 .. Len(F) : F[x].L = e.L /\ F[x].kindok = 1, "P20.kind")
            : j \in 1 .. Len(e.qs)}
     \cup Chk(e.dead > 0 \/ SumSeq([j \in 1 .. Len(e.runs) |-> e.runs[j].count]) = e.n, "P20.ran")
     \cup Chk(\A j \in 1 .. Len(e.runs) : e.runs[j].kindok = 1 /\ e.runs[j].L = e.L, "P20.simulator")
     \cup Chk(Len(e.runs) <= e.kk, "P20.workers")
     \cup Chk(Len(e.extra) = 0, "P20.otherfiles")
     \* orders of the realizations, in whatever worker (given for 16 or more sites): none twice
     \cup Chk(IF "orders" \in DOMAIN e THEN Cardinality({e.orders[j] : j \in 1 .. Len(e.orders)}) = Len(e.orders) ELSE TRUE, "P20.copies")
=============================================================================
