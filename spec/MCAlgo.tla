------------------------------- MODULE MCAlgo -------------------------------
(* The algorithm next to the abstract model, every order of occupation, with *)
(* every choice the algorithm leaves open.  The test is asked after each     *)
(* placement.  DEPTH bounds the number of sites.                             *)
EXTENDS Algo, TLC, Json, IOUtils
CONSTANTS LEN, DEPTH, MASTER    \* side, most sites
VARIABLES a, st, pc
vars == <<a, st, pc>>
Ln == JsonDeserialize(IOEnv.LNFILE)
T == NbrTable(LEN)
BT == BondTable(LEN)

Crit(p, x, y) == IF x.first = -1 /\ y.first # -1 THEN <<y.n, y.ns[y.first], y.nb[y.first]>> ELSE p
(* exploration starts after each of the given first placements *)
Prefixes == JsonDeserialize(IOEnv.PREFIXES)
RECURSIVE After(_, _, _, _, _)
After(a0, st0, p0, q, k) ==
  IF k > Len(q) THEN <<a0, st0, p0>>
  ELSE LET s == q[k]
           root == CHOOSE r \in Roots(a0, s) : TRUE
           rep == CHOOSE f \in Reps(a0, s) : TRUE
           st1 == Occupy(T, BT, st0, s)
       IN After(AlgDetect(AlgPlace(Ln, a0, s, root, rep)), st1, Crit(p0, st0, st1), q, k + 1)
Init == \E k \in 1 .. Len(Prefixes) :
          LET z == After(AlgInit(Ln, LEN), EmptyLattice(LEN), <<0, 0, 0>>, Prefixes[k], 1)
          IN a = z[1] /\ st = z[2] /\ pc = z[3]
(* MASTER: only the first choice of representative bonds (fewer transitions; *)
(* that the choice does not matter is checked with MASTER = FALSE)           *)
Ways(s) == IF MASTER THEN {CHOOSE f \in Reps(a, s) : TRUE} ELSE Reps(a, s)
Place(s) ==
  /\ ~Occ(st, s) /\ a.n < DEPTH
  /\ \E root \in Roots(a, s), rep \in Ways(s) :
       a' = AlgDetect(AlgPlace(Ln, a, s, root, rep))
  /\ st' = Occupy(T, BT, st, s)
  /\ pc' = Crit(pc, st, st')
Next == \E s \in Sites(LEN) : Place(s)
Spec == Init /\ [][Next]_vars

(* P02, P03: labels are those of the components, the pool says the same *)
SameSites == \A s \in Sites(LEN) : (a.sg[s] >= 0) = Occ(st, s)
SameClusters ==
  /\ \A r \in Labels(st) : /\ a.sg[r] >= 0 /\ \A s \in Members(st, r) : a.sg[s] = a.sg[r]
                           /\ a.ps[a.sg[r]] = Members(st, r)
                           /\ a.pb[a.sg[r]] = BondsOf(LEN, Members(st, r))
  /\ \A r, q \in Labels(st) : r # q => a.sg[r] # a.sg[q]
PoolAgrees ==
  /\ \A g \in Bonds(LEN) : /\ a.pb[g] = {b \in Bonds(LEN) : a.bg[b] = g}
                           /\ a.ps[g] = {s \in Sites(LEN) : a.sg[s] = g}
(* P04, P06, P07: a test that looks only round the last site is enough *)
SameWrapping == /\ a.wrap = (st.first # -1)
                /\ a.wrap => a.ps[a.wid] = Members(st, st.first) /\ Cardinality(a.pb[a.wid]) = WrapBonds(st)
SameCritical == a.crit = pc
(* P05 *)
SameCoordinates ==
  \A s \in Occupied(st) : LET r == Lab(st, s) IN
     IF r \notin st.wind
     THEN Minus(a.rel[s], a.rel[r]) = <<st.cell[s][2], st.cell[s][3]>>
     ELSE LET q == Minus(Minus(a.rel[s], a.rel[r]), <<Row(LEN, s) - Row(LEN, r), Col(LEN, s) - Col(LEN, r)>>) IN
          q[1] % LEN = 0 /\ q[2] % LEN = 0
Coordinates == LEN >= 3 => SameCoordinates
(* P08, P09 *)
SameLargest == a.lsz = st.maxb
SameEntropy == LET h == BTimesEntropy(Ln, st) IN a.bh = h
=============================================================================
