-------------------------------- MODULE Sim --------------------------------
(* A simulator object: the lattice state of Perc.tla plus everything a user  *)
(* of the object can tell: the order of placements, the latched wrapping     *)
(* verdict and critical values, the recorded rows, and the list of sites     *)
(* (plain kinds) or candidates (L1, L2) the next placement is drawn from.    *)
(* The operators below are the actions of the system; MCHist.tla explores    *)
(* them exhaustively, Trace.tla replays recorded executions through them.    *)
EXTENDS Perc

Range_(q) == {q[i] : i \in 1 .. Len(q)}

Plain(kind) == kind \in {"plain", "L0", "SP"}

(*  order   sites in the order of occupation (this realization)              *)
(*  rows    rows recorded by runs: <<n, entropy*B*10^5, maxb, wrapping>>     *)
(*  rep     wrapping has been reported;  pc = <<n, sites, bonds>> then       *)
(*  asked   the wrapping test was asked after the last placement             *)
(*  missed  the first winding placement was not followed by the test         *)
(*  cust/shuf/list/cur   custom list, and number of its entries used         *)
(*  mixed   the list was replaced after placements                           *)
(*  tried   an attempt failed;  carry: before the candidates were replaced   *)
(*  pstar   occupied sites at the shortest-path point, 0 if none             *)
NewSim(kind, L) ==
  [ kind |-> kind, lat |-> EmptyLattice(L), order |-> <<>>, rows |-> <<>>,
    rep |-> FALSE, pc |-> <<0, 0, 0>>, asked |-> TRUE, missed |-> FALSE,
    cust |-> FALSE, shuf |-> FALSE, list |-> <<>>, cur |-> 0, mixed |-> FALSE,
    tried |-> FALSE, carry |-> FALSE,
    pstar |-> 0 ]

N(sim) == sim.lat.L * sim.lat.L
B(sim) == 2 * N(sim)
Empty(sim, s) == ~Occ(sim.lat, s)

(***** what the next placement may do *****)
(* sites an attempt with candidate x can occupy *)
Reach(kind, lat, x) ==
  LET L == lat.L
      E(s) == ~Occ(lat, s)
      Y(d) == Nbr(L, x, d)
      Z(d) == Nbr(L, Y(d), d)
  IN IF E(x) THEN {x}
     ELSE IF kind = "L1" THEN {Y(d) : d \in {e \in Dirs : E(Y(e))}}
     ELSE {Y(d) : d \in {e \in Dirs : E(Y(e))}}
          \cup {Z(d) : d \in {e \in Dirs : ~E(Y(e)) /\ E(Z(e))}}
(* can an attempt with candidate x fail? *)
MissPossible(kind, lat, x) ==
  LET L == lat.L
      E(s) == ~Occ(lat, s)
      Y(d) == Nbr(L, x, d)
      Z(d) == Nbr(L, Y(d), d)
  IN ~E(x) /\ \E d \in Dirs : ~E(Y(d)) /\ (kind = "L1" \/ ~E(Z(d)))

Pool(sim) == IF sim.cust THEN Range_(sim.list) ELSE Sites(sim.lat.L)

MayOccupy(sim, s) ==
  /\ s \in Sites(sim.lat.L) /\ Empty(sim, s)
  /\ IF Plain(sim.kind)
     THEN ~sim.cust \/ (/\ sim.cur < Len(sim.list)
                        /\ IF sim.shuf THEN s \in Range_(sim.list) ELSE s = sim.list[sim.cur + 1])
     ELSE s \in Pool(sim) \/ \E x \in Pool(sim) : s \in Reach(sim.kind, sim.lat, x)
MayMiss(sim) == ~Plain(sim.kind) /\ \E x \in Pool(sim) : MissPossible(sim.kind, sim.lat, x)
MayStop(sim) ==
  IF Plain(sim.kind) THEN (IF sim.cust THEN sim.cur >= Len(sim.list) ELSE sim.lat.n = N(sim))
  ELSE sim.carry \/ \A x \in Pool(sim) : Reach(sim.kind, sim.lat, x) = {}

(***** actions *****)
SimMiss(sim) == [sim EXCEPT !.tried = TRUE]
SimPlace(T, BT, sim, s) ==
  [sim EXCEPT !.lat = Occupy(T, BT, @, s), !.order = Append(@, s), !.cur = @ + 1,
              !.missed = @ \/ (~sim.asked /\ ~sim.rep /\ sim.lat.first # -1),
              !.asked = FALSE]
SimDetect(sim) ==
  IF sim.missed THEN sim
  ELSE [sim EXCEPT !.asked = TRUE,
                   !.rep = sim.lat.first # -1,
                   !.pc = IF ~sim.rep /\ sim.lat.first # -1
                          THEN <<sim.lat.n, sim.lat.ns[sim.lat.first], sim.lat.nb[sim.lat.first]>>
                          ELSE @]
WrapValue(sim) == IF sim.rep THEN WrapBonds(sim.lat) ELSE 0
SimRow(Ln, sim) ==
  [sim EXCEPT !.rows = Append(@, <<sim.lat.n, BTimesEntropy(Ln, sim.lat), sim.lat.maxb, WrapValue(sim)>>)]
(* a step of the truncated run (test_run_once), which stops at the wrapping placement without recording it *)
SimTestRow(Ln, sim) == IF sim.rep THEN sim ELSE SimRow(Ln, sim)
SimReset(sim) ==
  IF Plain(sim.kind)
  THEN [NewSim(sim.kind, sim.lat.L) EXCEPT !.cust = sim.cust, !.shuf = sim.shuf, !.list = sim.list]
  ELSE NewSim(sim.kind, sim.lat.L)
ValidList(sim, l) == l # <<>> /\ \A i \in 1 .. Len(l) : l[i] \in Sites(sim.lat.L)
SimCustom(sim, l, shuffled) ==
  IF ValidList(sim, l)
  THEN [sim EXCEPT !.cust = TRUE, !.shuf = shuffled, !.list = l, !.mixed = sim.lat.n > 0,
                        !.carry = @ \/ sim.tried]
  ELSE sim

(* a complete row or column inside the wrapping cluster *)
Line(sim) == sim.rep /\ (HasRow(sim.lat, sim.lat.first) \/ HasCol(sim.lat, sim.lat.first))
SimStar(sim) == [sim EXCEPT !.pstar = IF Line(sim) THEN sim.lat.n ELSE 0]
=============================================================================
