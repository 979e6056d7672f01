------------------------------- MODULE MCHist -------------------------------
(* Every history of calls on one simulator (plain kind) on a small lattice:  *)
(* placements with or without the wrapping test, runs, custom lists          *)
(* (followed, shuffled, replaced, refused), resets.  Without the history     *)
(* variable the state space is finite and explored completely; with GEN, TLC *)
(* simulates and prints histories, which are then replayed into the code.    *)
EXTENDS Sim, TLC, Json, IOUtils

CONSTANTS LEN, FAMILIES, KINDS_, GEN, DEPTH   \* FAMILIES: sets of lists; a history uses the lists of one family
VARIABLES sim, hist, fresh, LISTS
(* fresh: reference realization of a new simulator driven by the same placements and tests since the last reset *)
vars == <<sim, hist, fresh, LISTS>>

Families2 == {{<<2, 0>>, <<2, 0, 3, 1>>, <<0, 3, 1>>, <<4, 0>>}}
FamFile == JsonDeserialize(IOEnv.FAMILIES)
Families3 == {Range_(FamFile[k]) : k \in 1 .. Len(FamFile)}

T == NbrTable(LEN)
BT == BondTable(LEN)
LnF == JsonDeserialize(IOEnv.LNFILE)
Log(e) == hist' = IF GEN THEN Append(hist, e) ELSE hist
Strip(x) == [x EXCEPT !.cust = FALSE, !.shuf = FALSE, !.list = <<>>, !.cur = 0, !.mixed = FALSE]

Init == \E k \in KINDS_ : /\ sim = NewSim(k, LEN) /\ hist = <<>> /\ fresh = NewSim(k, LEN)
        /\ LISTS \in FAMILIES

Place == \E s \in Sites(LEN) : MayOccupy(sim, s) /\ sim' = SimPlace(T, BT, sim, s)
         /\ fresh' = SimPlace(T, BT, fresh, s) /\ Log(<<"place">>)
Stopped == MayStop(sim) /\ sim' = sim /\ fresh' = fresh /\ Log(<<"place">>)
Detect == /\ ~sim.asked \/ sim.lat.n = 0
          /\ sim' = SimDetect(sim) /\ fresh' = SimDetect(fresh) /\ Log(<<"detect">>)
(* one step of a run; the whole run is the repetition until MayStop *)
RunStep(x, s) == SimRow(LnF, SimDetect(SimPlace(T, BT, x, s)))
RECURSIVE RunAll(_, _)
RunAll(x, y) ==  \* the set of possible results <<simulator, reference>>
  IF MayStop(x) THEN {<<x, y>>}
  ELSE LET C == {q \in Sites(LEN) : MayOccupy(x, q)}
       \* which sites end up occupied does not depend on the order: one order is enough to generate histories
       IN UNION {RunAll(RunStep(x, s), RunStep(y, s)) : s \in IF GEN THEN {MinOf(C)} ELSE C}
Run == \E r \in RunAll(sim, fresh) : sim' = r[1] /\ fresh' = r[2] /\ Log(<<"run">>)
(* the truncated run: up to the wrapping placement *)
TestStep(x, s) == SimTestRow(LnF, SimDetect(SimPlace(T, BT, x, s)))
RECURSIVE TestAll(_, _)
TestAll(x, y) ==
  IF MayStop(x) THEN {<<x, y>>}
  ELSE LET C == {q \in Sites(LEN) : MayOccupy(x, q)}
       IN UNION {LET a == TestStep(x, s)
                     b == TestStep(y, s)
                 IN IF a.rep THEN {<<a, b>>} ELSE TestAll(a, b) : s \in IF GEN THEN {MinOf(C)} ELSE C}
TestRun == /\ sim.asked /\ ~sim.missed
           /\ \E r \in TestAll(sim, fresh) : sim' = r[1] /\ fresh' = r[2] /\ Log(<<"testrun">>)
Reset == /\ sim' = SimReset(sim) /\ fresh' = NewSim(sim.kind, LEN) /\ Log(<<"reset">>)
(* legal use of a list: its entries after those already used are empty sites, each once *)
Legal(l, sh) == /\ (sh => sim.cur = 0)
                /\ IF ValidList(sim, l)
                   THEN \A a, b \in sim.cur + 1 .. Len(l) : Empty(sim, l[a]) /\ (a # b => l[a] # l[b])
                   ELSE TRUE
Custom == \E l \in LISTS : \E sh \in BOOLEAN :
            /\ Legal(l, sh)
            /\ (sim.cur = 0 => Cardinality(Range_(l)) = Len(l))
            /\ sim' = SimCustom(sim, l, sh) /\ fresh' = fresh /\ Log(<<"custom", l, sh>>)
Next == (Place \/ Stopped \/ Detect \/ Run \/ TestRun \/ Reset \/ Custom) /\ UNCHANGED LISTS
Spec == Init /\ [][Next]_vars
Stop == GEN => Len(hist) < DEPTH
Emit == (GEN /\ Len(hist) = DEPTH) => PrintT("@@HIST " \o ToJson(hist))

(* P02 *)
Bookkeeping == /\ sim.lat.n = Len(sim.order) /\ Cardinality(Range_(sim.order)) = Len(sim.order)
               /\ Range_(sim.order) = Occupied(sim.lat)
(* P04, P06 *)
Latched == /\ sim.rep => sim.lat.first # -1
           /\ ~sim.rep => sim.pc = <<0, 0, 0>>
           /\ (sim.asked /\ ~sim.missed) => sim.rep = (sim.lat.first # -1)
Frozen == [][(sim.rep /\ sim'.rep) => sim'.pc = sim.pc]_vars
(* P10 *)
Table == /\ Len(sim.rows) <= sim.lat.n
         /\ \A k \in 1 .. Len(sim.rows) : Len(sim.rows[k]) = 4
         /\ \A k \in 2 .. Len(sim.rows) : /\ sim.rows[k][1] > sim.rows[k-1][1]
                                          /\ NotMore(sim.rows[k][2], sim.rows[k-1][2], 0)
                                          /\ sim.rows[k][3] >= sim.rows[k-1][3]
                                          /\ sim.rows[k][4] >= sim.rows[k-1][4]
(* P11: what happened before the last reset makes no difference *)
AsNew == Strip(sim) = Strip(fresh)
(* P12 *)
Follows == (sim.cust /\ ~sim.shuf /\ ~sim.mixed) => /\ Len(sim.order) <= Len(sim.list)
                                                    /\ sim.order = SubSeq(sim.list, 1, Len(sim.order))
Within == (sim.cust /\ sim.shuf) => Range_(sim.order) \subseteq Range_(sim.list)
EndsWithList == (sim.cust /\ ~sim.mixed /\ MayStop(sim)) => Range_(sim.order) = Range_(sim.list)
Refused == [][\A l \in LISTS : ~ValidList(sim, l) => SimCustom(sim, l, TRUE) = sim]_vars
=============================================================================
