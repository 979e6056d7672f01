------------------------------- MODULE Trace -------------------------------
(* Replays recorded executions of the real code (one JSON object per line of *)
(* the file named by TRACES) through the model.  Each line is a trace:       *)
(*   [ id, Ls: side lengths used, ev: sequence of events ].                  *)
(* A step consumes one event; the set of violated clauses is printed as a    *)
(* FAIL line.  Every trace ends with a DONE line: verdicts are total.        *)
EXTENDS Results, Walk, Coarse, TLC, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACES)
Ln == JsonDeserialize(IOEnv.LNFILE)
AllLs == UNION {Range_(TraceLog[t].Ls) : t \in 1 .. Len(TraceLog)}
NT == [l \in AllLs |-> NbrTable(l)]
BTb == [l \in AllLs |-> BondTable(l)]
ETb == [l \in AllLs |-> EndTable(l)]

VARIABLES t, i, sims, memo, held
vars == <<t, i, sims, memo, held>>

(* a step's result: [sims, memo, held, fails, stop] *)
Bool(x) == x = 1
Obs_(sim, e) == IF Has(e, "o") THEN ObsFails(Ln, ETb[sim.lat.L], sim, e.o) ELSE {}

Res(id, sim, fails, stop) == [sims |-> (id :> sim) @@ sims, memo |-> memo, held |-> held, fails |-> fails, stop |-> stop]
Just(fails, stop) == [sims |-> sims, memo |-> memo, held |-> held, fails |-> fails, stop |-> stop]

(* an attempt that occupied the sites new, emptied the sites gone *)
Attempt(sim, e) ==
  IF e.gone # <<>> \/ Len(e.new) > 1
  THEN [sim |-> sim, fails |-> {"P02.onesite"}, stop |-> TRUE]
  ELSE IF Len(e.new) = 1
  THEN LET s == e.new[1]
           L == sim.lat.L
           ok == MayOccupy(sim, s)
       IN [sim |-> SimPlace(NT[L], BTb[L], sim, s),
           fails |-> (IF ok THEN {} ELSE
                       {IF sim.kind = "L1" THEN "P13.allowed" ELSE IF sim.kind = "L2" THEN "P14.allowed" ELSE "P12.order"})
                     \cup Chk(Bool(e.ret), "P02.answer"),
           stop |-> FALSE]
  ELSE [sim |-> SimMiss(sim),
        fails |-> IF Bool(e.ret)
                  THEN (IF Plain(sim.kind) THEN {"P02.answer"} ELSE
                        Chk(MayMiss(sim), IF sim.kind = "L1" THEN "P13.miss" ELSE "P14.miss"))
                  ELSE Chk(MayStop(sim), IF Plain(sim.kind) THEN (IF sim.cust THEN "P12.stop" ELSE "P02.stop") ELSE "P15.stop"),
        stop |-> FALSE]

DoNew(e) == LET s == NewSim(e.kind, e.L) IN Res(e.id, s, Obs_(s, e), FALSE)
(* the answer yes only says that there was something left: whether a site was placed is told by the flag *)
Told(e) == IF Has(e, "flag") /\ e.ret = 1 THEN Chk(Bool(e.flag) <=> e.new # <<>>, "P02.report") ELSE {}
DoPlace(e) == LET a == Attempt(sims[e.id], e) IN Res(e.id, a.sim, a.fails \cup Told(e) \cup (IF a.stop THEN {} ELSE Obs_(a.sim, e)), a.stop)
DoDetect(e) ==
  LET s0 == sims[e.id]
      s == SimDetect(s0)
  IN Res(e.id, s, (IF s0.missed THEN {} ELSE
                   Chk(Bool(e.ret) => s.rep, "P04.early") \cup Chk(s.rep => Bool(e.ret), "P04.missed"))
                  \cup Obs_(s, e), FALSE)
(* one placement made inside a run, with the recorded values *)
DoRow(e) ==
  LET s0 == sims[e.id]
      a == Attempt(s0, [new |-> e.new, gone |-> <<>>, ret |-> 1])
      s == SimRow(Ln, SimDetect(a.sim))
      r == s.rows[Len(s.rows)]
      f == a.fails
           \cup (IF Has(e, "p") THEN Chk(e.p = r[1], "P10.p") ELSE {})
           \cup (IF Has(e, "h") THEN Chk(Near(B(s), e.h, r[2]), "P09.row") ELSE {})
           \cup (IF Has(e, "m") THEN Chk(e.m = r[3], "P08.row") ELSE {})
           \cup (IF Has(e, "w") /\ ~s.missed THEN Chk(e.w = r[4], "P07.row") ELSE {})
  IN IF a.stop THEN Res(e.id, a.sim, a.fails, TRUE) ELSE Res(e.id, s, f, FALSE)
(* a placement made inside a truncated run (first: the first one of that run); it must not go on after wrapping *)
DoTestRow(e) ==
  LET s0 == sims[e.id]
      a == Attempt(s0, [new |-> e.new, gone |-> <<>>, ret |-> 1])
      s == SimTestRow(Ln, SimDetect(a.sim))
  IN IF s0.missed \/ (Bool(e.first) /\ ~s0.asked) THEN Res(e.id, s0, {}, TRUE)  \* nothing is claimed here
     ELSE IF a.stop THEN Res(e.id, a.sim, a.fails, TRUE)
     ELSE Res(e.id, s, a.fails \cup Chk(Bool(e.first) \/ ~s0.rep, "P10.truncated"), FALSE)
DoTestEnd(e) ==
  LET s == sims[e.id] IN
  Res(e.id, s, Chk((s.rep /\ Bool(e.some)) \/ MayStop(s), "P10.truncated") \cup Obs_(s, e), FALSE)
(* one placement made inside a shortest-path run: it must not go on after a line *)
DoSpStep(e) ==
  LET s0 == sims[e.id]
      over == Line(s0)
      a == Attempt(s0, [new |-> e.new, gone |-> <<>>, ret |-> 1])
      s == SimDetect(a.sim)
  IN IF a.stop THEN Res(e.id, a.sim, a.fails, TRUE)
     ELSE Res(e.id, s, a.fails \cup Chk(~over, "P18.late"), FALSE)
DoRunEnd(e) ==
  LET s0 == sims[e.id]
      s == IF s0.kind = "SP" THEN SimStar(s0) ELSE s0
      f == IF s.kind = "SP"
           THEN Chk(Line(s) \/ MayStop(s), "P18.early")
           ELSE Chk(MayStop(s), IF Plain(s.kind) THEN (IF s.cust THEN "P12.runstop" ELSE "P02.runstop") ELSE "P15.runstop")
  IN Res(e.id, s, f \cup Obs_(s, e), FALSE)
(* a whole realization at once: what each attempt occupied and answered, the answer of the wrapping *)
(* test after it, and what the simulator then said of itself                                        *)
DoReal(e) ==
  LET L == e.L
      new == NewSim(e.kind, L)
      s1 == IF e.list = <<>> THEN new ELSE SimCustom(new, e.list, FALSE)
      step(acc, k) ==
        IF acc.stop THEN acc
        ELSE LET a == Attempt(acc.sim, [new |-> e.new[k], gone |-> e.gone[k], ret |-> e.ret[k]])
                 s == SimDetect(a.sim)
             IN [sim |-> s, stop |-> a.stop,
                 fails |-> acc.fails \cup a.fails
                           \cup (IF a.stop THEN {} ELSE
                                  (IF a.sim.missed THEN {} ELSE
                                     Chk(Bool(e.det[k]) => s.rep, "P04.early") \cup Chk(s.rep => Bool(e.det[k]), "P04.missed"))
                                  \cup ObsFails(Ln, ETb[L], s, e.os[k]))]
  IN Just(FoldLeft(step, [sim |-> s1, stop |-> FALSE, fails |-> {}], [k \in 1 .. Len(e.new) |-> k]).fails, FALSE)
DoReset(e) == LET s == SimReset(sims[e.id]) IN
  Res(e.id, s, (IF Obs_(s, e) = {} THEN {} ELSE {"P11.reset"} \cup Obs_(s, e)), FALSE)
DoCustom(e) ==
  LET s0 == sims[e.id]
      s == SimCustom(s0, e.list, Bool(e.shuf))
  IN Res(e.id, s, Obs_(s, e) \cup Chk(e.after = e.before, "P12.callerslist")
                  \cup (IF Has(e, "seq") /\ Plain(s.kind) /\ s.cust THEN
                          Chk(IF s.shuf THEN Range_(e.seq) = Range_(s.list) /\ Len(e.seq) = Len(s.list)
                              ELSE e.seq = s.list, "P12.sequence") ELSE {}), FALSE)
DoObs(e) == Res(e.id, sims[e.id], Obs_(sims[e.id], e)
                 \cup (IF Has(e, "ret0") THEN Chk(e.ret0 = e.ret1, "P22.answer") ELSE {}), FALSE)
(* something handed out (give), looked at again later (check) *)
DoGive(e) == [sims |-> sims, memo |-> memo, held |-> (e.h :> e.val) @@ held, fails |-> {}, stop |-> FALSE]
DoCheck(e) == Just(Chk(held[e.h] = e.val, IF Has(e, "clause") THEN e.clause ELSE "P11.handedout"), FALSE)
(* functional dependence: the same key always has the same value (up to tol) *)
SameVal(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : a[k] = b[k] \/ (tol > 0 /\ Abs(a[k] - b[k]) <= tol)
SamePairs(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : Same2(a[k], b[k], tol)
DoMemo(e) ==
  IF e.key \in DOMAIN memo
  THEN Just(Chk(IF Has(e, "pair") THEN SamePairs(memo[e.key], e.val, e.tol) ELSE SameVal(memo[e.key], e.val, e.tol), e.clause), FALSE)
  ELSE [sims |-> sims, memo |-> (e.key :> e.val) @@ memo, held |-> held, fails |-> {}, stop |-> FALSE]
(* all outcomes seen in many attempts with one candidate in one configuration:
   occ = occupied sites, x = candidate, seen = sites occupied, miss = some attempt failed *)
DoForced(e) ==
  LET lat == [L |-> e.L, cell |-> [s \in Sites(e.L) |-> IF s \in Range_(e.occ) THEN <<0, 0, 0>> ELSE <<-1, 0, 0>>]]
      R == Reach(e.kind, lat, e.x)
      P == IF Has(e, "pre") THEN e.pre ELSE IF e.kind = "L1" THEN "P13." ELSE "P14."
  IN Just(Chk(Range_(e.seen) \subseteq R, P \o "allowed")
          \cup Chk(R \subseteq Range_(e.seen), P \o "possible")
          \cup Chk(Bool(e.miss) => MissPossible(e.kind, lat, e.x), P \o "miss")
          \cup Chk(MissPossible(e.kind, lat, e.x) => Bool(e.miss), P \o "misspossible")
          \cup Chk(e.bad = 0, P \o "onesite"), FALSE)
(* successes out of K attempts in four configurations that differ only in the direction that leads   *)
(* to an empty site: one draw per attempt that does not look at the state makes them add up to K     *)
DoRates(e) ==
  LET P == IF e.kind = "L1" THEN "P13." ELSE "P14."
      sum == e.hits[1] + e.hits[2] + e.hits[3] + e.hits[4]
  IN Just(Chk(\A d \in 1 .. 4 : e.hits[d] > 0, P \o "possible")
          \cup Chk(Abs(sum - e.K) * 10 <= 4 * e.K, P \o "onedraw"), FALSE)
(* first attempts in one long realization, each with exactly one of the four directions open, chosen *)
(* at random: one draw per attempt succeeds once in four (five standard deviations are allowed)      *)
DoRate1(e) ==
  LET d == 4 * e.hits - e.n IN
  Just(Chk(e.n < 100 \/ d * d <= 75 * e.n, (IF e.kind = "L1" THEN "P13." ELSE "P14.") \o "onedraw"), FALSE)
(* an attempt with whatever list: done and reported, or neither *)
DoFree(e) ==
  Just(Chk(e.gone = <<>> /\ Len(e.new) <= 1, "P02.onesite")
       \cup Chk((e.ret = 1) = (Len(e.new) = 1) /\ e.ret # 3, "P02.answer")
       \cup Chk(e.p = e.before + Len(e.new), "P02.probability"), FALSE)
(* many random orders of n sites: permutations, no two alike, every site at every position, and  *)
(* (pairs) every site directly after every other                                                *)
DoCoverage(e) ==
  LET S == Range_(e.seen)
      P == 0 .. e.n - 1
  IN Just(Chk(\A q \in S : Len(q) = e.n /\ Range_(q) = P, "P27.permutation")
          \cup (IF \E q \in S : Len(q) # e.n THEN {} ELSE
                Chk(Cardinality(S) = Len(e.seen), "P27.differ")
                \cup Chk(\A k \in 1 .. e.n : {q[k] : q \in S} = P, "P27.everyposition")
                \cup Chk(e.pairs = 0 \/ Cardinality(UNION {{<<q[k], q[k+1]>> : k \in 1 .. e.n - 1} : q \in S}) = e.n * (e.n - 1),
                         "P27.everypair")), FALSE)
(* the cycles (given as a witness, and checked) of a permutation of 0 .. n-1; n minus their number is its parity *)
AreCycles(q, cs) ==
  /\ \A k \in 1 .. Len(cs) : LET c == cs[k] IN c # <<>> /\ \A j \in 1 .. Len(c) : q[c[j] + 1] = c[(j % Len(c)) + 1]
  /\ FoldLeft(LAMBDA x, c : x + Len(c), 0, cs) = Len(q)
  /\ Cardinality(UNION {Range_(cs[k]) : k \in 1 .. Len(cs)}) = Len(q)
(* orders of a larger lattice: every block of sites at every stage, every block after every other, *)
(* even and odd permutations, the same and the other parity as the one before                     *)
DoBlocks(e) ==
  LET P == 0 .. e.n - 1
      K == Len(e.orders)
      ok == \A k \in 1 .. K : Len(e.orders[k]) = e.n /\ Range_(e.orders[k]) = P
      par == [k \in 1 .. K |-> (e.n - Len(e.cycles[k])) % 2]
      all == {<<a, b>> : a \in 0 .. e.B - 1, b \in 0 .. e.B - 1}
  IN Just(IF ~ok THEN {"P27.permutation"} ELSE
          Chk(Range_(e.site) = all /\ (e.col = <<>> \/ Range_(e.col) = all), "P27.everyposition")
          \cup Chk(Range_(e.step) = all, "P27.everypair")
          \cup Chk(\A k \in 1 .. Len(e.off) : Cardinality(Range_(e.off[k])) = e.C * e.C, "P27.related")
          \cup Chk(\A k \in 1 .. K : AreCycles(e.orders[k], e.cycles[k]), "ANY.exception")
          \cup Chk({par[k] : k \in 1 .. K} = {0, 1}
                   /\ {(par[k] + par[k+1]) % 2 : k \in 1 .. K - 1} = {0, 1}, "P27.parity"), FALSE)
(* the next site occupied over many seeds, per configuration reached: every empty one occurs *)
DoDrawable(e) == Just(Chk(\A k \in 1 .. Len(e.groups) :
                            LET g == e.groups[k] IN (0 .. e.n - 1) \ Range_(g.occ) = Range_(g.seen), "P15.drawable"), FALSE)
(* the set of orders seen over many seeds *)
DoOrders(e) == Just(Chk(\A k \in 1 .. Len(e.seen) : Range_(e.seen[k]) = Range_(e.sites) /\ Len(e.seen[k]) = Len(e.sites), "P27.permutation")
                    \cup Chk(Cardinality(Range_(e.seen)) = e.expect, "P27.everyorder"), FALSE)
DoExc(e) == Just({"ANY.exception"}, TRUE)

Step(e) ==
  CASE e.k = "new" -> DoNew(e)
    [] e.k = "place" -> DoPlace(e)
    [] e.k = "detect" -> DoDetect(e)
    [] e.k = "row" -> DoRow(e)
    [] e.k = "trow" -> DoTestRow(e)
    [] e.k = "trowend" -> DoTestEnd(e)
    [] e.k = "spstep" -> DoSpStep(e)
    [] e.k = "real" -> DoReal(e)
    [] e.k = "runend" -> DoRunEnd(e)
    [] e.k = "reset" -> DoReset(e)
    [] e.k = "custom" -> DoCustom(e)
    [] e.k = "obs" -> DoObs(e)
    [] e.k = "give" -> DoGive(e)
    [] e.k = "check" -> DoCheck(e)
    [] e.k = "memo" -> DoMemo(e)
    [] e.k = "forced" -> DoForced(e)
    [] e.k = "orders" -> DoOrders(e)
    [] e.k = "rates" -> DoRates(e)
    [] e.k = "rate1" -> DoRate1(e)
    [] e.k = "free" -> DoFree(e)
    [] e.k = "coverage" -> DoCoverage(e)
    [] e.k = "blocks" -> DoBlocks(e)
    [] e.k = "walk" -> Just(WalkFails(e), FALSE)
    [] e.k = "coarse" -> Just(CoarseFails(e, Ln), FALSE)
    [] e.k = "line" -> Just(LineFails(e), FALSE)
    [] e.k = "nearline" -> Just(NearFails(e), FALSE)
    [] e.k = "drawable" -> DoDrawable(e)
    [] e.k = "lat" -> Just(LatticeFails(e), FALSE)
    [] e.k = "cross" -> Just(CrossFails(e), FALSE)
    [] e.k = "guide" -> Just(GuideFails(e), FALSE)
    [] e.k = "ens" -> Just(EnsFails(e), FALSE)
    [] e.k = "file" -> Just(FileFails(e), FALSE)
    [] e.k = "sp" -> Just(SpFails(e), FALSE)
    [] e.k = "launch" -> Just(LaunchFails(e), FALSE)
    [] e.k = "exc" -> DoExc(e)

Init == /\ t \in 1 .. Len(TraceLog)
        /\ i = 0 /\ sims = <<>> /\ memo = <<>> /\ held = <<>>
Next ==
  /\ i >= 0
  /\ IF i < Len(TraceLog[t].ev)
     THEN LET r == Step(TraceLog[t].ev[i+1]) IN
          /\ (r.fails # {}) => PrintT("@@FAIL " \o ToJson(<<t, i + 1, r.fails>>))
          /\ sims' = r.sims /\ memo' = r.memo /\ held' = r.held
          /\ i' = IF r.stop THEN -1 ELSE i + 1
          /\ r.stop => PrintT("@@DONE " \o ToJson(<<t, i + 1>>))
     ELSE /\ PrintT("@@DONE " \o ToJson(<<t, i>>))
          /\ i' = -1 /\ sims' = <<>> /\ memo' = <<>> /\ held' = <<>>
  /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
