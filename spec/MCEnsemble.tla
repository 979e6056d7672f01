----------------------------- MODULE MCEnsemble -----------------------------
(* A parallel launch: k workers share n realizations, each makes its own     *)
(* simulator, runs its share, reads the clock and writes its two files.      *)
(* Steps of different workers interleave arbitrarily, the clock advances or  *)
(* does not, and at most one worker dies at any point.                       *)
EXTENDS Ensemble, TLC
CONSTANTS MAXN, MAXK, CLOCK, NUMBERED   \* NUMBERED: the file name carries the worker number
VARIABLES n, k, pc, ran, clock, stamp, files, dead, joined
vars == <<n, k, pc, ran, clock, stamp, files, dead, joined>>
Workers == 0 .. k - 1
Active == {w \in Workers : Share(n, k, w) > 0}
Name(w, q, s) == <<q, s, IF NUMBERED THEN w ELSE 0>>

Init == /\ n \in 1 .. MAXN /\ k \in 1 .. MAXK
        /\ pc = [w \in 0 .. k - 1 |-> IF Share(n, k, w) > 0 THEN "run" ELSE "none"]
        /\ ran = [w \in 0 .. k - 1 |-> <<>>]
        /\ clock = 0 /\ stamp = [w \in 0 .. k - 1 |-> -1] /\ files = <<>> /\ dead = {} /\ joined = FALSE
(* realization i of worker w is the pair <<w, i>> *)
RunOne(w) == /\ pc[w] = "run" /\ Len(ran[w]) < Share(n, k, w)
             /\ ran' = [ran EXCEPT ![w] = Append(@, <<w, Len(@) + 1>>)]
             /\ UNCHANGED <<n, k, pc, clock, stamp, files, dead, joined>>
Stamp(w) == /\ pc[w] = "run" /\ Len(ran[w]) = Share(n, k, w)
            /\ pc' = [pc EXCEPT ![w] = "mean"] /\ stamp' = [stamp EXCEPT ![w] = clock]
            /\ UNCHANGED <<n, k, ran, clock, files, dead, joined>>
Write(w, q, nxt) == /\ files' = (Name(w, q, stamp[w]) :> [by |-> w, en |-> Share(n, k, w), rows |-> ran[w],
                                     over |-> Name(w, q, stamp[w]) \in DOMAIN files]) @@ files
                    /\ pc' = [pc EXCEPT ![w] = nxt]
                    /\ UNCHANGED <<n, k, ran, clock, stamp, dead, joined>>
WriteMean(w) == pc[w] = "mean" /\ Write(w, "entropy_order", "crit")
WriteCrit(w) == pc[w] = "crit" /\ Write(w, "critical_values", "end")
Die(w) == /\ dead = {} /\ pc[w] \in {"run", "mean", "crit"}
          /\ pc' = [pc EXCEPT ![w] = "dead"] /\ dead' = {w}
          /\ UNCHANGED <<n, k, ran, clock, stamp, files, joined>>
Tick == clock < CLOCK /\ clock' = clock + 1 /\ UNCHANGED <<n, k, pc, ran, stamp, files, dead, joined>>
Join == /\ ~joined /\ \A w \in Workers : pc[w] \in {"end", "dead", "none"}
        /\ joined' = TRUE /\ UNCHANGED <<n, k, pc, ran, clock, stamp, files, dead>>
Next == Tick \/ Join \/ \E w \in Workers : RunOne(w) \/ Stamp(w) \/ WriteMean(w) \/ WriteCrit(w) \/ Die(w)
Fair == WF_vars(Join) /\ \A w \in 0 .. MAXK - 1 : WF_vars(w < k /\ (RunOne(w) \/ Stamp(w) \/ WriteMean(w) \/ WriteCrit(w)))
Spec == Init /\ [][Next]_vars /\ Fair
SafeSpec == Init /\ [][Next]_vars

(* P20 *)
SharesAddUp == SumTo(n, k, k - 1) = n /\ \A w \in Workers : Share(n, k, w) >= 0
AllRun == (joined /\ dead = {}) => LET R == UNION {{ran[w][i] : i \in 1 .. Len(ran[w])} : w \in Workers} IN Cardinality(R) = n
OwnFiles == \A f \in DOMAIN files : ~files[f].over
OnlyOwnShareLost == joined => \A w \in Active \ dead : Cardinality({f \in DOMAIN files : files[f].by = w}) = 2
Joins == <>joined
(* P19 *)
RowsInOrder == \A f \in DOMAIN files : /\ Len(files[f].rows) = files[f].en
                                       /\ \A i \in 1 .. Len(files[f].rows) : files[f].rows[i] = <<files[f].by, i>>
(* P21 *)
HeaderTrue == \A f \in DOMAIN files : files[f].en = Share(n, k, files[f].by)
=============================================================================
