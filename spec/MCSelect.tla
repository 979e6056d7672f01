------------------------------ MODULE MCSelect ------------------------------
(* Selection in the L1 and L2 models with the pool of candidates.  A         *)
(* candidate is withdrawn only when an attempt through it failed and nothing *)
(* can be reached through it any more.  Checked: every attempt is allowed by *)
(* the rule, empty sites stay in the pool, the pool runs empty exactly when  *)
(* nothing can be reached, and (with fair draws) the lattice fills and the   *)
(* final answer is given.                                                    *)
EXTENDS Sim, TLC
CONSTANTS LEN, KIND, START    \* START: sets of candidates the run may start with
VARIABLES occ, pool, start, done
vars == <<occ, pool, start, done>>
lat == [L |-> LEN, cell |-> [s \in Sites(LEN) |-> IF s \in occ THEN <<0, 0, 0>> ELSE <<-1, 0, 0>>]]

Init == occ = {} /\ start \in START /\ pool = start /\ done = FALSE
(* an attempt with candidate x and direction d: the site it occupies, or -1 *)
Target(x, d) == LET y == Nbr(LEN, x, d) IN
                IF x \notin occ THEN x ELSE IF y \notin occ THEN y
                ELSE IF KIND = "L2" /\ Nbr(LEN, y, d) \notin occ THEN Nbr(LEN, y, d) ELSE -1
Useless(x) == x \in occ /\ \A d \in Dirs : Target(x, d) = -1
Attempt(x, d) ==
  /\ x \in pool /\ ~done
  /\ LET z == Target(x, d) IN
       /\ occ' = IF z = -1 THEN occ ELSE occ \cup {z}
       /\ pool' = IF z = -1 /\ Useless(x) THEN pool \ {x} ELSE pool
       /\ UNCHANGED <<start, done>>
Finish == pool = {} /\ ~done /\ done' = TRUE /\ UNCHANGED <<occ, pool, start>>
Next == Finish \/ \E x \in Sites(LEN), d \in Dirs : Attempt(x, d)
(* fair draws: a draw that stays possible is made eventually *)
Fair == WF_vars(Finish) /\ \A x \in Sites(LEN), d \in Dirs : SF_vars(Attempt(x, d))
Spec == Init /\ [][Next]_vars /\ Fair
SafeSpec == Init /\ [][Next]_vars

(* P13, P14 *)
OneSite == [][Cardinality(occ' \ occ) <= 1 /\ occ \subseteq occ']_vars
ByTheRule == [][\A s \in occ' \ occ : \E x \in pool : s \in Reach(KIND, lat, x)]_vars
RuleExact == \A x \in Sites(LEN) :
   /\ {Target(x, d) : d \in Dirs} \ {-1} = Reach(KIND, lat, x)
   /\ (\E d \in Dirs : Target(x, d) = -1) = MissPossible(KIND, lat, x)
(* P15 *)
OnlyUseless == \A x \in start \ pool : Useless(x)
EmptyDrawable == \A x \in start : x \notin occ => x \in pool
StopExact == pool = {} => \A x \in start : Reach(KIND, lat, x) = {}
DoneFull == (done /\ start = Sites(LEN)) => occ = Sites(LEN)
Progress == (pool # {}) => \E x \in pool, d \in Dirs : Target(x, d) # -1 \/ Useless(x)
Ends == <>done
=============================================================================
