----------------------------- MODULE MCCrossing -----------------------------
(* Every pair of curves, by the signs of their difference, up to MAXLEN.     *)
EXTENDS Crossing, TLC
CONSTANT MAXLEN
VARIABLES s
Init == s \in {<<x, y>> : x \in -1 .. 1, y \in -1 .. 1}
Next == Len(s) < MAXLEN /\ \E x \in -1 .. 1 : s' = Append(s, x)
Spec == Init /\ [][Next]_s
Correct == Answer(s, Algorithm(s))
(* a single direct change of sign without zeros is bracketed *)
Single == (Cardinality(Direct(s)) = 1 /\ \A k \in 1 .. Len(s) : s[k] # 0) =>
             LET i == Algorithm(s) IN /\ \A k \in 1 .. i + 1 : s[k] = s[1]
                                      /\ \A k \in i + 2 .. Len(s) : s[k] = -s[1]
(* appending samples never moves a direct change found before *)
Stable == [][Direct(s) # {} => Algorithm(s') = Algorithm(s)]_s
=============================================================================
