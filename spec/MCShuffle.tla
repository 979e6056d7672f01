----------------------------- MODULE MCShuffle -----------------------------
(* Drawing an order: exchange the last entry with one drawn from those not   *)
(* yet fixed, and so on.  Checked: the result is always a permutation of the *)
(* given list and every permutation is reached (P27).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT SIZE
VARIABLES a, k
vars == <<a, k>>
Id == [i \in 1 .. SIZE |-> i]
Init == a = Id /\ k = SIZE
Swap(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]
Next == k > 1 /\ \E j \in 1 .. k : a' = Swap(a, k, j) /\ k' = k - 1
Spec == Init /\ [][Next]_vars
Perm == {a[i] : i \in 1 .. SIZE} = 1 .. SIZE
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Results(_, _)
Results(f, n) == IF n = 1 THEN {f} ELSE UNION {Results(Swap(f, n, j), n - 1) : j \in 1 .. n}
Every == (k = SIZE) => Cardinality(Results(a, k)) = Fact(SIZE)
=============================================================================
