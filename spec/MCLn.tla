-------------------------------- MODULE MCLn --------------------------------
(* The table of logarithms behind the entropy clauses: ln(ab) = ln a + ln b  *)
(* and 1/(k+1) < ln(k+1) - ln(k) < 1/k, in units of 10^-10, determine it.    *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
T == JsonDeserialize(IOEnv.LNFILE)
VARIABLE k
(* difference in units of 10^-10; callers keep it small *)
Diff(a, b) == (a[1] - b[1]) * 100000 + a[2] - b[2]
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Shape == T[k][2] \in 0 .. 99999 /\ T[1] = <<0, 0>>
Additive == \A b \in 1 .. Len(T) \div k : LET d == Diff(T[k * b], Plus(T[k], T[b])) IN d \in -2 .. 2
(* 10^10 / k as a pair *)
Inv(m) == LET q == 100000 \div m  r == 100000 % m IN <<q, (r * 100000) \div m>>
Slope == (k > 1 /\ k < Len(T)) =>
  /\ Diff(Plus(T[k], Inv(k)), T[k+1]) >= -1
  /\ Diff(T[k+1], Plus(T[k], Inv(k + 1))) >= -1
Init == k = 1
Next == k < Len(T) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
