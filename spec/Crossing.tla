------------------------------ MODULE Crossing ------------------------------
(* Where two sampled curves cross.  a, b: sequences of integers.             *)
EXTENDS Integers, Sequences, FiniteSets
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
AbsV(x) == IF x < 0 THEN -x ELSE x
Signs(a, b) == [k \in 1 .. Len(a) |-> Sign(a[k] - b[k])]
(* direct sign changes; positions are 0-based indices of the sample before *)
Direct(s) == {k \in 0 .. Len(s) - 2 : s[k+1] * s[k+2] = -1}
(* steps on to or off a zero *)
Touch(s) == {k \in 0 .. Len(s) - 2 : (s[k+1] = 0) # (s[k+2] = 0)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
(* acceptable answers *)
Answer(s, idx) ==
  IF Direct(s) # {} THEN idx = Least(Direct(s))
  ELSE IF Touch(s) # {} THEN idx \in Touch(s)
  ELSE TRUE
(* the algorithm: first largest absolute change of sign *)
Change(s, k) == AbsV(s[k+2] - s[k+1])
Algorithm(s) == CHOOSE k \in 0 .. Len(s) - 2 :
  /\ \A j \in 0 .. Len(s) - 2 : Change(s, j) <= Change(s, k)
  /\ \A j \in 0 .. k - 1 : Change(s, j) < Change(s, k)
=============================================================================
