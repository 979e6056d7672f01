------------------------------ MODULE Ensemble ------------------------------
(* Ensembles of realizations and the files they write.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* realizations that worker w = 0 .. k-1 of k takes, out of n *)
Share(n, k, w) == n \div k + (IF w < n % k THEN 1 ELSE 0)
RECURSIVE SumTo(_, _, _)
SumTo(n, k, w) == IF w < 0 THEN 0 ELSE Share(n, k, w) + SumTo(n, k, w - 1)

(* mean of scaled integers: m is an acceptable rounding of total / n *)
(* numbers are given as <<hi, lo>>, units 10^-5 and 10^-10 *)
IsMean(m, hi, lo, n) == LET d == n * m[1] - hi IN
  /\ m[1] >= (hi \div n) - 4 /\ m[1] <= (hi \div n) + 4         \* first, so that nothing overflows
  /\ d <= 2 * n + 2 /\ -d <= 2 * n + 2
  /\ LET f == d * 100000 + n * m[2] - lo IN f <= 4 * n /\ -f <= 4 * n
Total(tabs, r, c, j, k) == FoldLeft(LAMBDA x, t : x + t[r][c][j], 0, SubSeq(tabs, 1, k))
(* two such numbers that agree up to rounding *)
Same2(a, b, tol) == LET d == a[1] - b[1] IN
  d <= 2 /\ -d <= 2 /\ LET f == d * 100000 + a[2] - b[2] IN f <= tol /\ -f <= tol
=============================================================================
