----------------------------- MODULE MCShortest -----------------------------
(* The shortest-path run looks at the row and column of the site just placed *)
(* and, if the wrapping cluster has grown by more than LEN sites, at all     *)
(* rows and columns.  Checked against the definition "the wrapping cluster   *)
(* contains a complete row or column" in every state of every run.           *)
EXTENDS Sim, TLC
CONSTANTS LEN, THRESHOLD
VARIABLES st, size, found, early
vars == <<st, size, found, early>>
T == NbrTable(LEN)
BT == BondTable(LEN)
Init == st = EmptyLattice(LEN) /\ size = 0 /\ found = FALSE /\ early = FALSE
W(x) == x.first
LineThrough(x, s) == FullRow(x, W(x), Row(LEN, s)) \/ FullCol(x, W(x), Col(LEN, s))
AnyLine(x) == x.first # -1 /\ (HasRow(x, x.first) \/ HasCol(x, x.first))
Place(s) ==
  /\ ~found /\ ~Occ(st, s)
  /\ LET x == Occupy(T, BT, st, s)
         sz == IF x.first = -1 THEN 0 ELSE x.ns[x.first]
         look == x.first # -1 /\ (LineThrough(x, s) \/ (sz - size > THRESHOLD /\ AnyLine(x)))
     IN st' = x /\ size' = sz /\ found' = look /\ early' = (early \/ (AnyLine(x) # look))
Next == \E s \in Sites(LEN) : Place(s)
Spec == Init /\ [][Next]_vars
(* P18: the run stops exactly when the first line has appeared *)
Exact == ~early /\ found = AnyLine(st)
FullHasLine == st.n = LEN * LEN => AnyLine(st)
PcBeforeStar == found => st.first # -1
=============================================================================
