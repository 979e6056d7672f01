------------------------------- MODULE MCPerc -------------------------------
(* Exhaustive check of the incremental model against the definitions: every  *)
(* order of occupation of every subset of an N x N lattice, with the wrapping*)
(* test asked after each placement.                                          *)
EXTENDS Perc, TLC, TLCExt, Json, IOUtils

CONSTANT LEN, W, EDGES
VARIABLES st, pc      \* pc: <<occupied, sites, bonds>> at the first winding placement
vars == <<st, pc>>

T == NbrTable(LEN)
BT == BondTable(LEN)
LnFile == JsonDeserialize(IOEnv.LNFILE)

Init == st = EmptyLattice(LEN) /\ pc = <<0, 0, 0>>
Place(s) ==
  /\ ~Occ(st, s)
  /\ st' = Occupy(T, BT, st, s)
  /\ pc' = IF st.first = -1 /\ st'.first # -1
           THEN <<st'.n, st'.ns[st'.first], st'.nb[st'.first]>> ELSE pc
Next == \E s \in Sites(LEN) : Place(s)
Spec == Init /\ [][Next]_vars

occ == Occupied(st)

(* the transitions, for the generation of behaviours to be replayed *)
ShowEdge == EDGES => PrintT(<<"EDGE", ToString(TLCFP(st)), ToString(TLCFP(st')), CHOOSE s \in Sites(LEN) : ~Occ(st, s) /\ Occ(st', s)>>)

(* P02 *)
Counted == st.n = Cardinality(occ)
OneMore == [][\E s \in Sites(LEN) : s \notin occ /\ occ' = occ \cup {s} /\ st'.n = st.n + 1]_vars
(* P03 *)
LabelsAreComponents ==
  /\ \A s \in Sites(LEN) : IF s \in occ THEN Members(st, Lab(st, s)) = Component(LEN, occ, s)
                           ELSE Lab(st, s) = -1
  /\ \A s \in Sites(LEN) : IF Lab(st, s) = s
                           THEN /\ st.ns[s] = Cardinality(Members(st, s))
                                /\ st.nb[s] = Cardinality(BondsOf(LEN, Members(st, s)))
                           ELSE st.ns[s] = 0 /\ st.nb[s] = 0
BondsPartitioned ==
  \A r1, r2 \in Labels(st) : r1 # r2 => BondsOf(LEN, Members(st, r1)) \cap BondsOf(LEN, Members(st, r2)) = {}
(* P04 *)
WindExact == st.wind = {r \in Labels(st) : Winds(LEN, occ, r, W)}
FirstExact == /\ (st.first = -1) = (st.wind = {})
              /\ st.first # -1 => st.first \in st.wind
FirstKept == [][st.first # -1 => st'.first # -1 /\ Members(st, st.first) \subseteq Members(st', st'.first)]_vars
(* P05 *)
Displacement ==
  \A r \in Labels(st) \ st.wind :
    \A y \in Lifted(LEN, occ, r, W) :
       LET c == LiftedCoord(LEN, y) IN
         /\ st.cell[y[1]][2] = c[2] - Row(LEN, r)
         /\ st.cell[y[1]][3] = c[3] - Col(LEN, r)
(* P06 *)
CriticalExact == /\ (pc[1] = 0) = (st.first = -1)
                 /\ pc[1] <= st.n
                 /\ st.first # -1 => pc[2] <= st.ns[st.first] /\ pc[3] <= st.nb[st.first]
CriticalFrozen == [][pc[1] # 0 => pc' = pc]_vars
(* P07 *)
WrapMonotone == [][WrapBonds(st) <= WrapBonds(st')]_vars
WrapFull == st.n = LEN * LEN => WrapBonds(st) = 2 * LEN * LEN
(* P08 *)
LargestExact == /\ st.n = 0 => st.maxb = 0
                /\ st.n > 0 => st.maxb = MaxOf({st.nb[r] : r \in Labels(st)})
LargestMonotone == [][st.maxb <= st'.maxb]_vars
(* P09 *)
EntropyFull == /\ st.n = LEN * LEN => BTimesEntropy(LnFile, st) = <<0, 0>>
               /\ st.n = 0 => LET B == 2*LEN*LEN IN
                     BTimesEntropy(LnFile, st) = Carry(<<B * LnFile[B][1], B * LnFile[B][2]>>)
EntropyDecreases == [][NotMore(BTimesEntropy(LnFile, st'), BTimesEntropy(LnFile, st), 0)]_vars
(* all of the bonds, free ones included, are counted once *)
AllBonds == Cardinality(Bonds(LEN) \ BondsOf(LEN, occ)) + SumNb(st, Labels(st)) = 2 * LEN * LEN
=============================================================================
