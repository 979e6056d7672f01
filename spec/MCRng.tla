------------------------------- MODULE MCRng -------------------------------
(* One process-wide source of randomness.  Creating a simulator with a seed  *)
(* sets the source; a realization's order is drawn from it; queries draw     *)
(* nothing.  Checked: what a seeded simulator does is a function of its seed *)
(* and the calls made on it since, whatever was done before (P16) and        *)
(* whatever was only looked at (P22); with the source in any state, every    *)
(* order can be drawn (P27).  Draws are modelled by an arbitrary function of *)
(* <<seed, number of draws since>>; the order drawn is Order(source).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS SEEDS, MAXDRAWS, MAXCALLS
VARIABLES src, calls, seen, memo
vars == <<src, calls, seen, memo>>
(* src: <<seed, draws>>; the value drawn is identified with the state it was drawn from *)
Init == src \in {<<99, k>> : k \in 0 .. 2} /\ calls = <<>> /\ seen = <<>> /\ memo = <<>>
Draw == src' = <<src[1], src[2] + 1>>
Bound == src[2] < MAXDRAWS /\ Len(calls) < MAXCALLS
New(s) == /\ src' = <<s, 1>>                 \* seeding, then the order of the first realization
          /\ calls' = <<"new", s>> /\ seen' = <<<<s, 0>>>>
          /\ memo' = memo
Reset == calls # <<>> /\ Bound /\ Draw /\ calls' = Append(calls, "reset") /\ seen' = Append(seen, src) /\ memo' = memo
Attempt == calls # <<>> /\ Bound /\ Draw /\ calls' = Append(calls, "place") /\ seen' = Append(seen, src) /\ memo' = memo
Query == UNCHANGED vars
Remember == /\ calls # <<>> /\ memo' = (calls :> seen) @@ memo
            /\ UNCHANGED <<src, calls, seen>>
Next == (\E s \in SEEDS : New(s)) \/ Reset \/ Attempt \/ Query \/ (calls \notin DOMAIN memo /\ Cardinality(DOMAIN memo) < 2 /\ Remember)
Spec == Init /\ [][Next]_vars
SeedFixes == calls \in DOMAIN memo => memo[calls] = seen
=============================================================================
