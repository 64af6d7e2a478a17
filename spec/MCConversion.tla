---------------------------- MODULE MCConversion ----------------------------
(***************************************************************************)
(* The loop over the data of a file, one match after the other.            *)
(***************************************************************************)
EXTENDS Conversion, TLC, Json

CONSTANTS MaxT, MaxRecs, MaxData, EmitMod

VARIABLES times, good, data, tol, cur, i, done, start
vars == << times, good, data, tol, cur, i, done, start >>

Incr(n) == { s \in [1 .. n -> 0 .. MaxT] : \A k \in 1 .. n - 1 : s[k] < s[k + 1] }
NonDecr(n) == { s \in [1 .. n -> 0 .. MaxT] : \A k \in 1 .. n - 1 : s[k] <= s[k + 1] }
Init == /\ times \in UNION { Incr(n) : n \in 1 .. MaxRecs }
        /\ good \in SUBSET (0 .. Len(times) - 1)
        /\ data \in UNION { NonDecr(n) : n \in 1 .. MaxData }
        /\ tol \in 0 .. 2
        /\ cur \in -1 .. Len(times) /\ start = cur
        /\ i = 0 /\ done = << >>
Step == LET o == Outcome(times, good, cur, data, i, tol)
        IN  /\ i <= Len(data)
            /\ IF o.found THEN i' = o.idat + 1 /\ cur' = o.rec /\ done' = Append(done, << o.idat, o.rec >>)
               ELSE i' = Len(data) + 1 /\ UNCHANGED << cur, done >>
            /\ UNCHANGED << times, good, data, tol, start >>
Spec == Init /\ [][Step]_vars

Ended == i = Len(data) + 1
Cands == { j \in Candidates(good, start) : j < Len(times) }
Near(k) == { j \in Cands : Abs(times[j + 1] - data[k + 1]) <= tol }
(* What is written is exactly the data with an allowed record in tolerance *)
Complete == Ended => { done[k][1] : k \in 1 .. Len(done) } = { k \in 0 .. Len(data) - 1 : Near(k) # {} }
(* Each with a record none of the allowed ones is closer than              *)
EachClosest == \A k \in 1 .. Len(done) :
    \A j \in Cands : Abs(times[done[k][2] + 1] - data[done[k][1] + 1]) <= Abs(times[j + 1] - data[done[k][1] + 1])
InOrder == \A k \in 1 .. Len(done) - 1 : done[k][1] < done[k + 1][1] /\ done[k][2] <= done[k + 1][2]
Folded == Ended => done = Matches(times, good, start, data, 0, tol)

RECURSIVE Mix(_, _)
Mix(s, acc) == IF s = << >> THEN acc ELSE Mix(Tail(s), (acc * 7 + Head(s) + 1) % 99991)
Emit == (Ended /\ Mix(times, Mix(data, 11 * Cardinality(good) + 3 * tol + start + 2)) % EmitMod = 0) =>
    PrintT("@@" \o ToJson([times |-> times, good |-> [j \in 1 .. Len(times) |-> j - 1 \in good],
                            data |-> data, tol |-> tol, cur |-> start]))
=============================================================================
