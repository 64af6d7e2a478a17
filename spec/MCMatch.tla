------------------------------ MODULE MCMatch ------------------------------
(***************************************************************************)
(* Matching as a state machine: histories of calls, each of which moves    *)
(* forward through the data and the records one step at a time.            *)
(***************************************************************************)
EXTENDS Matching, TLC, Json

CONSTANTS MaxT, MaxRecs, MaxData, MaxCalls, EmitMod

VARIABLES times, good, data, tol, cur, idat, pc, best, from, calls
vars == << times, good, data, tol, cur, idat, pc, best, from, calls >>

Incr(n) == { s \in [1 .. n -> 0 .. MaxT] : \A i \in 1 .. n - 1 : s[i] < s[i + 1] }
NonDecr(n) == { s \in [1 .. n -> 0 .. MaxT] : \A i \in 1 .. n - 1 : s[i] <= s[i + 1] }

Init == /\ times \in UNION { Incr(n) : n \in 1 .. MaxRecs }
        /\ good \in SUBSET (0 .. Len(times) - 1)
        /\ data \in UNION { NonDecr(n) : n \in 1 .. MaxData }
        /\ tol \in 1 .. 2
        /\ cur \in -1 .. 0 /\ idat = 0 /\ pc = "idle" /\ best = -1
        /\ from = << cur, 0 >> /\ calls = << >>

NextGood(c) == LET g == { j \in good : j > c } IN IF g = {} THEN Len(times) ELSE Least(g)
D(j) == times[j + 1] - data[idat + 1]

(* A call, from the current datum or from the one after a match            *)
Call(i) == /\ pc = "idle" /\ Len(calls) < MaxCalls /\ cur < Len(times)
           /\ i < Len(data)
           /\ idat' = i /\ from' = << cur, i >>
           /\ calls' = Append(calls, << cur, i >>)
           /\ cur' = IF cur < 0 THEN NextGood(-1) ELSE cur
           /\ pc' = "run" /\ UNCHANGED << times, good, data, tol, best >>
Out == /\ pc = "run" /\ (idat >= Len(data) \/ cur >= Len(times))
       /\ pc' = "none" /\ UNCHANGED << times, good, data, tol, cur, idat, best, from, calls >>
In == pc = "run" /\ idat < Len(data) /\ cur < Len(times)
Later == /\ In /\ D(cur) < -tol /\ cur' = NextGood(cur)
         /\ UNCHANGED << times, good, data, tol, idat, pc, best, from, calls >>
Skip == /\ In /\ D(cur) > tol /\ idat' = idat + 1
        /\ UNCHANGED << times, good, data, tol, cur, pc, best, from, calls >>
Near == /\ In /\ Abs(D(cur)) <= tol /\ best' = cur /\ cur' = NextGood(cur)
        /\ pc' = "approach" /\ UNCHANGED << times, good, data, tol, idat, from, calls >>
Approach == /\ pc = "approach"
            /\ IF cur < Len(times) /\ Abs(D(cur)) < Abs(D(best))
               THEN best' = cur /\ cur' = NextGood(cur) /\ pc' = pc
               ELSE cur' = best /\ pc' = "match" /\ best' = -1
            /\ UNCHANGED << times, good, data, tol, idat, from, calls >>
(* The caller moves on after a match                                       *)
Return == /\ pc = "match" /\ pc' = "idle"
          /\ UNCHANGED << times, good, data, tol, cur, idat, best, from, calls >>
Next == \/ Call(idat) \/ (calls # << >> /\ Call(idat + 1))
        \/ Out \/ Later \/ Skip \/ Near \/ Approach \/ Return
Spec == Init /\ [][Next]_vars

(* The search ends at the declared outcome                                 *)
Expected == Outcome(times, good, from[1], data, from[2], tol)
FindsClosest == pc = "match" => MatchOk(times, good, from[1], data, from[2], tol, idat, cur)
FindsAny == pc = "none" => ~Expected.found
(* A match is near enough, and neither index moves backwards               *)
WithinTol == pc = "match" => Abs(D(cur)) <= tol /\ (cur \in good \/ cur = from[1])
Forward == pc \in { "match", "none" } => idat >= from[2] /\ cur >= from[1]

RECURSIVE Mix(_, _)
Mix(s, acc) == IF s = << >> THEN acc ELSE Mix(Tail(s), (acc * 7 + Head(s) + 1) % 99991)
Hash == Mix(times, Mix(data, 11 * Cardinality(good) + 3 * tol + Len(calls)))
Emit == (calls # << >> /\ pc \in { "none", "match" }
         /\ (Len(calls) = MaxCalls \/ pc = "none") /\ Hash % EmitMod = 0) =>
    PrintT("@@" \o ToJson([times |-> times, good |-> [j \in 1 .. Len(times) |-> j - 1 \in good],
                            data |-> data, tol |-> tol, calls |-> calls]))
=============================================================================
