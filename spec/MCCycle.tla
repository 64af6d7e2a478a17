------------------------------ MODULE MCCycle ------------------------------
(***************************************************************************)
(* The record cursor as a state machine: every history of cursor           *)
(* assignments, steps to the next good record, and listings of all good    *)
(* records, for all small files.  The step is the loop that scans forward  *)
(* one record at a time; the invariants say what it has to amount to.      *)
(***************************************************************************)
EXTENDS Records, TLC, Json

CONSTANTS MaxRecs, MaxOps, EmitMod

Foms == { 1, 3, 5 }
Attrs == { 1, 2 }
Quals == { [hasMin |-> FALSE, min |-> 0, hasMax |-> FALSE, max |-> 0, crit |-> << >>],
           [hasMin |-> TRUE, min |-> 3, hasMax |-> FALSE, max |-> 0, crit |-> << >>],
           [hasMin |-> TRUE, min |-> 2, hasMax |-> TRUE, max |-> 3, crit |-> << >>],
           [hasMin |-> FALSE, min |-> 0, hasMax |-> TRUE, max |-> 4,
            crit |-> << [attr |-> "r", rel |-> "max", v |-> 2] >>],
           [hasMin |-> FALSE, min |-> 0, hasMax |-> FALSE, max |-> 0,
            crit |-> << [attr |-> "r", rel |-> "mineq", v |-> 2],
                        [attr |-> "nothing", rel |-> "min", v |-> 9] >>] }
Lim == [min |-> 0, max |-> 4]

VARIABLES recs, cur, scan, q, listed, ops

vars == << recs, cur, scan, q, listed, ops >>
Idle == -99

Init == /\ recs \in UNION { [1 .. n -> [fom : Foms, r : Attrs]] : n \in 0 .. MaxRecs }
        /\ cur = -1 /\ scan = Idle /\ q \in Quals /\ listed = << >> /\ ops = << >>

More == Len(ops) < MaxOps
Set(i) == /\ More /\ scan = Idle /\ cur' = i
          /\ ops' = Append(ops, << "set", i >>)
          /\ UNCHANGED << recs, scan, q, listed >>
(* Step to the next good record, one record per action                     *)
NextCall == /\ More /\ scan = Idle
            /\ ops' = Append(ops, << "next", cur >>)
            /\ scan' = cur + 1 /\ UNCHANGED << recs, cur, q, listed >>
Scan == /\ scan # Idle
        /\ IF scan < Len(recs) /\ ~Good(recs[scan + 1], Lim, q)
           THEN scan' = scan + 1 /\ cur' = cur
           ELSE scan' = Idle /\ cur' = scan
        /\ UNCHANGED << recs, q, listed, ops >>
(* List all good records                                                   *)
List == /\ More /\ scan = Idle
        /\ listed' = AllGood(recs, Lim, q)
        /\ ops' = Append(ops, << "all", cur >>)
        /\ UNCHANGED << recs, cur, scan, q >>
Next == NextCall \/ Scan \/ List \/ \E i \in -1 .. Len(recs) : Set(i)
Spec == Init /\ [][Next]_vars

(* The scan ends at exactly the next good record                           *)
ScanIsNext == scan = Idle /\ ops # << >> /\ ops[Len(ops)][1] = "next" =>
                  NextOk(recs, Lim, q, ops[Len(ops)][2], cur)
(* No good record is skipped while scanning                                *)
NoneSkipped == scan # Idle =>
    \A j \in 0 .. Len(recs) - 1 : cur < j /\ j < scan => ~Good(recs[j + 1], Lim, q)
(* The listing has exactly the good records, and leaves the cursor alone   *)
ListIsAll == listed # << >> =>
    { listed[k] : k \in 1 .. Len(listed) } = GoodAfter(recs, Lim, q, -1)
ListKeepsCursor == ops # << >> /\ ops[Len(ops)][1] = "all" => cur = ops[Len(ops)][2]

RECURSIVE Mix(_, _)
Mix(n, acc) == IF n = 0 THEN acc
               ELSE Mix(n - 1, (acc * 7 + recs[n].fom + 3 * recs[n].r) % 9973)
Hash == Mix(Len(recs), 5 * ops[1][2] + 11 * ops[2][2] + 17 * ops[3][2] + 41
            + (IF ops[2][1] = "next" THEN 3 ELSE 0) + Len(q.crit))
Emit == (Len(ops) = MaxOps /\ scan = Idle /\ Len(recs) = MaxRecs
         /\ Hash % EmitMod = 0) =>
        PrintT("@@" \o ToJson([recs |-> recs, q |-> q, ops |-> ops]))
=============================================================================
