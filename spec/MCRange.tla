------------------------------ MODULE MCRange ------------------------------
(***************************************************************************)
(* Laws of the cyclic range on the integers, for every small range.        *)
(***************************************************************************)
EXTENDS Times, TLC, Json

CONSTANTS Width, EmitMod
VARIABLES v, mn, mx, p
vars == << v, mn, mx, p >>

Init == /\ mn \in -Width .. Width /\ mx \in mn + 1 .. mn + Width
        /\ p \in 1 .. mx - mn /\ v = mx + 3 * p
Next == v > mn - 4 * p /\ v' = v - 1 /\ UNCHANGED << mn, mx, p >>
Spec == Init /\ [][Next]_vars

Out == FixInt(v, mn, mx, p)
RangeLaw == mn <= Out /\ Out < mx
Congruent == (Out - v) % p = 0
Idempotent == FixInt(Out, mn, mx, p) = Out /\ (v \in mn .. mx - 1 => Out = v)
(* With a range of one period the result is the only one there is          *)
Unique == p = mx - mn => \A w \in mn .. mx - 1 : (w - v) % p = 0 => w = Out
(* Beyond an end, a turn makes no difference                               *)
Turns == /\ v >= mx => FixInt(v + p, mn, mx, p) = Out
         /\ v < mn => FixInt(v - p, mn, mx, p) = Out
(* The clauses of the judge allow the result and no other congruent one    *)
JudgeLaw == LET ok(w) == /\ Fixed(RInt(w), RInt(v), RInt(p), Eps(9)) /\ InRange(RInt(w), RInt(mn), RInt(mx))
                         /\ NearEnd(RInt(w), RInt(v), RInt(mn), RInt(mx), RInt(p), Eps(9))
                         /\ v \in mn .. mx - 1 => w = v
            IN  (v - mn) % 3 = 0 => (ok(Out) /\ \A w \in mn .. mx - 1 :
                    (ok(w) /\ ~(v < mn /\ w = mn + p)) => w = Out)
Emit == (v * 5 + mn * 7 + mx * 11 + p * 13) % EmitMod = 0 =>
    PrintT("@@" \o ToJson([v |-> v, mn |-> mn, mx |-> mx, p |-> p]))
=============================================================================
