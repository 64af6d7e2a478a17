---------------------------- MODULE MCCorrection ----------------------------
(***************************************************************************)
(* Every correction as the local time goes around the day.                 *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json

CONSTANTS Steps

F(name, inst, method, add) == [name |-> name, inst |-> inst, method |-> method, add |-> add]
All == { F("circular", "", "", RInt(0)), F("circular", "", "", RFrac(-25, 10)) }
       \cup { F("elliptical", "ampere", m, RInt(0)) : m \in { "median", "gaussian" } }
       \cup { F("harmonic", "ampere", m, RInt(0)) : m \in { "median", "gaussian" } }
       \cup { F("harmonic", i, m, RInt(0)) : i \in { "si12", "si13", "wic" }, m \in { "ocb", "eab" } }
VARIABLES f, k
Init == f \in All /\ k = 0
Next == k < 2 * Steps /\ k' = k + 1 /\ UNCHANGED f

Mlt(j) == RDiv(RInt(24 * j), Steps)
At(j) == Correction(f, Mlt(j))
Periodic == RClose(At(k), At(k + Steps), Eps(9))
(* The boundary stays a boundary: no correction exceeds 9 degrees          *)
Bounded == RLe(RAbs(At(k)), 9)
(* and neighbouring local times have neighbouring boundaries               *)
Continuous == RLe(RAbs(RSub(At(k), At(k + 1))), RDiv(RInt(140), Steps))
EllipseInside == f.name = "elliptical" => RLt(At(k), 0)
Emit == (k < Steps) => PrintT("@@" \o ToJson([f |-> [f EXCEPT !.add = (IF RLt(f.add, 0) THEN 25 ELSE 0)], k |-> k]))
=============================================================================
