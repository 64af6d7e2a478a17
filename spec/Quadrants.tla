----------------------------- MODULE Quadrants -----------------------------
(***************************************************************************)
(* Directions at a location given by a quadrant and an angle from north:   *)
(* quadrants are 1 north-east, 2 north-west, 3 south-west, 4 south-east    *)
(* and 0 when undefined; north and, for north and south, east win on the   *)
(* axes.                                                                   *)
(***************************************************************************)
EXTENDS Reals

Quads == 1 .. 4
East(q) == q \in {1, 4}
North(q) == q \in {1, 2}

VectQuadrant(n, e) ==
    IF RIsNaN(n) \/ RIsNaN(e) THEN 0
    ELSE IF RLe(0, n) THEN (IF RLe(0, e) THEN 1 ELSE 2)
    ELSE (IF RLe(0, e) THEN 4 ELSE 3)

(* A pole at a later local time lies to the east, up to half a day         *)
PoleQuadrant(lt, plt, angle) ==
    LET d == RMod(RSub(plt, lt), 24)
    IN  IF RIsNaN(d) \/ RIsNaN(angle) THEN 0
        ELSE IF RLt(angle, 90) THEN (IF RLt(d, 12) THEN 1 ELSE 2)
        ELSE (IF RLt(d, 12) THEN 4 ELSE 3)

(* The direction, in degrees clockwise from north                          *)
Direction(q, angle) == IF East(q) THEN angle ELSE RNeg(angle)
Agree(q, angle) == IF North(q) THEN RLe(0, angle) /\ RLe(angle, 90)
                   ELSE RLe(90, angle) /\ RLe(angle, 180)

(* From the direction of the pole to that of the vector, in [-180, 180)    *)
Turn(oq, vq, base, pole) ==
    RSub(RMod(RAdd(RSub(Direction(vq, base), Direction(oq, pole)), 180), 360), 180)
DestAngle(oq, vq, base, pole) == RAbs(Turn(oq, vq, base, pole))
NorthSign(oq, vq, base, pole) == IF RLe(DestAngle(oq, vq, base, pole), 90) THEN 1 ELSE -1
EastSign(oq, vq, base, pole) == IF RLe(0, Turn(oq, vq, base, pole)) THEN 1 ELSE -1
=============================================================================
