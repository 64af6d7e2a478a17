---------------------------- MODULE MCQuadrants ----------------------------
(***************************************************************************)
(* A vector and the direction of another pole turn around a location, in   *)
(* steps; their quadrants and angles from north follow.                    *)
(***************************************************************************)
EXTENDS Quadrants, TLC, Json

CONSTANTS Step, EmitMod
VARIABLES v, p
vars == << v, p >>

(* Directions, in degrees clockwise from north, off the axes and on them   *)
Dirs == { k \in 0 .. 359 : k % Step = 0 }
Init == v \in Dirs /\ p \in Dirs
Next == \/ v' = (v + Step) % 360 /\ p' = p
        \/ p' = (p + Step) % 360 /\ v' = v
Spec == Init /\ [][Next]_vars

Angle(d) == RInt(IF d <= 180 THEN d ELSE 360 - d)
VQ == VectQuadrant(RFrac(RToInt(RMul(1000000, RCosD(v))), 1000000),
                   RFrac(RToInt(RMul(1000000, RSinD(v))), 1000000))
(* A pole in this direction has a later local time when it is to the east  *)
PQ == PoleQuadrant(RInt(0), IF p < 180 THEN RInt(3) ELSE RInt(21), Angle(p))
Args == << PQ, VQ, Angle(v), Angle(p) >>
Of(F(_, _, _, _)) == F(PQ, VQ, Angle(v), Angle(p))

Defined == VQ \in Quads /\ PQ \in Quads
QuadrantsAgree == Agree(VQ, Angle(v)) /\ Agree(PQ, Angle(p))
(* Directions are those of the vector and the pole                         *)
DirectionsKept == /\ RCycClose(Direction(VQ, Angle(v)), v, 360, Eps(9))
                  /\ RCycClose(Direction(PQ, Angle(p)), p, 360, Eps(9))
(* Angle and signs give the components of the vector in the turned axes    *)
Components ==
    LET a == Of(DestAngle)
    IN  /\ RClose(RMul(Of(NorthSign), RAbs(RCosD(a))), RCosD(v - p), Eps(9))
        /\ RClose(RMul(Of(EastSign), RSinD(a)), RSinD(v - p), Eps(9))
(* The same quadrant and angle: straight north                             *)
Aligned == v = p => RClose(Of(DestAngle), 0, Eps(9))
(* The classification that the quadrants alone allow                       *)
ByQuadrant ==
    /\ PQ = VQ => Of(NorthSign) = 1
    /\ { PQ, VQ } \in { { 1, 3 }, { 2, 4 } } => Of(NorthSign) = -1 \/ RClose(Of(DestAngle), 90, Eps(9))

Emit == (v * 7 + p * 13) % EmitMod = 0 =>
    PrintT("@@" \o ToJson([vq |-> VQ, pq |-> PQ, base |-> Angle(v), pole |-> Angle(p)]))
=============================================================================
