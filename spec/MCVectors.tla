----------------------------- MODULE MCVectors -----------------------------
(***************************************************************************)
(* A vector is adapted to the pole of another system and back, on a grid   *)
(* of locations, poles and directions.                                     *)
(***************************************************************************)
EXTENDS Vectors, TLC, Json

CONSTANTS Lats, Lts, PLats, PLts, Dirs, EmitMod

VARIABLES loc, pole, v, north, phase
vars == << loc, pole, v, north, phase >>

Vec(k) == << RMul(10, RCosD(15 * k)), RMul(10, RSinD(15 * k)) >>
Init == /\ loc \in { << RInt(h * a), RFrac(m, 4) >> : h \in { 1, -1 }, a \in Lats, m \in Lts }
        /\ pole \in { << RInt(h * a), RFrac(m, 4) >> : h \in { 1, -1 }, a \in PLats, m \in PLts }
        /\ RSign(pole[1]) = RSign(loc[1])
        /\ AwayFromPoles(loc[1], loc[2], pole[1], pole[2])
        /\ v \in { Vec(k) : k \in Dirs }
        /\ north = << RInt(1), RInt(0) >>
        /\ phase = 0
(* The axes turn to the new pole, and back                                 *)
Turn == /\ phase < 2
        /\ phase' = phase + 1
        /\ LET nn == NewNorth(loc[1], loc[2], pole[1], pole[2])
               by == IF phase = 0 THEN nn ELSE << nn[1], RNeg(nn[2]) >>
           IN  v' = Rotated(v[1], v[2], by) /\ north' = nn
        /\ UNCHANGED << loc, pole >>
Spec == Init /\ [][Turn]_vars

(* The vector keeps its magnitude, in both systems                         *)
KeepsMagnitude == RClose(RHypot(v[1], v[2]), 10, Eps(9))
TurnsBack == phase = 2 => \E k \in Dirs : RClose(v[1], Vec(k)[1], Eps(9)) /\ RClose(v[2], Vec(k)[2], Eps(9))
UnitNorth == RClose(RHypot(north[1], north[2]), 1, Eps(12))
(* A vector along the direction to the pole is all north (or all south)    *)
AlongIsNorth ==
    LET w == Rotated(north[1], north[2], north)
    IN  RClose(w[1], 1, Eps(9)) /\ RClose(w[2], 0, Eps(9))
(* Without a shift of the pole nothing changes                             *)
NoShift == LET w == Adapted(v[1], v[2], loc[1], loc[2], RInt(90 * RSign(loc[1])), pole[2])
           IN  RClose(w[1], v[1], Eps(9)) /\ RClose(w[2], v[2], Eps(9))
(* The hemispheres mirror each other                                       *)
MirrorVector ==
    LET w == Adapted(v[1], v[2], loc[1], loc[2], pole[1], pole[2])
        m == Adapted(RNeg(v[1]), v[2], RNeg(loc[1]), loc[2], RNeg(pole[1]), pole[2])
    IN  RClose(w[1], RNeg(m[1]), Eps(9)) /\ RClose(w[2], m[2], Eps(9))
(* The angle is the one between the two directions                         *)
AngleIsTurn == phase > 0 =>
    RClose(RAbs(Rad2Deg(RAtan2(north[2], north[1]))), PoleAngle(loc[1], loc[2], pole[1], pole[2]), Eps(8))
(* The east of the pole is on the side of later local times                *)
Handed == phase = 1 =>
    LET d == RMod(RSub(pole[2], loc[2]), 24)
        te == IF RLt(pole[1], 0) THEN RNeg(north[2]) ELSE north[2]
    IN  RLt(Eps(6), d) /\ RLt(d, RSub(12, Eps(6))) => RLt(0, te)
(* Scaling: potential fields by the ratio, vorticity by its square          *)
ScaleLaws ==
    /\ RClose(ScalePotential(ScalePotential(v[1], 12, 16), 16, 12), v[1], Eps(9))
    /\ RClose(ScaleCurl(v[1], 12, 16), ScalePotential(ScalePotential(v[1], 12, 16), 12, 16), Eps(9))

Emit == (phase = 2 /\ (RToInt(RMul(loc[2], 4)) * 13 + RToInt(loc[1]) * 7 + RToInt(RMul(pole[2], 4)) * 5
                       + RToInt(RMul(pole[1], 3)) + RToInt(RAdd(RMul(v[1], 5), RMul(v[2], 9)))) % EmitMod = 0) =>
    PrintT("@@" \o ToJson([loc |-> loc, pole |-> pole, v |-> v]))
=============================================================================
