------------------------------ MODULE Vectors ------------------------------
(***************************************************************************)
(* Horizontal vectors on the sphere.  A vector has a component n to the    *)
(* north and a component e to the east of its location.  Adapting it to    *)
(* another pole turns the two axes so that north is the direction of the   *)
(* great circle to that pole (for a pole in the southern hemisphere: away  *)
(* from it); the vector itself does not change.                            *)
(***************************************************************************)
EXTENDS Reals

(* Components, to the north and to the east, of the unit vector from       *)
(* the location towards the pole                                           *)
Towards(lat, lt, plat, plt) ==
    LET d == Hr2Rad(RSub(plt, lt))
        tn == RSub(RMul(RSinD(plat), RCosD(lat)), RMul(RCosD(plat), RMul(RSinD(lat), RCos(d))))
        te == RMul(RCosD(plat), RSin(d))
        m == RHypot(tn, te)
    IN  << RDiv(tn, m), RDiv(te, m) >>

Opposite(v) == << RNeg(v[1]), RNeg(v[2]) >>

(* North of the other system, at the location                              *)
NewNorth(lat, lt, plat, plt) ==
    IF RLt(plat, 0) THEN Opposite(Towards(lat, lt, plat, plt)) ELSE Towards(lat, lt, plat, plt)

(* Components in the turned axes; east is a quarter turn clockwise of north *)
Rotated(n, e, north) ==
    << RAdd(RMul(n, north[1]), RMul(e, north[2])), RSub(RMul(e, north[1]), RMul(n, north[2])) >>

Adapted(n, e, lat, lt, plat, plt) == Rotated(n, e, NewNorth(lat, lt, plat, plt))

(* The angle at the location between the pole of its own system in the     *)
(* hemisphere of the other pole and the other pole (degrees)               *)
PoleAngle(lat, lt, plat, plt) ==
    LET t == Towards(lat, lt, plat, plt)
    IN  RAbs(Rad2Deg(RAtan2(t[2], IF RLt(plat, 0) THEN RNeg(t[1]) ELSE t[1])))

(* The location is where the directions to the poles make sense            *)
FarFromPoles(lat, lt, plat, plt, dist, lim) ==
    LET d == Hr2Rad(RSub(plt, lt))
        tn == RSub(RMul(RSinD(plat), RCosD(lat)), RMul(RCosD(plat), RMul(RSinD(lat), RCos(d))))
        te == RMul(RCosD(plat), RSin(d))
    IN  RLt(dist, RHypot(tn, te)) /\ RLt(RAbs(lat), lim)
AwayFromPoles(lat, lt, plat, plt) ==
    FarFromPoles(lat, lt, plat, plt, Eps(4), RFrac(89999, 1000))

(* Is the other pole on the meridian of the location?                      *)
SameMeridian(lt, plt) == RLe(RCycDist(plt, lt, 12), Eps(9))

-----------------------------------------------------------------------------
(* Magnitudes scale with the size of the polar cap                         *)
ScalePotential(v, unscaled, scaled) == RDiv(RMul(v, unscaled), scaled)
ScaleCurl(v, unscaled, scaled) == RMul(v, RSq(RDiv(unscaled, scaled)))
Scale(fun, v, unscaled, scaled) ==
    CASE fun = "" -> v
      [] fun = "evar" -> ScalePotential(v, unscaled, scaled)
      [] fun = "curl" -> ScaleCurl(v, unscaled, scaled)
Magnitude(n, e, z) == RHypot(RHypot(n, e), z)
=============================================================================
