------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Boundary-normalised coordinates.  A location is a latitude (degrees)    *)
(* and a local time (hours).  In the plane around the magnetic pole it is  *)
(* the point at distance 90 - |latitude| and angle 15 degrees per hour.  A *)
(* boundary record b is the circle of radius b.r, corrected as a function  *)
(* of local time, whose centre has the polar location b.r_cent, b.phi_cent *)
(* in that plane.  Normalising is the similarity that takes the circle to  *)
(* the circle of the reference latitude around the pole.                   *)
(***************************************************************************)
EXTENDS Reals

-----------------------------------------------------------------------------
(* Corrections of the radius at a local time                               *)

D4(n) == RFrac(n, 10000)
D8(n) == RFrac(n, 100000000)

Elliptical(mlt, method) ==
    LET a == IF method = "median" THEN RFrac(401, 100) ELSE RFrac(441, 100)
        e == IF method = "median" THEN RFrac(55, 100) ELSE RFrac(51, 100)
        t == IF method = "median" THEN RFrac(-92, 100) ELSE RFrac(-95, 100)
    IN  RNeg(RDiv(RMul(a, RSub(1, RSq(e))),
                  RAdd(1, RMul(e, RCos(RSub(Hr2Rad(mlt), t))))))

HarmonicCoeff(inst, method) ==
    CASE inst = "ampere" /\ method = "median" ->
           << D8(331000535), D8(-54529340), D8(-124389141), D8(242619653), D8(-66677988),
              D8(-103467488), D8(-30763009), D8(52426756), D8(4359299), D8(60201848),
              D8(50618522), D8(104360529), D8(25186405) >>
      [] inst = "ampere" /\ method = "gaussian" ->
           << D8(380100827), D8(98555723), D8(-343760943), D8(185084271), D8(-36730751),
              D8(-81975654), D8(-102823832), D8(130637288), D8(-53599218), D8(40380183),
              D8(-122462708), D8(-127336290), D8(-62743381) >>
      [] inst = "si12" /\ method = "ocb" ->
           << D4(405), D4(-15078), 1, D4(5095), 1, D4(9371), 1, D4(708), 1, 0, 1, 0, 1 >>
      [] inst = "si12" /\ method = "eab" ->
           << D4(-1447), D4(-19779), 1, D4(26799), 1, D4(5778), 1, D4(-12297), 1, 0, 1, 0, 1 >>
      [] inst = "si13" /\ method = "ocb" ->
           << D4(5797), D4(-6837), 1, D4(-5020), 1, D4(2971), 1, D4(-4173), 1, 0, 1, 0, 1 >>
      [] inst = "si13" /\ method = "eab" ->
           << D4(2500), D4(-29931), 1, D4(8818), 1, D4(8511), 1, D4(-6300), 1, 0, 1, 0, 1 >>
      [] inst = "wic" /\ method = "ocb" ->
           << D4(10298), D4(-11249), 1, D4(-7380), 1, D4(1838), 1, D4(-6171), 1, 0, 1, 0, 1 >>
      [] inst = "wic" /\ method = "eab" ->
           << D4(-4935), D4(-21186), 1, D4(3188), 1, D4(5749), 1, D4(-3118), 1, 0, 1, 0, 1 >>

Harmonic(mlt, inst, method) ==
    LET c == HarmonicCoeff(inst, method)
        t == Hr2Rad(mlt)
        Term(k) == RAdd(RMul(c[4 * k - 2], RCos(RMul(k, RAdd(t, c[4 * k - 1])))),
                        RMul(c[4 * k], RSin(RMul(k, RAdd(t, c[4 * k + 1])))))
    IN  RNeg(RAdd(c[1], RAdd(Term(1), RAdd(Term(2), Term(3)))))

(* f: the record's correction and its options                              *)
Correction(f, mlt) ==
    CASE f.name = "circular" -> f.add
      [] f.name = "elliptical" -> Elliptical(mlt, f.method)
      [] f.name = "harmonic" -> Harmonic(mlt, f.inst, f.method)

Radius(b, mlt) == RAdd(b.r, Correction(b.f, mlt))

-----------------------------------------------------------------------------
(* The plane                                                               *)

Point(lat, mlt, hemi) ==
    LET d == RSub(90, RMul(hemi, lat))
    IN  << RMul(d, RCos(Hr2Rad(mlt))), RMul(d, RSin(Hr2Rad(mlt))) >>
Centre(b) == << RMul(b.r_cent, RCosD(b.phi_cent)), RMul(b.r_cent, RSinD(b.phi_cent)) >>
Dist(p, q) == RHypot(RSub(p[1], q[1]), RSub(p[2], q[2]))
Scaled(p, c, s) == << RMul(RSub(p[1], c[1]), s), RMul(RSub(p[2], c[2]), s) >>
RefRadius(blat) == RSub(90, RAbs(blat))

(* Normalised point of a location, and back                                *)
NormalPoint(b, blat, hemi, lat, mlt) ==
    Scaled(Point(lat, mlt, hemi), Centre(b), RDiv(RefRadius(blat), Radius(b, mlt)))
RevertPoint(b, blat, hemi, nlat, nmlt, corr) ==
    LET c == Centre(b)
        s == RDiv(RAdd(b.r, corr), RefRadius(blat))
        n == Point(nlat, nmlt, hemi)
    IN  << RAdd(RMul(n[1], s), c[1]), RAdd(RMul(n[2], s), c[2]) >>

LatOf(p, hemi) == RMul(hemi, RSub(90, RHypot(p[1], p[2])))
MltOf(p) == LET a == RMod(Rad2Hr(RAtan2(p[2], p[1])), 24) IN IF REq(a, 24) THEN RInt(0) ELSE a

InHemi(lat, hemi) == ~RIsNaN(lat) /\ RSign(lat) = hemi
IsMlt(mlt) == RLe(0, mlt) /\ RLt(mlt, 24)

(* Do the coordinates lat, mlt represent the point p?                      *)
IsAt(lat, mlt, hemi, p, tol) ==
    /\ ~RIsNaN(lat) /\ ~RIsNaN(mlt)
    /\ IsMlt(mlt)
    /\ RLe(Dist(Point(lat, mlt, hemi), p), tol)
Undefined(lat, mlt) == RIsNaN(lat) /\ RIsNaN(mlt)

-----------------------------------------------------------------------------
(* Latitude of the boundary at a local time: where the meridian leaves the *)
(* circle on the far side.  Undefined when it does not meet the circle.    *)
BoundaryLat(b, hemi, mlt) ==
    LET d == RSub(Hr2Rad(mlt), Deg2Rad(b.phi_cent))
        s == RMul(b.r_cent, RSin(d))
        disc == RSub(RSq(Radius(b, mlt)), RSq(s))
        rad == RAdd(RMul(b.r_cent, RCos(d)), RSqrt(disc))
    IN  IF RLt(disc, 0) \/ RLt(rad, 0) THEN RNaN ELSE RMul(hemi, RSub(90, rad))

-----------------------------------------------------------------------------
(* Two boundaries: o poleward (reference ob), e equatorward (reference eb) *)

OcbLat(o, ob, hemi, lat, mlt) == LatOf(NormalPoint(o, ob, hemi, lat, mlt), hemi)

(* The regions are meaningful where the OCB is poleward of the EAB         *)
Crossing(o, e, hemi, mlt) == RLt(RAbs(BoundaryLat(o, hemi, mlt)),
                                 RAdd(RAbs(BoundaryLat(e, hemi, mlt)), Eps(3)))

(* On the edge of one boundary at a local time without the other one, the  *)
(* region hangs on rounding                                                *)
OnLoneEdge(o, e, hemi, lat, mlt) ==
    LET ol == BoundaryLat(o, hemi, mlt)
        el == BoundaryLat(e, hemi, mlt)
    IN  /\ RIsNaN(ol) \/ RIsNaN(el)
        /\ ~RIsNaN(lat) /\ (RClose(lat, el, Eps(6)) \/ RClose(lat, ol, Eps(6)))

Region(o, e, ob, eb, hemi, lat, mlt) ==
    LET ol == RAbs(BoundaryLat(o, hemi, mlt))
        el == RAbs(BoundaryLat(e, hemi, mlt))
        al == RAbs(lat)
    IN  IF ~InHemi(lat, hemi) THEN "none"
        ELSE IF RLt(al, el) THEN "out"
        ELSE IF RLt(al, ol) /\ RLe(el, al) THEN "mid"
        ELSE IF RLe(RAbs(ob), RAdd(RMul(hemi, OcbLat(o, ob, hemi, lat, mlt)), Eps(8))) THEN "cap"
        ELSE "none"

DualLat(o, e, ob, eb, hemi, lat, mlt) ==
    LET ol == BoundaryLat(o, hemi, mlt)
        el == BoundaryLat(e, hemi, mlt)
        reg == Region(o, e, ob, eb, hemi, lat, mlt)
    IN  CASE reg = "cap" -> OcbLat(o, ob, hemi, lat, mlt)
          [] reg = "mid" -> RSub(ob, RDiv(RMul(RSub(ol, lat), RSub(ob, eb)), RSub(ol, el)))
          [] reg = "out" -> RDiv(RMul(lat, eb), el)
          [] OTHER -> RNaN

(* The region of a dual-normalised latitude                                *)
NormRegion(ob, eb, nlat) == IF RLe(RAbs(ob), RAbs(nlat)) THEN "cap"
                            ELSE IF RLe(RAbs(eb), RAbs(nlat)) THEN "mid" ELSE "out"

DualRevertLat(o, e, ob, eb, hemi, nlat, mlt) ==
    LET ol == BoundaryLat(o, hemi, mlt)
        el == BoundaryLat(e, hemi, mlt)
    IN  IF NormRegion(ob, eb, nlat) = "mid"
        THEN RSub(ol, RDiv(RMul(RSub(ob, nlat), RSub(ol, el)), RSub(ob, eb)))
        ELSE RDiv(RMul(nlat, el), eb)

(* Widths of the region of a normalised location: normalised and actual    *)
ScaledR(ob, eb, nlat) ==
    LET reg == NormRegion(ob, eb, nlat)
    IN  IF reg = "cap" THEN RefRadius(ob)
        ELSE IF reg = "mid" THEN RAbs(RSub(ob, eb)) ELSE RAbs(eb)
UnscaledR(o, e, ob, eb, hemi, nlat, mlt, corr) ==
    LET reg == NormRegion(ob, eb, nlat)
        ol == BoundaryLat(o, hemi, mlt)
        el == BoundaryLat(e, hemi, mlt)
    IN  IF reg = "cap" THEN RAdd(o.r, corr)
        ELSE IF reg = "mid" THEN RAbs(RSub(ol, el)) ELSE RAbs(el)
=============================================================================
