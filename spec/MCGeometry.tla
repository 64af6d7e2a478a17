----------------------------- MODULE MCGeometry -----------------------------
(***************************************************************************)
(* A location is normalised and reverted, on a grid of boundaries and      *)
(* locations.  The invariants are the laws of the coordinates.             *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json

CONSTANTS Lats, Mlts, RCents, Phis, Rs, Fine, EmitMod
LatList == << 1, 20, 45, 60, 65, 70, 74, 77, 80, 83, 86, 88, 90 >>
Circ(a) == [name |-> "circular", inst |-> "", method |-> "", add |-> RInt(a)]
Fs == { Circ(0), Circ(2),
        [name |-> "elliptical", inst |-> "ampere", method |-> "median", add |-> RInt(0)],
        [name |-> "harmonic", inst |-> "ampere", method |-> "gaussian", add |-> RInt(0)],
        [name |-> "harmonic", inst |-> "wic", method |-> "ocb", add |-> RInt(0)] }

VARIABLES b, hemi, blat, lat, mlt, phase, p
vars == << b, hemi, blat, lat, mlt, phase, p >>

Init == /\ b \in { [r_cent |-> RInt(rc), phi_cent |-> RInt(ph), r |-> RInt(r), f |-> f] :
                     rc \in RCents, ph \in Phis, r \in Rs, f \in Fs }
        /\ hemi \in { 1, -1 } /\ blat \in { RInt(hemi * 74), RInt(hemi * 64) }
        /\ lat \in { RInt(hemi * LatList[k]) : k \in Lats }
        /\ mlt \in { RFrac(m, 4) : m \in Mlts }
        /\ phase = "aacgm" /\ p = Point(lat, mlt, hemi)
Normal == /\ phase = "aacgm" /\ phase' = "normal"
          /\ p' = NormalPoint(b, blat, hemi, lat, mlt)
          /\ UNCHANGED << b, hemi, blat, lat, mlt >>
Revert == /\ phase = "normal" /\ phase' = "back"
          /\ p' = RevertPoint(b, blat, hemi, LatOf(p, hemi), MltOf(p), Correction(b.f, mlt))
          /\ UNCHANGED << b, hemi, blat, lat, mlt >>
Next == Normal \/ Revert
Spec == Init /\ [][Next]_vars

RoundTrip == phase = "back" => RLe(Dist(p, Point(lat, mlt, hemi)), Eps(9))
CoordsArePoint == phase = "normal" => IsAt(LatOf(p, hemi), MltOf(p), hemi, p, Eps(9))
(* Inside the boundary is poleward of the reference latitude               *)
InsideIsPoleward == phase = "normal" =>
    LET d == RSub(Dist(Point(lat, mlt, hemi), Centre(b)), Radius(b, mlt))
        n == RSub(RHypot(p[1], p[2]), RefRadius(blat))
    IN  IF RClose(d, 0, Eps(9)) THEN RClose(n, 0, Eps(8)) ELSE RSign(d) = RSign(n)
(* The boundary latitude lies on the circle, and normalises to the         *)
(* reference latitude                                                      *)
BoundaryOnCircle == phase = "aacgm" =>
    LET bl == BoundaryLat(b, hemi, mlt)
    IN  ~RIsNaN(bl) =>
          /\ RClose(Dist(Point(bl, mlt, hemi), Centre(b)), Radius(b, mlt), Eps(9))
          /\ RClose(LatOf(NormalPoint(b, blat, hemi, bl, mlt), hemi), blat, Eps(9))
(* Every meridian meets a boundary that surrounds the pole                 *)
BoundaryDefined == phase = "aacgm" /\ RLt(b.r_cent, Radius(b, mlt)) =>
    ~RIsNaN(BoundaryLat(b, hemi, mlt))
(* The southern coordinates mirror the northern ones                       *)
Mirror == phase = "aacgm" =>
    NormalPoint(b, blat, hemi, lat, mlt) = NormalPoint(b, RNeg(blat), -hemi, RNeg(lat), mlt)
Periodic == phase = "aacgm" =>
    RLe(Dist(NormalPoint(b, blat, hemi, lat, mlt),
             NormalPoint(b, blat, hemi, lat, RAdd(mlt, 24))), Eps(9))

Emit == (phase = "back" /\ (RToInt(RMul(mlt, 4)) * 13 + RToInt(RAbs(lat)) * 7
                            + RToInt(b.r) * 5 + RToInt(b.phi_cent) + 3 * RToInt(b.r_cent)
                            + hemi) % EmitMod = 0) =>
    PrintT("@@" \o ToJson([b |-> b, hemi |-> hemi, blat |-> blat, lat |-> lat, mlt |-> mlt]))
=============================================================================
