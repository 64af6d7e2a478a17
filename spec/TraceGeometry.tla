--------------------------- MODULE TraceGeometry ---------------------------
(***************************************************************************)
(* Judges of recorded coordinate conversions and stored boundaries.        *)
(* Arrays are flattened; scalars have one element.                         *)
(***************************************************************************)
EXTENDS Geometry, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }
PT == Eps(8)
VT == Eps(9)

-----------------------------------------------------------------------------
(* e.k = "normal": one boundary, magnetic coordinates                      *)
NormalClauses(e) ==
    IF e.exc # "" THEN { "NormalRaises" }
    ELSE IF e.oshape # e.shape THEN { "NormalShape" }
    ELSE IF ~e.set
    THEN Clause("UnsetIsUndefined", \A i \in 1 .. Len(e.olat) : Undefined(e.olat[i], e.omlt[i]))
    ELSE Clause("NormalisedLocation",
            /\ Len(e.olat) = Len(e.lat) /\ Len(e.omlt) = Len(e.lat)
            /\ \A i \in 1 .. Len(e.lat) :
                 IF InHemi(e.lat[i], e.hemi)
                 THEN IsAt(e.olat[i], e.omlt[i], e.hemi,
                           NormalPoint(e.b, e.blat, e.hemi, e.lat[i], e.mlt[i]), PT)
                 ELSE TRUE)
      \cup Clause("OtherHemisphereIsUndefined",
            \A i \in 1 .. Len(e.lat) :
                 InHemi(e.lat[i], e.hemi) \/ Undefined(e.olat[i], e.omlt[i]))
      \cup Clause("RadiusCorrection",
            \A i \in 1 .. Len(e.lat) :
                 InHemi(e.lat[i], e.hemi) => RClose(e.ocor[i], Correction(e.b.f, e.mlt[i]), VT))
JudgeNormal(s, e) == [st |-> 0, bad |-> NormalClauses(e)
                                        \cup Clause("InputsUntouched", e.same)]

-----------------------------------------------------------------------------
(* e.k = "revert": normalised coordinates and corrections to magnetic      *)
RevertClauses(e) ==
    IF e.exc # "" THEN { "RevertRaises" }
    ELSE IF e.oshape # e.shape THEN { "RevertShape" }
    ELSE IF ~e.set \/ \A i \in 1 .. Len(e.nlat) : ~InHemi(e.nlat[i], e.hemi)
    THEN Clause("RevertUndefined", \A i \in 1 .. Len(e.olat) : Undefined(e.olat[i], e.omlt[i]))
    ELSE Clause("RevertedLocation",
            /\ Len(e.olat) = Len(e.nlat) /\ Len(e.omlt) = Len(e.nlat)
            /\ \A i \in 1 .. Len(e.nlat) :
                 InHemi(e.nlat[i], e.hemi) =>
                     IsAt(e.olat[i], e.omlt[i], e.hemi,
                          RevertPoint(e.b, e.blat, e.hemi, e.nlat[i], e.nmlt[i], e.corr[i]), PT))
JudgeRevert(s, e) == [st |-> 0, bad |-> RevertClauses(e)
                                        \cup Clause("InputsUntouched", e.same)]

(* e.k = "round": normalise, then revert with the correction that came out *)
RoundClauses(e) ==
    IF e.exc # "" THEN { "RoundTripRaises" }
    ELSE Clause("RoundTrip",
            \A i \in 1 .. Len(e.lat) :
                 \* A location may normalise to one beyond the equator
                 InHemi(e.lat[i], e.hemi)
                 /\ InHemi(LatOf(NormalPoint(e.b, e.blat, e.hemi, e.lat[i], e.mlt[i]), e.hemi), e.hemi) =>
                    IsAt(e.olat[i], e.omlt[i], e.hemi, Point(e.lat[i], e.mlt[i], e.hemi), Eps(7)))
JudgeConvert(s, e) ==
    CASE e.k = "revert" -> JudgeRevert(s, e)
      [] e.k = "round" -> [st |-> 0, bad |-> RoundClauses(e)]
      [] e.k = "normal" -> JudgeNormal(s, e)

-----------------------------------------------------------------------------
(* Stored boundary locations.  The state holds, per record, the stored     *)
(* latitude, local time and longitude: << >> when not set, else the list.  *)
(* e.store is what the code holds after the event.                         *)

(* What a call stores for record b: latitudes at the local times           *)
LatsOk(b, hemi, mlts, vals) ==
    /\ Len(vals) = Len(mlts)
    /\ \A k \in 1 .. Len(mlts) : RClose(vals[k], BoundaryLat(b, hemi, mlts[k]), VT)
MltsOk(mlts, vals) ==
    /\ Len(vals) = Len(mlts)
    /\ \A k \in 1 .. Len(mlts) : IsMlt(vals[k]) /\ RCycClose(vals[k], mlts[k], 24, VT)
LonsOk(ref, vals) ==
    /\ Len(vals) = Len(ref)
    /\ \A k \in 1 .. Len(ref) : RCycClose(vals[k], ref[k], 360, VT)

Has(e, i) == \E k \in 1 .. Len(e.inds) : e.inds[k] = i - 1

NoStore == [recs |-> << >>, hemi |-> 1, store |-> << >>]
Empty(n) == [i \in 1 .. n |-> [lat |-> << >>, mlt |-> << >>, lon |-> << >>]]

BLatClauses(s, e) ==
    LET n == Len(s.recs)
        Touched(i) == Has(e, i) /\ (s.store[i].lat = << >> \/ e.overwrite)
        Disc(i, k) == LET b == s.recs[i]
                      IN  RSub(Radius(b, e.mlt[k]), RAbs(RMul(b.r_cent,
                              RSin(RSub(Hr2Rad(e.mlt[k]), Deg2Rad(b.phi_cent))))))
    IN  Clause("BoundaryLatRaises", e.exc = "")
        \cup (IF e.exc # "" THEN {}
              ELSE Clause("BoundaryOnCircle",
                     \A i \in 1 .. n : Touched(i) => LatsOk(s.recs[i], s.hemi, e.mlt, e.store[i].lat))
              \cup Clause("BoundaryLocalTime",
                     \A i \in 1 .. n : Touched(i) => MltsOk(e.mlt, e.store[i].mlt))
              \cup Clause("BoundaryLongitude",
                     \A i \in 1 .. n : Touched(i) /\ e.setLon =>
                         LonsOk(e.lonRef[i], e.store[i].lon))
              \cup Clause("BoundaryScalar",
                     \A i \in 1 .. n : Touched(i) => e.isScalar[i] = e.scalar)
              \cup Clause("OthersKept",
                     \A i \in 1 .. n : ~Touched(i) => e.store[i] = s.store[i])
              \cup Clause("LongitudeKept",
                     \A i \in 1 .. n : Touched(i) /\ ~e.setLon => e.store[i].lon = s.store[i].lon))

JudgeStore(s, e) ==
    CASE e.k = "start" -> [st |-> NoStore, bad |-> {}]
      [] e.k = "obj" -> [st |-> [recs |-> e.recs, hemi |-> e.hemi, store |-> Empty(Len(e.recs))],
                         bad |-> Clause("StoreStartsEmpty", e.store = Empty(Len(e.recs)))]
      [] e.k = "reload" -> [st |-> [s EXCEPT !.recs = e.recs, !.store = Empty(Len(e.recs))],
                            bad |-> Clause("ReloadEmptiesStore",
                                           e.exc = "" /\ e.store = Empty(Len(e.recs)))]
      [] e.k = "alter" -> [st |-> [s EXCEPT !.recs = e.recs], bad |-> {}]
      [] e.k = "blat" -> [st |-> [s EXCEPT !.store = e.store],
                          bad |-> BLatClauses(s, e) \cup Clause("InputsUntouched", e.same)]
      [] e.k = "other" -> [st |-> [s EXCEPT !.store = e.store],
                           bad |-> Clause("ConversionKeepsStore", e.store = s.store)]

-----------------------------------------------------------------------------
(* Dual boundaries: records o, e with paired indices; stores of both       *)
NoDual == [o |-> << >>, e |-> << >>, ob |-> 0, eb |-> 0, hemi |-> 1, pairs |-> << >>,
           cur |-> 0, so |-> << >>, se |-> << >>]

IsSet(s) == s.cur >= 0 /\ s.cur < Len(s.pairs)
ORec(s) == s.o[s.pairs[s.cur + 1][1] + 1]
ERec(s) == s.e[s.pairs[s.cur + 1][2] + 1]

(* Both stores after an operation that sets the current records' boundaries *)
StoreAfter(s, old, which, recs, ev, mlts, set, overwrite) ==
    LET cur == IF IsSet(s) THEN s.pairs[s.cur + 1][which] + 1 ELSE 0
    IN  \A i \in 1 .. Len(recs) :
            LET new == IF which = 1 THEN ev.so[i] ELSE ev.se[i]
            IN  IF i = cur /\ set /\ (overwrite \/ old[i].lat = << >>)
                THEN LatsOk(recs[i], s.hemi, mlts, new.lat) /\ MltsOk(mlts, new.mlt)
                     /\ new.lon = old[i].lon
                ELSE new = old[i]
StoresOk(s, e, mlts, set, overwrite) ==
    StoreAfter(s, s.so, 1, s.o, e, mlts, set, overwrite)
    /\ StoreAfter(s, s.se, 2, s.e, e, mlts, set, overwrite)

DNormalClauses(s, e) ==
    LET o == ORec(s)
        ee == ERec(s)
        some == \E i \in 1 .. Len(e.lat) : InHemi(e.lat[i], s.hemi)
        Judged(i) == /\ ~Crossing(o, ee, s.hemi, e.mlt[i])
                     /\ ~OnLoneEdge(o, ee, s.hemi, e.lat[i], e.mlt[i])
    IN  IF e.exc # "" THEN { "DualNormalRaises" }
        ELSE IF e.oshape # e.shape THEN { "DualNormalShape" }
        ELSE IF ~IsSet(s)
        THEN Clause("DualUnsetIsUndefined",
                \A i \in 1 .. Len(e.blat) : /\ Undefined(e.blat[i], e.bmlt[i])
                                            /\ RIsNaN(e.olat[i]))
             \cup Clause("StoredBoundaryKept", StoresOk(s, e, << >>, FALSE, FALSE))
        ELSE Clause("DualRegion",
                \A i \in 1 .. Len(e.lat) : Judged(i) =>
                   RIsNaN(e.blat[i]) <=>
                       Region(o, ee, s.ob, s.eb, s.hemi, e.lat[i], e.mlt[i]) = "none")
          \cup Clause("DualLatitude",
                \A i \in 1 .. Len(e.lat) :
                   LET v == DualLat(o, ee, s.ob, s.eb, s.hemi, e.lat[i], e.mlt[i])
                   IN  Judged(i) /\ ~RIsNaN(v) /\ ~RIsNaN(e.blat[i]) => RClose(e.blat[i], v, Eps(7)))
          \cup Clause("DualOcbLocation",
                \A i \in 1 .. Len(e.lat) :
                   IF InHemi(e.lat[i], s.hemi)
                   THEN IsAt(e.olat[i], e.bmlt[i], s.hemi,
                             NormalPoint(o, s.ob, s.hemi, e.lat[i], e.mlt[i]), PT)
                   ELSE RIsNaN(e.olat[i]))
          \cup Clause("DualCorrection",
                \A i \in 1 .. Len(e.lat) :
                   InHemi(e.lat[i], s.hemi) => RClose(e.ocor[i], Correction(o.f, e.mlt[i]), VT))
          \cup Clause("StoredBoundaryKept", StoresOk(s, e, e.mlt, some, e.overwrite))
          \cup Clause("InputsUntouched", e.same)

DRevertClauses(s, e) ==
    LET o == ORec(s)
        ee == ERec(s)
        ocbOnly == e.isOcb \/ \A i \in 1 .. Len(e.nlat) : NormRegion(s.ob, s.eb, e.nlat[i]) = "cap"
    IN  IF e.exc # "" THEN { "DualRevertRaises" }
        ELSE IF e.oshape # e.shape THEN { "DualRevertShape" }
        ELSE IF ~IsSet(s)
        THEN Clause("DualUnsetIsUndefined",
                \A i \in 1 .. Len(e.olat) : Undefined(e.olat[i], e.omlt[i]))
             \cup Clause("StoredBoundaryKept", StoresOk(s, e, << >>, FALSE, FALSE))
        ELSE Clause("DualRevertedLocation",
                \A i \in 1 .. Len(e.nlat) :
                   IF ocbOnly \/ NormRegion(s.ob, s.eb, e.nlat[i]) = "cap"
                   THEN IsAt(e.olat[i], e.omlt[i], s.hemi,
                             RevertPoint(o, s.ob, s.hemi, e.nlat[i], e.nmlt[i], e.corr[i]), PT)
                   ELSE /\ RClose(e.olat[i], DualRevertLat(o, ee, s.ob, s.eb, s.hemi,
                                                           e.nlat[i], e.amlt[i]), Eps(7))
                        /\ RIsNaN(e.olat[i]) \/ RCycClose(e.omlt[i], e.amlt[i], 24, VT))
          \cup Clause("StoredBoundaryKept", StoresOk(s, e, e.amlt, ~ocbOnly, e.overwrite))
          \cup Clause("InputsUntouched", e.same)

(* Normalise, then revert what came out                                    *)
DRoundClauses(s, e) ==
    IF e.exc # "" THEN { "DualRoundTripRaises" }
    ELSE Clause("DualRoundTrip",
            IsSet(s) =>
            \A i \in 1 .. Len(e.lat) :
                ~Crossing(ORec(s), ERec(s), s.hemi, e.mlt[i])
                /\ ~OnLoneEdge(ORec(s), ERec(s), s.hemi, e.lat[i], e.mlt[i])
                /\ Region(ORec(s), ERec(s), s.ob, s.eb, s.hemi, e.lat[i], e.mlt[i]) # "none" =>
                    /\ ~RIsNaN(e.olat[i]) /\ ~RIsNaN(e.omlt[i])
                    /\ RLe(Dist(Point(e.olat[i], e.omlt[i], s.hemi),
                                Point(e.lat[i], e.mlt[i], s.hemi)), Eps(6)))
         \cup Clause("StoredBoundaryKept",
                StoresOk(s, e, e.mlt, IsSet(s) /\ \E i \in 1 .. Len(e.lat) : InHemi(e.lat[i], s.hemi),
                         FALSE))

CalcClauses(s, e) ==
    IF e.exc # "" THEN { "CalcRaises" }
    ELSE IF ~IsSet(s)
    THEN Clause("RegionWidths", \A i \in 1 .. Len(e.unscaled) : RIsNaN(e.unscaled[i]))
    ELSE Clause("RegionWidths",
            /\ Len(e.scaled) = Len(e.nlat) /\ Len(e.unscaled) = Len(e.nlat)
            /\ \A k \in 1 .. Len(e.oshapes) : e.oshapes[k] = e.shape
            /\ \A i \in 1 .. Len(e.nlat) :
                 /\ RClose(e.scaled[i], ScaledR(s.ob, s.eb, e.nlat[i]), VT)
                 /\ RClose(e.unscaled[i],
                           UnscaledR(ORec(s), ERec(s), s.ob, s.eb, s.hemi, e.nlat[i], e.amlt[i],
                                     e.corr[i]), Eps(7)))
         \cup Clause("StoredBoundaryKept", StoresOk(s, e, e.amlt, TRUE, e.overwrite))
         \cup Clause("InputsUntouched", e.same)

(* The boundary is set for some records of one component or of both        *)
(* (e.which), alone or through the pairs; e.lon: reference longitudes      *)
BLatsClauses(s, e) ==
    LET Ok(which, recs, old, new) ==
            \A i \in 1 .. Len(recs) :
                IF /\ \E k \in 1 .. Len(e.inds[which]) : e.inds[which][k] = i - 1
                   /\ (e.overwrite \/ old[i].lat = << >>)
                THEN /\ LatsOk(recs[i], s.hemi, e.mlt, new[i].lat)
                     /\ MltsOk(e.mlt, new[i].mlt)
                     /\ IF e.setLon THEN LonsOk(e.lon[which][i], new[i].lon)
                        ELSE new[i].lon = old[i].lon
                ELSE new[i] = old[i]
    IN  IF e.exc # "" THEN { "DualBoundaryRaises" }
        ELSE Clause("DualBoundarySet", Ok(1, s.o, s.so, e.so) /\ Ok(2, s.e, s.se, e.se))

JudgeDual(s, e) ==
    IF e.k = "start" THEN [st |-> NoDual, bad |-> {}]
    ELSE IF e.k = "dual"
    THEN [st |-> [o |-> e.o, e |-> e.e, ob |-> e.ob, eb |-> e.eb, hemi |-> e.hemi,
                  pairs |-> e.pairs, cur |-> 0, so |-> Empty(Len(e.o)), se |-> Empty(Len(e.e))],
          bad |-> Clause("StoreStartsEmpty", e.so = Empty(Len(e.o)) /\ e.se = Empty(Len(e.e)))]
    ELSE IF e.k = "set" THEN [st |-> [s EXCEPT !.cur = e.i], bad |-> {}]
    ELSE IF e.k = "ref" THEN [st |-> [s EXCEPT !.ob = e.ob, !.eb = e.eb], bad |-> {}]
    ELSE [st |-> [s EXCEPT !.so = e.so, !.se = e.se],
          bad |-> CASE e.k = "dnormal" -> DNormalClauses(s, e)
                    [] e.k = "drevert" -> DRevertClauses(s, e)
                    [] e.k = "dround" -> DRoundClauses(s, e)
                    [] e.k = "calc" -> CalcClauses(s, e)
                    [] e.k = "blats" -> BLatsClauses(s, e)]

-----------------------------------------------------------------------------
(* Geographic coordinates: the conversion to magnetic coordinates (mlat,   *)
(* mmlt, supplied by AACGM for the longitude glon) and the magnetic path   *)
(* one after the other.  ut: universal time in hours.                      *)
LonOfSlt(slt, ut) == RMul(15, RSub(slt, ut))
SltOfLon(lon, ut) == RAdd(RDiv(lon, 15), ut)
(* AACGM results depend slightly on the conversions made before            *)
GT == Eps(3)

(* Scalars become arrays of one element where a single boundary is used    *)
GeoShape(e) == \A k \in 1 .. Len(e.oshapes) :
    e.oshapes[k] = e.shape \/ (e.shape = << >> /\ ~e.dual /\ e.oshapes[k] = << 1 >>)

GeoNormal(e) ==
    IF e.exc # "" THEN { "GeographicRaises" }
    ELSE Clause("GeographicShape", GeoShape(e))
      \cup Clause("GeographicReference",
            \A i \in 1 .. Len(e.glon) : RCycClose(e.glon[i], LonOfSlt(e.slt[i], e.ut), 360, GT))
      \cup Clause("GeographicNormal",
            /\ Len(e.olat) = Len(e.mlat)
            /\ \A i \in 1 .. Len(e.mlat) :
                 IF InHemi(e.mlat[i], e.hemi)
                 THEN IF e.dual
                      THEN LET v == DualLat(e.b, e.eab, e.blat, e.elat, e.hemi, e.mlat[i], e.mmlt[i])
                           IN  \/ Crossing(e.b, e.eab, e.hemi, e.mmlt[i])
                               \/ /\ RClose(e.olat[i], v, GT)
                                  /\ IsAt(e.oclat[i], e.omlt[i], e.hemi,
                                          NormalPoint(e.b, e.blat, e.hemi, e.mlat[i], e.mmlt[i]), GT)
                      ELSE IsAt(e.olat[i], e.omlt[i], e.hemi,
                                NormalPoint(e.b, e.blat, e.hemi, e.mlat[i], e.mmlt[i]), GT)
                 ELSE RIsNaN(e.olat[i]))
(* e.olat, e.omlt: the same call in magnetic coordinates, for which AACGM  *)
(* gives the geographic location glat, glon                                *)
GeoRevert(e) ==
    IF e.exc # "" THEN { "GeographicRaises" }
    ELSE Clause("GeographicShape", GeoShape(e))
      \cup Clause("GeographicRevert",
            /\ Len(e.out) = Len(e.glat) /\ Len(e.outlt) = Len(e.glat)
            /\ \A i \in 1 .. Len(e.glat) :
                 /\ RClose(e.out[i], e.glat[i], GT)
                 /\ RIsNaN(e.out[i]) \/
                       (IsMlt(e.outlt[i]) /\ RCycClose(e.outlt[i], SltOfLon(e.glon[i], e.ut), 24, GT)))
JudgeGeo(s, e) == [st |-> 0, bad |-> IF e.k = "gnormal" THEN GeoNormal(e) ELSE GeoRevert(e)]
=============================================================================
