---------------------------- MODULE TraceVectors ----------------------------
(***************************************************************************)
(* Judges of recorded vector rotations and scalings.  Arrays are flattened *)
(* to the shape of the output.                                             *)
(***************************************************************************)
EXTENDS Vectors, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }

IsVec(n, e, v, tol) ==
    RClose(n, v[1], tol) /\ RClose(e, v[2], tol)
AnyNaN(s) == \E k \in 1 .. Len(s) : RIsNaN(s[k])

-----------------------------------------------------------------------------
(* e.k = "adjust": the functions of the vectors module, one after the      *)
(* other, for locations and poles on the same hemisphere                   *)
AdjustClauses(e) ==
    LET N == Len(e.lat)
        J(i) == AwayFromPoles(e.lat[i], e.lt[i], e.plat[i], e.plt[i])
        Mag(i) == RHypot(e.n[i], e.e[i])
    IN  IF e.exc # "" THEN { "AdjustRaises" }
        ELSE IF e.oshape # e.shape THEN { "AdjustShape" }
        ELSE Clause("PoleAngle",
               \A i \in 1 .. N : J(i) /\ ~SameMeridian(e.lt[i], e.plt[i]) =>
                   RClose(e.angle[i], PoleAngle(e.lat[i], e.lt[i], e.plat[i], e.plt[i]), Eps(4)))
          \cup Clause("Rotation",
               \A i \in 1 .. N : J(i) =>
                   IsVec(e.dn[i], e.de[i],
                         Adapted(e.n[i], e.e[i], e.lat[i], e.lt[i], e.plat[i], e.plt[i]), RMul(Eps(6), RMax(1, Mag(i)))))
          \cup Clause("VerticalKept", \A i \in 1 .. N : J(i) => RClose(e.dz[i], e.z[i], Eps(9)))
          \cup Clause("InputsUntouched", e.same)
JudgeAdjust(s, e) == [st |-> 0, bad |-> AdjustClauses(e)]

-----------------------------------------------------------------------------
(* e.k = "vdata": VectorData.set_ocb.  geo: the vector is given in         *)
(* geographic coordinates, glat, glt is its location there, pglat, pglt    *)
(* the magnetic pole there; mlat, mlt is the magnetic location; blat, blt  *)
(* the boundary pole; rcorr, r the correction and radius of the boundary   *)
(* conv: a coordinate is converted                                         *)
Magnetic(e, i) ==
    IF e.geo THEN Adapted(e.n[i], e.e[i], e.glat[i], e.glt[i], e.pglat[i], e.pglt[i])
    ELSE << e.n[i], e.e[i] >>
(* The boundary pole is at the colatitude r_cent                           *)
BoundaryVec(e, i) ==
    LET m == Magnetic(e, i)
    IN  Adapted(m[1], m[2], e.mlat[i], e.mlt[i], RMul(e.hemi, RSub(90, e.rcent[i])), RDiv(e.phi[i], 15))
(* As the code has it: the pole of the northern hemisphere                 *)
NorthernVec(e, i) ==
    LET m == Magnetic(e, i)
    IN  Adapted(m[1], m[2], e.mlat[i], e.mlt[i], RSub(90, e.rcent[i]), RDiv(e.phi[i], 15))

VDataClauses(e) ==
    LET N == Len(e.mlat)
        In(i) == RSign(e.mlat[i]) = e.hemi
        Far(lat, lt, plat, plt) ==
            IF e.conv THEN FarFromPoles(lat, lt, plat, plt, RFrac(2, 100), RInt(88))
            ELSE AwayFromPoles(lat, lt, plat, plt)
        Away(i) == /\ Far(e.mlat[i], e.mlt[i], RMul(e.hemi, RSub(90, e.rcent[i])), RDiv(e.phi[i], 15))
                   /\ e.geo => Far(e.glat[i], e.glt[i], e.pglat[i], e.pglt[i])
                   /\ e.hemi < 0 => ~SameMeridian(e.mlt[i], RDiv(e.phi[i], 15))
                   /\ ~RIsNaN(e.mlat[i])
                   /\ In(i) => ~RIsNaN(e.reflat[i])
        Mag(i) == RHypot(e.n[i], e.e[i])
        (* AACGM results depend slightly on the conversions made before    *)
        LT == IF e.conv THEN Eps(3) ELSE Eps(6)
        Tol(i) == RMul(IF e.conv THEN RFrac(2, 1000) ELSE Eps(6), RMax(1, Mag(i)))
        Right(i) == IsVec(e.on[i], e.oe[i], BoundaryVec(e, i), Tol(i))
        AsIs(i) == IsVec(e.on[i], e.oe[i], NorthernVec(e, i), Tol(i))
    IN  IF e.exc # "" THEN { "SetBoundaryRaises" }
        ELSE IF Len(e.on) # N \/ e.oshape # e.shape
        THEN { "VectorShape" }
        ELSE Clause("SouthernPole",
               \A i \in 1 .. N : Away(i) /\ In(i) /\ e.hemi < 0 => Right(i) \/ ~AsIs(i))
          \cup Clause("VectorRotation",
               \A i \in 1 .. N : Away(i) /\ In(i) => Right(i) \/ (e.hemi < 0 /\ AsIs(i)))
          \cup Clause("VerticalKept", \A i \in 1 .. N : Away(i) /\ In(i) => RClose(e.oz[i], e.z[i], Eps(9)))
          \cup Clause("VectorMagnitude",
               \A i \in 1 .. N : Away(i) /\ In(i) =>
                   /\ RCloseRel(e.omag[i], Magnitude(e.n[i], e.e[i], e.z[i]), Eps(6))
                   /\ RCloseRel(e.vmag[i], Magnitude(e.n[i], e.e[i], e.z[i]), Eps(6)))
          \cup Clause("OtherHemisphereVector",
               \A i \in 1 .. N : Away(i) /\ ~In(i) /\ RLt(0, Mag(i)) => RIsNaN(e.on[i]) /\ RIsNaN(e.oe[i]))
          \cup Clause("VectorLocation",
               \A i \in 1 .. N : Away(i) => /\ RClose(e.vlat[i], e.mlat[i], LT)
                                            /\ RCycClose(e.vlt[i], e.mlt[i], 24, LT))
          \cup Clause("BoundaryLocation",
               \A i \in 1 .. N : Away(i) =>
                   IF In(i) THEN RClose(e.olat[i], e.reflat[i], LT)
                                 /\ RCycClose(e.omlt[i], e.refmlt[i], 24, LT)
                   ELSE RIsNaN(e.olat[i]))
          \cup Clause("InputsUntouched", e.same)
JudgeVData(s, e) == [st |-> 0, bad |-> VDataClauses(e)]

-----------------------------------------------------------------------------
(* e.k = "scale": the same data with and without a scaling function        *)
ScaleClauses(e) ==
    LET N == Len(e.un)
        U(i) == RAdd(e.r[i], e.rcorr[i])
        S == RSub(90, RAbs(e.blat))
        Is(x, y, i) == RCloseRel(x, Scale(e.fun, y, U(i), S), Eps(9))
    IN  IF e.exc # "" THEN { "SetBoundaryRaises" }
        ELSE Clause("PolarCapRadius",
               \A i \in 1 .. N : ~RIsNaN(e.rcorr[i]) =>
                   RClose(e.unscaled[i], U(i), Eps(9)) /\ RClose(e.scaled[i], S, Eps(9)))
          \cup Clause("ScaledComponents",
               \A i \in 1 .. N : ~RIsNaN(e.un[i]) /\ ~RIsNaN(e.rcorr[i]) =>
                   Is(e.sn[i], e.un[i], i) /\ Is(e.se[i], e.ue[i], i) /\ Is(e.sz[i], e.uz[i], i))
          \cup Clause("ScaledMagnitude",
               \A i \in 1 .. N : ~RIsNaN(e.un[i]) /\ ~RIsNaN(e.rcorr[i]) =>
                   RCloseRel(e.smag[i], Magnitude(e.sn[i], e.se[i], e.sz[i]), Eps(9)))
          \cup Clause("ScaledUndefined", 
               \A i \in 1 .. N : ~RIsNaN(e.rcorr[i]) => (RIsNaN(e.un[i]) <=> RIsNaN(e.sn[i])))
(* e.k = "fun": the scaling functions themselves                           *)
FunClauses(e) ==
    IF e.exc # "" THEN { "ScaleRaises" }
    ELSE Clause("ScaleFunction",
           /\ Len(e.out) = Len(e.v)
           /\ \A i \in 1 .. Len(e.v) : RCloseRel(e.out[i], Scale(e.fun, e.v[i], e.u[i], e.s[i]), Eps(12)))
       \cup Clause("InputsUntouched", e.same)
(* e.k = "hav": haversine and its inverse                                  *)
Hav(a) == RSq(RSin(RDiv(a, 2)))
HavClauses(e) ==
    IF e.exc # "" THEN { "HaversineRaises" }
    ELSE Clause("Haversine", \A i \in 1 .. Len(e.a) : RClose(e.h[i], Hav(e.a[i]), Eps(12)))
      \cup Clause("InverseHaversine",
             \A i \in 1 .. Len(e.a) :
                 IF RIsNaN(e.a[i]) THEN RIsNaN(e.back[i])
                 ELSE /\ RClose(Hav(e.back[i]), Hav(e.a[i]), Eps(9))
                      /\ RLe(0, e.back[i]) /\ RLe(e.back[i], RAdd(RPi, Eps(9))))
JudgeScale(s, e) == [st |-> 0, bad |-> CASE e.k = "scale" -> ScaleClauses(e)
                                         [] e.k = "fun" -> FunClauses(e)
                                         [] e.k = "hav" -> HavClauses(e)]
=============================================================================
