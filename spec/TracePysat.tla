----------------------------- MODULE TracePysat -----------------------------
(***************************************************************************)
(* Judge of adding boundary coordinates to the data of a pysat Instrument. *)
(* e.rows are the times of the data (s), e.row the row (from one) of each  *)
(* element of the data, whose values were brought to common dimensions.    *)
(***************************************************************************)
EXTENDS TraceInstr

Num(s) == SelectSeq(s, LAMBDA x : ~RIsNaN(x))
PRef(e, h) == IF e.own THEN e.blat ELSE RInt((IF e.bname = "eab" THEN 64 ELSE 74) * h)

(* Hemisphere of the data; 2 when there are both, or none                  *)
PHemi(e) ==
    IF e.harg # 0 THEN e.harg
    ELSE IF e.own THEN e.hemi
    ELSE LET f == Num(e.lat)
         IN  IF f = << >> THEN 2 ELSE Hemisphere(Sign(Greatest(f)), Sign(LeastOf(f)))

PLoaded(e) == IF e.own \/ e.dual THEN Len(RecTimes(e))
              ELSE Cardinality({ k \in 1 .. Len(e.recs) :
                        /\ e.rows[1] - e.tol - 1 <= e.recs[k].t
                        /\ e.recs[k].t <= e.rows[Len(e.rows)] + e.tol + 1 })

Added(e) ==
    LET N == Len(e.lat)
        h == PHemi(e)
        Here(k) == ~RIsNaN(e.lat[k]) /\ Sign(e.lat[k]) = h
        (* Rows with data in the hemisphere, in order                      *)
        sel == SelectSeq([i \in 1 .. Len(e.rows) |-> i],
                         LAMBDA i : \E k \in 1 .. N : e.row[k] = i /\ Here(k))
        data == [i \in 1 .. Len(sel) |-> e.rows[sel[i]]]
        m == Matches(RecTimes(e), GoodOnes(e), e.cur, data, 0, e.tol)
        rec == [i \in 1 .. Len(e.rows) |->
                    LET s == { k \in 1 .. Len(m) : sel[m[k][1] + 1] = i }
                    IN  IF s = {} THEN -1 ELSE m[CHOOSE k \in s : TRUE][2]]
        (* The magnetic location                                           *)
        Lat(k) == e.mlat[k]
        Mlt(k) == e.mmlt[k]
        Loc(k) == ~RIsNaN(Lat(k)) /\ ~RIsNaN(Mlt(k))
        Used(k) == Here(k) /\ Loc(k) /\ rec[e.row[k]] >= 0
        Rec(k) == rec[e.row[k]]
        B(k) == ORec(e, Rec(k)).b
        ref == PRef(e, h)
        T(v) == RMul(IF e.conv THEN RFrac(2, 1000) ELSE Eps(6), RMax(1, RAbs(v)))
        Close(x, v) == IF RIsNaN(v) THEN RIsNaN(x) ELSE RClose(x, v, T(v))
        P(k) == NormalPoint(B(k), ref, h, Lat(k), Mlt(k))
        Edge(k) == e.dual /\ (\/ Crossing(B(k), ERec(e, Rec(k)).b, h, Mlt(k))
                              \/ OnLoneEdge(B(k), ERec(e, Rec(k)).b, h, Lat(k), Mlt(k)))
        NewLat(k) == IF e.dual
                     THEN DualLat(B(k), ERec(e, Rec(k)).b, e.blat, e.elat, h, Lat(k), Mlt(k))
                     ELSE LatOf(P(k), h)
        LocOk(k) == \/ Edge(k)
                    \/ /\ Close(e.out.lat[k], NewLat(k))
                       /\ \/ RIsNaN(NewLat(k))
                          \/ RLt(RHypot(P(k)[1], P(k)[2]), RFrac(1, 10))
                          \/ RCycClose(e.out.mlt[k], MltOf(P(k)), 24, T(RInt(1)))
        U(k) == Radius(B(k), Mlt(k))
        S == RefRadius(ref)
        Sc(f, v, k) == Scale(f, v, U(k), S)
        Nothing(x) == \A k \in 1 .. N : (~Here(k) \/ rec[e.row[k]] < 0) => RIsNaN(x[k])
        (* Vectors                                                         *)
        PLat(k) == RSub(90, B(k).r_cent)
        PLt(k) == RDiv(B(k).phi_cent, 15)
        Away(v, k) ==
            /\ Used(k) /\ ~Edge(k) /\ ~RIsNaN(NewLat(k))
            /\ ~RIsNaN(v.n[k]) /\ ~RIsNaN(v.e[k]) /\ ~RIsNaN(v.z[k])
            /\ IF e.conv THEN FarFromPoles(Lat(k), Mlt(k), RMul(h, PLat(k)), PLt(k), RFrac(2, 100), RInt(88))
               ELSE AwayFromPoles(Lat(k), Mlt(k), RMul(h, PLat(k)), PLt(k))
            /\ v.geo => FarFromPoles(e.lat[k], e.lt[k], e.pglat, e.pglt, RFrac(2, 100), RInt(88))
            /\ ~SameMeridian(Mlt(k), PLt(k))
        Mag(v, k) == RMul(RMax(1, RHypot(v.n[k], v.e[k])), RMax(1, Sc(v.fun, RInt(1), k)))
        Near(x, y, v, k) == RClose(x, y, RMul(IF e.conv THEN RFrac(2, 1000) ELSE Eps(6), Mag(v, k)))
        Vec(v, k, plat) ==
            LET g == IF v.geo THEN Adapted(v.n[k], v.e[k], e.lat[k], e.lt[k], e.pglat, e.pglt)
                     ELSE << v.n[k], v.e[k] >>
            IN  Adapted(g[1], g[2], Lat(k), Mlt(k), plat, PLt(k))
        Is(v, k, w) == Near(v.on[k], Sc(v.fun, w[1], k), v, k) /\ Near(v.oe[k], Sc(v.fun, w[2], k), v, k)
        Right(v, k) == Is(v, k, Vec(v, k, RMul(h, PLat(k))))
        AsIs(v, k) == h < 0 /\ Is(v, k, Vec(v, k, PLat(k)))
        VecClauses(v) ==
            Clause("SouthernPole", \A k \in 1 .. N : Away(v, k) /\ h < 0 => Right(v, k) \/ ~AsIs(v, k))
            \cup Clause("AddedVector", \A k \in 1 .. N : Away(v, k) => Right(v, k) \/ AsIs(v, k))
            \cup Clause("AddedVertical", \A k \in 1 .. N : Away(v, k) => Near(v.oz[k], Sc(v.fun, v.z[k], k), v, k))
            \cup Clause("AddedMagnitude",
                   \A k \in 1 .. N : Away(v, k) =>
                       Near(v.omag[k], Magnitude(Sc(v.fun, v.n[k], k), Sc(v.fun, v.e[k], k), Sc(v.fun, v.z[k], k)), v, k))
            \cup Clause("AddedRadius",
                   \A k \in 1 .. N : Away(v, k) => Close(v.our[k], U(k)) /\ Close(v.osr[k], S))
            \cup Clause("NothingElse",
                   Nothing(v.on) /\ Nothing(v.oe) /\ Nothing(v.oz) /\ Nothing(v.omag) /\ Nothing(v.our) /\ Nothing(v.osr))
    IN  IF h = 2 THEN Clause("BothHemispheres", e.exc = "ValueError" /\ ~e.added)
        ELSE IF e.exc # "" THEN { "AddingRaises" }
        ELSE IF PLoaded(e) = 0 THEN Clause("NothingToAdd", ~e.added)
        ELSE IF ~e.all THEN { "VariablesAdded" }
        ELSE Clause("AddedLocation", \A k \in 1 .. N : Used(k) => LocOk(k))
        \cup Clause("AddedCorrection",
               \A k \in 1 .. N : Used(k) /\ ~Edge(k) /\ ~RIsNaN(NewLat(k)) =>
                   Close(e.out.cor[k], Correction(B(k).f, Mlt(k))))
        \cup Clause("AddedScalar",
               \A j \in 1 .. Len(e.scal) : \A k \in 1 .. N :
                   Used(k) /\ ~Edge(k) /\ ~RIsNaN(NewLat(k)) =>
                       Close(e.scal[j].out[k], Sc(e.scal[j].fun, e.scal[j].v[k], k)))
        \cup Clause("UndefinedStays",
               \A k \in 1 .. N : Here(k) /\ ~Loc(k) => RIsNaN(e.out.lat[k]) /\ RIsNaN(e.out.mlt[k]))
        \cup Clause("NothingElse",
               /\ Nothing(e.out.lat) /\ Nothing(e.out.mlt) /\ Nothing(e.out.cor)
               /\ \A j \in 1 .. Len(e.scal) : Nothing(e.scal[j].out))
        \cup UNION { VecClauses(e.vecs[j]) : j \in 1 .. Len(e.vecs) }
        \cup Clause("Metadata", e.meta)

JudgePysat(s, e) == [st |-> s, bad |-> Clause("InputsUntouched", e.same) \cup Added(e)]
=============================================================================
