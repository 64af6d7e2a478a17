----------------------------- MODULE TraceTrack -----------------------------
(***************************************************************************)
(* Judge of satellite tracks and of the radius corrections.                *)
(***************************************************************************)
EXTENDS Track, Geometry, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }

Tol == RFrac(1, 10000000)
(* Judged away from the edges, as they depend on rounding                  *)
Judged(m) == RIsNaN(m) \/ RLt(Tol, RAbs(m))

JudgeTrack(s, e) ==
    LET N == Len(e.lat)
        P(k) == TrackPoint(e.lat[k], e.mlt[k], e.hemi)
        TM(k) == Margin(P(k), e.a, e.b, e.dx, e.dy, e.past)
        AM(k) == AsIsMargin(P(k), e.a, e.b, e.dx, e.dy, e.past)
        Defined(k) == ~RIsNaN(e.lat[k]) /\ ~RIsNaN(e.mlt[k])
        Edge(k) == RLt(RAbs(RSub(Apart(P(k), e.a), Apart(P(k), e.b))), Tol)
        Ok(k) == IF ~Defined(k) THEN ~e.good[k]
                 ELSE (e.good[k] = RLe(0, TM(k))) \/ Edge(k) \/ ~Judged(TM(k))
                      \/ (Rises(e.a, e.b) /\ ~Judged(AM(k)))
        Known(k) == Defined(k) /\ ~Ok(k) /\ Rises(e.a, e.b) /\ e.good[k] = RLe(0, AM(k))
        wrong == RLt(e.dx, 0) \/ RLt(e.dy, 0) \/ RLt(e.past, 0) \/ ~e.known
    IN  [st |-> s, bad |->
            IF wrong THEN Clause("BadAllowances", e.exc = "ValueError")
            ELSE IF e.exc # "" THEN { "TrackRaises" }
            ELSE Clause("TrackShape", e.shape = e.want /\ Len(e.good) = N)
                 \cup Clause("OnTrack", Len(e.good) = N => \A k \in 1 .. N : Ok(k) \/ Known(k))
                 \cup Clause("RisingTrack", Len(e.good) = N => \A k \in 1 .. N : ~Known(k))
                 \cup Clause("TrackInputs", e.same)]

-----------------------------------------------------------------------------
Methods(name, inst) ==
    CASE name = "elliptical" /\ inst = "ampere" -> { "median", "gaussian" }
      [] name = "harmonic" /\ inst = "ampere" -> { "median", "gaussian" }
      [] name = "harmonic" /\ inst \in { "si12", "si13", "wic" } -> { "ocb", "eab" }
      [] OTHER -> {}
JudgeCorrection(s, e) ==
    LET wrong == e.f.name # "circular" /\ e.f.method \notin Methods(e.f.name, e.f.inst)
    IN  [st |-> s, bad |->
            IF wrong THEN Clause("UnknownCorrection", e.exc = "ValueError")
            ELSE IF e.exc # "" THEN { "CorrectionRaises" }
            ELSE Clause("CorrectionShape", e.shape = e.want /\ Len(e.out) = Len(e.mlt))
                 \cup Clause("CorrectionValue", Len(e.out) = Len(e.mlt) =>
                        \A k \in 1 .. Len(e.mlt) :
                            \/ RIsNaN(e.mlt[k]) /\ (RIsNaN(e.out[k]) \/ e.f.name = "circular")
                            \/ RClose(e.out[k], Correction(e.f, e.mlt[k]), Eps(8)))
                 \cup Clause("CorrectionPeriod", Len(e.later) = Len(e.out) /\
                        \A k \in 1 .. Len(e.out) : RClose(e.out[k], e.later[k], Eps(8)))
                 \cup Clause("CorrectionInputs", e.same)]
=============================================================================
