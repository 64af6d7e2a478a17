--------------------------- MODULE TraceQuadrants ---------------------------
(***************************************************************************)
(* Judges of recorded calls of the functions of the vectors module.        *)
(* Inputs are repeated to the shape of the output.                         *)
(***************************************************************************)
EXTENDS Quadrants, Vectors, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }

(* All values have the shape that the inputs have together                 *)
Shaped(e) == e.oshape = e.shape /\ Len(e.out) = e.num

VectQuadClauses(e) ==
    Clause("VectorQuadrant", \A i \in 1 .. e.num : e.out[i] = VectQuadrant(e.n[i], e.e[i]))
PoleQuadClauses(e) ==
    Clause("PoleQuadrant", \A i \in 1 .. e.num : e.out[i] = PoleQuadrant(e.lt[i], e.plt[i], e.angle[i]))

Valid(e, i) == /\ e.pq[i] \in Quads /\ e.vq[i] \in Quads
               /\ ~RIsNaN(e.base[i]) /\ ~RIsNaN(e.pole[i])
(* Angles that lie in their quadrants                                      *)
Agreed(e, i) == Agree(e.vq[i], e.base[i]) /\ Agree(e.pq[i], e.pole[i])
(* Nothing to work with                                                    *)
Hopeless(e) == (\A i \in 1 .. e.num : e.pq[i] \notin Quads) \/ (\A i \in 1 .. e.num : e.vq[i] \notin Quads)
DestClauses(e) ==
    Clause("DestinationAngle",
        \A i \in 1 .. e.num :
            IF Valid(e, i)
            THEN Agreed(e, i) => RClose(e.out[i], DestAngle(e.pq[i], e.vq[i], e.base[i], e.pole[i]), Eps(9))
            ELSE RIsNaN(e.out[i]))
(* A sign decides nothing where the component is zero                      *)
SignClauses(e) ==
    LET A(i) == DestAngle(e.pq[i], e.vq[i], e.base[i], e.pole[i])
    IN  Clause("NorthSign",
            \A i \in 1 .. e.num : Valid(e, i) /\ Agreed(e, i) /\ e.north /\ ~RClose(A(i), 90, Eps(6)) =>
                e.out[i] = NorthSign(e.pq[i], e.vq[i], e.base[i], e.pole[i]))
      \cup Clause("EastSign",
            \A i \in 1 .. e.num : Valid(e, i) /\ Agreed(e, i) /\ e.east /\ RLt(Eps(6), A(i)) /\ RLt(A(i), RSub(180, Eps(6))) =>
                e.out2[i] = EastSign(e.pq[i], e.vq[i], e.base[i], e.pole[i]))
      \cup Clause("SignsAskedFor",
            \A i \in 1 .. e.num : (~e.north => e.out[i] = 0) /\ (~e.east => e.out2[i] = 0))

AngleClauses(e) ==
    Clause("PoleAngle",
        \A i \in 1 .. e.num :
            IF RIsNaN(e.lat[i]) \/ RIsNaN(e.lt[i]) \/ RIsNaN(e.plat[i]) \/ RIsNaN(e.plt[i])
            THEN RIsNaN(e.out[i])
            ELSE AwayFromPoles(e.lat[i], e.lt[i], e.plat[i], e.plt[i]) /\ ~SameMeridian(e.lt[i], e.plt[i]) =>
                     RClose(e.out[i], PoleAngle(e.lat[i], e.lt[i], e.plat[i], e.plt[i]), Eps(4)))

(* The pole of a boundary of the northern hemisphere: local time, latitude *)
PoleLocClauses(e) ==
    Clause("PoleLocation",
        \A i \in 1 .. e.num : /\ RCycClose(e.out[i], RDiv(e.phi[i], 15), 24, Eps(9))
                              /\ RClose(e.out2[i], RSub(90, e.rc[i]), Eps(9))
                              /\ RIsNaN(e.out[i]) \/ (RLe(0, e.out[i]) /\ RLt(e.out[i], 24)))

Clauses(e) ==
    Clause("QuadrantInputs", e.same)
    \cup (IF e.k \in { "dest", "sign" } /\ Hopeless(e)
          THEN Clause("UndefinedRefused", e.exc = "ValueError")
          ELSE IF e.exc # "" THEN { "QuadrantRaises" }
          ELSE IF ~Shaped(e) THEN { "QuadrantShape" }
          ELSE CASE e.k = "vquad" -> VectQuadClauses(e)
                 [] e.k = "pquad" -> PoleQuadClauses(e)
                 [] e.k = "dest" -> DestClauses(e)
                 [] e.k = "sign" -> SignClauses(e)
                 [] e.k = "angle" -> AngleClauses(e)
                 [] e.k = "poleloc" -> PoleLocClauses(e))
JudgeQuadrants(s, e) == [st |-> 0, bad |-> Clauses(e)]
=============================================================================
