----------------------------- MODULE TraceVData -----------------------------
(***************************************************************************)
(* Judge of recorded histories of a VectorData object.  e.has: the         *)
(* attributes after the event, per datum.  e.refouts[lb][b] are those of a *)
(* new object with the same inputs and function, with locations from       *)
(* boundary lb, for which boundary b is set; e.reflocs[lb] the locations.  *)
(***************************************************************************)
EXTENDS VData, Reals, TraceBase

NoHistory == [v |-> NoVData, mag |-> << >>]
Clause(name, ok) == IF ok THEN {} ELSE { name }

Defined(x) == \E i \in 1 .. Len(x) : ~RIsNaN(x[i])
After(s, e) ==
    CASE e.k = "new" -> New(e.d, e.o, e.f)
      [] e.k = "setO" -> SetO(s, e.o)
      [] e.k = "setD" -> SetD(s, e.d)
      [] e.k = "setI" -> SetI(s, e.d)
      [] e.k = "setV" -> SetV(s)
      [] e.k = "setB" -> SetB(s, e.b, e.f, Defined(e.reflocs[e.b][1]), Defined(e.outs[5]))
      [] e.k = "setF" -> SetF(s, e.f)
      [] e.k = "clear" -> Clear(s)
      [] e.k = "redo" -> Redo(s)

Same(x, y) == /\ Len(x) = Len(y)
              /\ \A i \in 1 .. Len(x) : (RIsNaN(x[i]) /\ RIsNaN(y[i])) \/ RCloseRel(x[i], y[i], RFrac(1, 1000000000))
(* AACGM depends slightly on what it was asked before                      *)
Near(e, x, y) ==
    IF ~e.geo THEN Same(x, y)
    ELSE /\ Len(x) = Len(y)
         /\ \A i \in 1 .. Len(x) : (RIsNaN(x[i]) /\ RIsNaN(y[i])) \/ RCloseRel(x[i], y[i], RFrac(1, 200))
                                   \/ RClose(x[i], y[i], RFrac(1, 20))
AllNaN(x) == \A i \in 1 .. Len(x) : RIsNaN(x[i])

Clauses(mag, n, e) ==
    IF ~n.alive THEN Clause("MismatchAccepted", e.exc = "ValueError")
    ELSE IF e.exc # "" /\ ~(e.k = "redo" /\ ~n.ang) THEN { "OperationRaises" }
    ELSE Clause("OutputShape", \A i \in 1 .. Len(e.shapes) : e.shapes[i] = VShape(n))
      \cup Clause("LocationShape", n.loc # << >> => \A i \in 1 .. Len(e.lshapes) : e.lshapes[i] = VShape(n))
      \cup Clause("Printable", e.printable)
      \cup Clause("ClearedOutput", n.out = << >> => \A i \in 1 .. Len(e.outs) : AllNaN(e.outs[i]))
      \cup Clause("ClearedLocation", n.loc = << >> => \A i \in 1 .. Len(e.locs) : AllNaN(e.locs[i]))
      \cup Clause("CurrentOutput", Current(n) /\ e.hasout =>
               \A i \in 1 .. Len(e.outs) : Near(e, e.outs[i], e.refouts[n.loc[3]][n.out[5]][i]))
      \cup Clause("CurrentLocation", n.loc # << >> /\ e.hasref =>
               \A i \in 1 .. Len(e.locs) : Near(e, e.locs[i], e.reflocs[n.loc[3]][i]))
      \cup Clause("CurrentMagnitude", e.k \in { "new", "setD", "setI" } =>
               Same(e.mag, [i \in 1 .. Len(e.n) |->
                   RSqrt(RAdd(RAdd(RSq(e.n[i]), RSq(e.e[i])), RSq(e.z[i])))]))
      \cup Clause("UnsetAccepted", e.k = "redo" /\ ~n.ang => e.exc = "ValueError")
      \cup Clause("MagnitudeKept", e.k \in { "setO", "setB", "clear", "setF", "redo" } =>
               \A i \in 1 .. Len(e.mag) :
                   \/ RCloseRel(e.mag[i], mag[IF Len(mag) = 1 THEN 1 ELSE i], RFrac(1, 1000000000))
                   \/ e.conv /\ LET k == IF Len(e.n) = 1 THEN 1 ELSE i
                                IN  RCloseRel(e.mag[i], RSqrt(RAdd(RAdd(RSq(e.n[k]), RSq(e.e[k])), RSq(e.z[k]))),
                                              RFrac(1, 1000000000)))
      \cup Clause("ScaleFunction", e.func = n.f)
      \cup Clause("InputsKept", e.kept)

JudgeHistory(s, e) ==
    IF e.k = "start" THEN [st |-> NoHistory, bad |-> {}]
    ELSE IF e.exc # "" /\ e.k = "setB" THEN [st |-> s, bad |-> { "OperationRaises" }]
    ELSE LET n == After(s.v, e)
         IN  [st |-> [v |-> n, mag |-> IF n.alive /\ (e.exc = "" \/ e.k = "redo") THEN e.mag ELSE << >>],
              bad |-> Clauses(s.mag, n, e)]
=============================================================================
