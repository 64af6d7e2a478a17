------------------------------- MODULE MCDual -------------------------------
(***************************************************************************)
(* Dual-boundary coordinates: laws of the three regions on a grid, and     *)
(* histories of conversions, which set the stored boundaries of the pair   *)
(* and put back what was stored unless asked to overwrite it.              *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json

CONSTANTS MaxOps, EmitMod
VARIABLES o, e, hemi, lat, mlt, so, se, ops
vars == << o, e, hemi, lat, mlt, so, se, ops >>

Circ(a) == [name |-> "circular", inst |-> "", method |-> "", add |-> RInt(a)]
Har == [name |-> "harmonic", inst |-> "si13", method |-> "eab", add |-> RInt(0)]
LatList == << 5, 40, 55, 60, 62, 64, 66, 68, 70, 72, 74, 76, 78, 81, 85, 89 >>
OB == RMul(hemi, 74)
EB == RMul(hemi, 64)

Init == /\ o \in { [r_cent |-> RInt(rc), phi_cent |-> RInt(ph), r |-> RInt(r), f |-> Circ(0)] :
                     rc \in { 0, 3, 20 }, ph \in { 0, 200 }, r \in { 11, 15 } }
        /\ e \in { [r_cent |-> RInt(rc), phi_cent |-> RInt(70), r |-> RInt(28), f |-> f] :
                     rc \in { 0, 4 }, f \in { Circ(0), Circ(3), Har } }
        /\ hemi \in { 1, -1 }
        /\ lat = 1 /\ mlt \in { RFrac(m, 2) : m \in { 0, 7, 15, 29 } }
        /\ so = 0 /\ se = 0 /\ ops = << >>

(* Stored values are the number of the operation that set them             *)
Keep(st, over) == IF over \/ st = 0 THEN Len(ops) + 1 ELSE st
Step(op, over) == /\ Len(ops) < MaxOps
                  /\ ops' = Append(ops, << op, over >>)
                  /\ so' = IF op = "beab" THEN so ELSE Keep(so, over)
                  /\ se' = IF op = "bocb" THEN se ELSE Keep(se, over)
                  /\ UNCHANGED << o, e, hemi, mlt, lat >>
Move == /\ Len(ops) = 0 /\ lat < Len(LatList) /\ lat' = lat + 1
        /\ UNCHANGED << o, e, hemi, mlt, so, se, ops >>
(* Histories are explored for one geometry; the laws for all of them       *)
Main == mlt = RFrac(0, 2) /\ hemi = 1 /\ o.r_cent = RInt(0) /\ e.r_cent = RInt(0)
        /\ o.r = RInt(11) /\ o.phi_cent = RInt(0) /\ e.f = Circ(0)
Next == Move \/ (Main /\ lat = 1 /\ \E op \in { "normal", "set", "bocb", "beab" }, over \in BOOLEAN : Step(op, over))
Spec == Init /\ [][Next]_vars

L == RMul(hemi, LatList[lat])
OL == BoundaryLat(o, hemi, mlt)
EL == BoundaryLat(e, hemi, mlt)
Reg(l) == Region(o, e, OB, EB, hemi, l, mlt)
Dual(l) == DualLat(o, e, OB, EB, hemi, l, mlt)
Ok == ~RIsNaN(OL) /\ ~RIsNaN(EL) /\ ~Crossing(o, e, hemi, mlt)
PoleInside == RLt(o.r_cent, Radius(o, mlt))

(* Every location belongs to a region when the boundaries surround the     *)
(* pole, and its normalised latitude to the same region                    *)
RegionsPartition == Ok =>
    /\ PoleInside => Reg(L) # "none"
    /\ Reg(L) # "none" => NormRegion(OB, EB, Dual(L)) = Reg(L)
       \/ RClose(Dual(L), OB, Eps(7)) \/ RClose(Dual(L), EB, Eps(7))
EdgesMeet == Ok =>
    /\ RClose(Dual(OL), OB, Eps(7)) /\ RClose(Dual(EL), EB, Eps(7))
    /\ RClose(Dual(RSub(OL, RMul(hemi, Eps(6)))), OB, Eps(5))
    /\ RClose(Dual(RSub(EL, RMul(hemi, Eps(6)))), EB, Eps(5))
Monotone == (Ok /\ lat > 1) =>
    LET m == RMul(hemi, LatList[lat - 1])
    IN  Reg(m) \in { "out", "mid" } /\ Reg(L) \in { "out", "mid" } =>
            RLt(RAbs(Dual(m)), RAbs(Dual(L)))
RoundTrip == Ok /\ Reg(L) \in { "out", "mid" } =>
    RClose(DualRevertLat(o, e, OB, EB, hemi, Dual(L), mlt), L, Eps(7))
StoreRestored == \A k \in 1 .. Len(ops) :
    /\ ops[k][2] => /\ ops[k][1] # "beab" => so >= k
                    /\ ops[k][1] # "bocb" => se >= k
    /\ so = k => \A j \in k + 1 .. Len(ops) : ~ops[j][2] \/ ops[j][1] = "beab"
    /\ se = k => \A j \in k + 1 .. Len(ops) : ~ops[j][2] \/ ops[j][1] = "bocb"

Emit == (Len(ops) = MaxOps) => PrintT("@@" \o ToJson([ops |-> ops]))
=============================================================================
