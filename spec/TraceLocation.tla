--------------------------- MODULE TraceLocation ---------------------------
(***************************************************************************)
(* Judge of location conversions.  e.refs holds, for every conversion in   *)
(* the chain, the longitudes given to AACGM and what it answered.          *)
(***************************************************************************)
EXTENDS Location, Geometry, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }
(* AACGM results depend slightly on the conversions made before            *)
LT == Eps(3)
Lon(slt, ut) == RMul(15, RSub(slt, ut))
Slt(lon, ut) == RAdd(RDiv(lon, 15), ut)

(* Near a pole, the local time is not judged                               *)
NearLt(lt, want, lat) == \/ RIsNaN(lat) \/ RLt(88, RAbs(lat))
                         \/ RCycClose(lt, want, 24, LT)

(* One conversion: << latitude, local time >> of element i                 *)
AskedRight(r, lt, ut, lat) ==
    \/ r.sys[1] = "A2G"                     \* AACGM itself gives longitudes
    \/ RIsNaN(lat)
    \/ RCycClose(r.lon, Lon(lt, ut), 360, LT)
After(r, ut) == IF r.sys[1] = "A2G" THEN << r.lat, Slt(r.outlon, ut) >>
                ELSE << r.lat, r.lt >>

JudgeConvert(e) ==
    LET times == e.times
        to == e.to
        same == to = e.from
        n == e.n
        m == IF same THEN n ELSE Size(n, times)
        N == IF m = 0 THEN 1 ELSE m
        steps == Conversions(e.from, to)
        K == Len(steps)
        Was(v, i) == IF Len(v) = 1 THEN v[1] ELSE v[i]
        T(i) == IF Len(e.ut) = 1 THEN e.ut[1] ELSE e.ut[i]
        Reached(i) == IF K = 0 THEN << Was(e.lat, i), Was(e.lt, i) >>
                      ELSE After(e.refs[i][K], T(i))
        Chain(i) ==
            /\ Len(e.refs[i]) = K
            /\ \A k \in 1 .. K :
                  /\ e.refs[i][k].sys = steps[k]
                  /\ LET b == IF k = 1 THEN << Was(e.lat, i), Was(e.lt, i) >>
                              ELSE After(e.refs[i][k - 1], T(i))
                     IN  AskedRight(e.refs[i][k], b[2], T(i), b[1])
    IN  IF ~same /\ ~Fits(n, times)
        THEN Clause("Mismatch", e.exc = "ValueError")
             \cup Clause("MismatchKeeps", e.label = e.from /\ e.alat = e.lat /\ e.alt = e.lt)
        ELSE IF e.exc # "" THEN { "ConversionRaises" }
        ELSE Clause("Reference", same \/ (Len(e.refs) = N /\ \A i \in 1 .. N : Chain(i)))
             \cup Clause("Label", e.label = to)
             \cup Clause("LocationShape", e.shape = (IF m = 0 THEN << >> ELSE << m >>)
                                          /\ e.shape2 = e.shape)
             \cup Clause("Location", Len(e.alat) = N /\ Len(e.alt) = N /\
                    \A i \in 1 .. N :
                        /\ RClose(e.alat[i], Reached(i)[1], LT)
                        /\ NearLt(e.alt[i], Reached(i)[2], e.alat[i]))
             \cup Clause("Untouched", same => e.alat = e.lat /\ e.alt = e.lt)
             \cup Clause("OthersKept", e.others)

(* set_ocb after conversions, next to that of a new object.  A mixture of  *)
(* geographic systems is only refused when making an object.               *)
JudgeSet(e) ==
    IF ~Compatible(e.loc, e.vect) THEN Clause("Incompatible", e.making => e.exc = "ValueError")
    ELSE IF e.exc # "" THEN { "SetRaises" }
    ELSE Clause("Systems", e.aloc = "magnetic" /\ e.avect = "magnetic")
         \cup Clause("AsNew", /\ Len(e.out) = Len(e.new)
                              /\ \A k \in 1 .. Len(e.out) :
                                   \/ RCloseRel(e.out[k], e.new[k], RFrac(2, 1000))
                                   \/ RLt(88, RAbs(e.lat)))

JudgeLocation(s, e) ==
    [st |-> s, bad |-> IF e.k = "convert" THEN JudgeConvert(e) ELSE JudgeSet(e)]
=============================================================================
