--------------------------- MODULE TraceDescribe ---------------------------
(***************************************************************************)
(* Judge of representations, summaries and what is built from them.        *)
(***************************************************************************)
EXTENDS Describe, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }

SameReals(a, b) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : a[k] = b[k]
SameAttrs(a, b) == DOMAIN a = DOMAIN b /\ \A n \in DOMAIN a : SameReals(a[n], b[n])
SameState(a, b) == a.names = b.names /\ a.t = b.t /\ SameAttrs(a.v, b.v)

(* A number printed with a number of decimals, or significant digits       *)
Fixed(p, x, half) == p = x \/ RLe(RAbs(RSub(p, x)), half)
Half(d) == RAdd(RFrac(5, 10 ^ (d + 1)), RFrac(1, 10000000))
Signif(p, x) == p = x \/ RLe(RAbs(RSub(p, x)), RMul(RFrac(501, 100000), RAbs(x)))

-----------------------------------------------------------------------------
(* A boundary: the file's rows, the period asked for, the object, its      *)
(* representation and what evaluates from it, and its summary.             *)
JudgeBound(s, e) ==
    LET want == Within(e.rows, e.w)
        n == Len(want)
        sh == Shown(n)
        P == Period(want, e.w)
        RowOk(row, i) == /\ row.t = want[i]
                       /\ Fixed(row.phi, e.was.v.phi_cent[i], Half(2))
                       /\ Fixed(row.rc, e.was.v.r_cent[i], Half(2))
                       /\ Fixed(row.r, e.was.v.r[i], Half(2))
    IN  [st |-> s, bad |->
            IF e.exc # "" THEN { "DescribeRaises" }
            ELSE Clause("Records", e.was.t = want)
                 \cup Clause("ReprPeriod", e.period = P)
                 \cup Clause("ReprEval", e.evalExc = "" /\ SameState(e.was, e.now))
                 \cup Clause("ReprStable", e.again)
                 \cup Clause("StrRaises", e.strExc = "")
                 \cup Clause("StrRecords", e.strExc = "" =>
                        /\ e.said.n = n
                        /\ n > 0 => e.said.first = want[1] /\ e.said.last = want[n]
                        /\ Len(e.said.rows) = Len(sh)
                        /\ Len(e.said.rows) = Len(sh) /\ e.was.t = want =>
                              \A k \in 1 .. Len(sh) : RowOk(e.said.rows[k], sh[k]))
                 \cup Clause("StrFunctions", e.strExc = "" /\ n > 0 =>
                        { e.said.funcs[k] : k \in 1 .. Len(e.said.funcs) }
                        = { e.funcs[k] : k \in 1 .. Len(e.funcs) })]

(* A pair of boundaries                                                    *)
JudgeDual(s, e) ==
    [st |-> s, bad |->
        IF e.exc # "" THEN { "DescribeRaises" }
        ELSE Clause("ReprEval", e.evalExc = "" /\ SameState(e.was, e.now))
             \cup Clause("ReprStable", e.again)
             \cup Clause("StrRaises", e.strExc = "")
             \cup Clause("StrPairs", e.strExc = "" =>
                    /\ e.said.n = Len(e.was.t)
                    /\ Len(e.was.t) > 0 =>
                          e.said.first = e.was.t[1]
                          /\ e.said.last = e.was.t[Len(e.was.t)])]

-----------------------------------------------------------------------------
(* Vector data: At(v, i) is element i, of which a scalar has only one      *)
At(v, i) == IF Len(v) = 1 THEN v[1] ELSE v[i]
Summarised(e, b, said) ==
    LET a == b.v
        loc == Lines(e.dnum, e.onum, 1, 1 .. Elements(e.dnum, e.onum))
        val == Lines(e.dnum, e.onum, 1,
                      { i \in 1 .. Elements(e.dnum, e.onum) : ~RIsNaN(At(a.ocb_mag, i)) })
        one == e.dnum = 0 /\ e.onum = 0
        DInd(i) == IF one THEN -1 ELSE RToInt(At(a.dat_ind, i))
        OInd(i) == IF one THEN -1 ELSE RToInt(At(a.ocb_ind, i))
        LocOk(row, w) ==
            LET i == w[2]
            IN  IF w[1] = "dat"
                THEN /\ row.who = b.names[1] /\ row.ind = DInd(i)
                     /\ Len(row.x) = 3
                     /\ Fixed(row.x[1], At(a.lat, i), Half(3))
                     /\ Fixed(row.x[2], At(a.lt, i), Half(3))
                     /\ Fixed(row.x[3], At(a.height, i), Half(1))
                ELSE /\ row.who = "OCB" /\ row.ind = OInd(i)
                     /\ Len(row.x) = 2
                     /\ Fixed(row.x[1], At(a.ocb_lat, i), Half(3))
                     /\ Fixed(row.x[2], At(a.ocb_mlt, i), Half(3))
        Four(x, m, n1, e1, z) == /\ Len(x) = 4
                                 /\ Signif(x[1], m) /\ Signif(x[2], n1)
                                 /\ Signif(x[3], e1) /\ Signif(x[4], z)
        ValOk(row, w) ==
            LET i == w[2]
            IN  IF w[1] = "dat"
                THEN /\ row.who = b.names[2] /\ row.ind = DInd(i)
                     /\ Four(row.x, At(a.vect_mag, i), At(a.vect_n, i),
                             At(a.vect_e, i), At(a.vect_z, i))
                ELSE /\ row.who = "OCB" /\ row.ind = OInd(i)
                     /\ Four(row.x, At(a.ocb_mag, i), At(a.ocb_n, i),
                             At(a.ocb_e, i), At(a.ocb_z, i))
    IN  /\ Len(said.loc) = Len(loc)
        /\ \A k \in 1 .. Len(loc) : k <= Len(said.loc) => LocOk(said.loc[k], loc[k])
        /\ Len(said.val) = Len(val)
        /\ \A k \in 1 .. Len(val) : k <= Len(said.val) => ValOk(said.val[k], val[k])
        /\ said.func = e.func

JudgeVector(s, e) ==
    [st |-> s, bad |->
        IF e.exc # "" THEN { "DescribeRaises" }
        ELSE Clause("ReprEval", e.evalExc = "" /\ SameState(e.named, e.now))
             \cup Clause("ReprStable", e.again)
             \cup Clause("SameResult", e.evalExc = "" => SameState(e.res, e.res2))
             \cup Clause("StrRaises", e.strExc = "")
             \cup Clause("StrVector", e.strExc = "" =>
                    Summarised(e, e.was, e.said) /\ Summarised(e, e.res, e.said2))]

JudgeDescribe(s, e) == CASE e.k = "bound" -> JudgeBound(s, e)
                         [] e.k = "dual" -> JudgeDual(s, e)
                         [] OTHER -> JudgeVector(s, e)
=============================================================================
