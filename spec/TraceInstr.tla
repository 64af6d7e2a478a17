----------------------------- MODULE TraceInstr -----------------------------
(***************************************************************************)
(* Judge of reading vorticity and SuperMAG files and of converting them.   *)
(* Times are in seconds from e.t0, a multiple of a day.                    *)
(***************************************************************************)
EXTENDS DataFiles, Records, Geometry, Vectors, Conversion, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }
SameReal(x, y) == (RIsNaN(x) /\ RIsNaN(y)) \/ REq(x, y)
SetOf(s) == { s[k] : k \in 1 .. Len(s) }
Instant(sec) == << sec \div 86400, sec % 86400, 0 >>

-----------------------------------------------------------------------------
(* Reading                                                                 *)
Columns(e, names, rows, Value(_, _)) ==
    IF SetOf(e.keys) # SetOf(names) \/ Len(e.keys) # Len(names) THEN { "WrongColumns" }
    ELSE IF \E j \in 1 .. Len(e.keys) : Len(e.cols[j]) # Len(rows) THEN { "ColumnLength" }
    ELSE Clause("WrongValue", \A j \in 1 .. Len(e.keys) : \A k \in 1 .. Len(rows) :
                                  SameReal(e.cols[j][k], Value(rows[k], e.keys[j])))

VLoad(e) ==
    LET s == VortRead(VortStart, e.lines, 1)
    IN  IF e.exc # "" THEN Clause("GoodFileRejected", VortMayFail(s) /\ e.exc = "OSError")
        ELSE IF ~VortMayEnd(s) THEN { "BadFileAccepted" }
        ELSE IF s.rows = << >> THEN Clause("EmptyIsNone", e.none)
        ELSE IF e.none THEN { "DataLost" }
        ELSE Columns(e, IF e.all THEN VortAll ELSE VortNeeded, s.rows, VortValue)
             \cup Clause("WrongInstant", e.dt = [k \in 1 .. Len(s.rows) |-> Instant(VortTime(s.rows[k]))])

SLoad(e) ==
    LET s == SmagRead(SmagStart, e.lines, 1)
    IN  IF e.exc # "" THEN { "GoodFileRejected" }
        ELSE Clause("WrongHeader", e.header = s.header /\ e.hsame)
             \cup (IF s.pc = "head" THEN Clause("EmptyIsNone", e.none)
                   ELSE IF e.none THEN { "DataLost" }
                   ELSE Columns(e, SmagAll, s.rows, SmagValue)
                        \cup Clause("WrongInstant",
                               e.dt = [k \in 1 .. Len(s.rows) |-> Instant(SmagTime(s.rows[k]))])
                        \cup Clause("WrongStation",
                               e.stid = [k \in 1 .. Len(s.rows) |-> s.rows[k].line.id]))

-----------------------------------------------------------------------------
(* Converting.  e.own: the caller gives the boundary object; e.dual: it is *)
(* a pair of boundaries; e.harg: the hemisphere the caller chose, or 0.    *)
(* e.recs are the records of the (poleward) boundary, b their geometry,    *)
(* e.erecs those of the equatorward one, e.pairs the pairs.                *)

Sign(x) == RSign(x)
Greatest(s) == LET k == CHOOSE k \in 1 .. Len(s) : \A j \in 1 .. Len(s) : RLe(s[j], s[k]) IN s[k]
LeastOf(s) == LET k == CHOOSE k \in 1 .. Len(s) : \A j \in 1 .. Len(s) : RLe(s[k], s[j]) IN s[k]

HemiOf(e, lats) ==
    IF e.harg # 0 THEN e.harg
    ELSE IF e.own THEN e.hemi
    ELSE Hemisphere(Sign(Greatest(lats)), Sign(LeastOf(lats)))

(* Times of the records or pairs that there are to match with              *)
RecTimes(e) == IF e.dual THEN [k \in 1 .. Len(e.pairs) |-> e.recs[e.pairs[k][1] + 1].t]
               ELSE [k \in 1 .. Len(e.recs) |-> e.recs[k].t]
GoodOnes(e) == IF e.dual THEN 0 .. Len(e.pairs) - 1
               ELSE { j \in 0 .. Len(e.recs) - 1 :
                          Good(e.recs[j + 1], [min |-> MinFom("image"), max |-> MaxFom("image")], e.q) }
(* Records of a file are loaded for the times of the data                  *)
Loaded(e, first, last) ==
    IF e.own THEN Len(RecTimes(e))
    ELSE Cardinality({ k \in 1 .. Len(e.recs) : /\ first - e.tol - 1 <= e.recs[k].t
                                                 /\ e.recs[k].t <= last + e.tol + 1 })

ORec(e, rec) == IF e.dual THEN e.recs[e.pairs[rec + 1][1] + 1] ELSE e.recs[rec + 1]
ERec(e, rec) == e.erecs[e.pairs[rec + 1][2] + 1]
Blat(e, h) == IF e.own THEN e.blat ELSE RInt(74 * h)

(* Is x the number v, written with n decimals?                             *)
Written(x, v, n) == RClose(x, v, RAdd(RDiv(RPow10(-n), 2), RMul(Eps(6), RMax(1, RAbs(v)))))

(* The normalised location, written with nl and nm decimals                *)
LocationOk(e, h, rec, lat, mlt, olat, omlt, nl, nm) ==
    LET b == ORec(e, rec).b
        p == NormalPoint(b, Blat(e, h), h, lat, mlt)
        far == RLt(RFrac(1, 10), RHypot(p[1], p[2]))
        mok == far => RCycClose(omlt, MltOf(p), 24, RAdd(RDiv(RPow10(-nm), 2), Eps(6)))
    IN  IF e.dual
        THEN LET v == DualLat(b, ERec(e, rec).b, e.blat, e.elat, h, lat, mlt)
             IN  \/ Crossing(b, ERec(e, rec).b, h, mlt)
                 \/ OnLoneEdge(b, ERec(e, rec).b, h, lat, mlt)
                 \/ /\ IF RIsNaN(v) THEN RIsNaN(olat) ELSE Written(olat, v, nl)
                    /\ mok
        ELSE Written(olat, LatOf(p, h), nl) /\ mok
OldRadius(e, h, rec, mlt) == Radius(ORec(e, rec).b, mlt)

-----------------------------------------------------------------------------
VConv(e) ==
    LET s == VortRead(VortStart, e.lines, 1)
        N == Len(s.rows)
        lats == [k \in 1 .. N |-> VortValue(s.rows[k], "CENTRE_MLAT")]
        h == HemiOf(e, lats)
        sel == SelectSeq(s.rows, LAMBDA r : Sign(VortValue(r, "CENTRE_MLAT")) = h)
        data == [k \in 1 .. Len(sel) |-> VortTime(sel[k]) - e.t0]
        none == \/ Loaded(e, VortTime(s.rows[1]) - e.t0, VortTime(s.rows[N]) - e.t0) = 0
                \/ sel = << >>
        m == Matches(RecTimes(e), GoodOnes(e), e.cur, data, 0, e.tol)
        w == Len(e.head)
        Row(k) == sel[m[k][1] + 1]
        Out(k, j) == e.out[k].v[j - 2]
        V(k) == VortValue(Row(k), "VORTICITY")
        Mlt(k) == VortValue(Row(k), "MLT")
        Vort(k, r) == Scale(e.fun, V(k),
                            RAdd(r, Correction(ORec(e, m[k][2]).b.f, Mlt(k))), RefRadius(Blat(e, h)))
        Right(k) == Written(Out(k, w), Vort(k, ORec(e, m[k][2]).b.r), 6)
        AsIs(k) == e.dual /\ Written(Out(k, w), Vort(k, e.recs[m[k][2] + 1].b.r), 6)
    IN  IF N = 0 THEN Clause("NoData", e.exc = "ValueError" /\ ~e.wrote)
        ELSE IF h = 2 THEN Clause("BothHemispheres", e.exc = "ValueError" /\ ~e.wrote)
        ELSE IF e.exc # "" THEN { "ConversionRaises" }
        ELSE IF none THEN Clause("NothingToWrite", ~e.wrote)
        ELSE IF ~e.wrote THEN { "NothingWritten" }
        ELSE IF /\ w >= 5
                /\ SubSeq(e.head, 1, 2) = << "#DATE", "TIME" >>
                /\ SubSeq(e.head, w - 2, w) = << "OCB_LAT", "OCB_MLT", "NORM_VORT" >>
                /\ SetOf(SubSeq(e.head, 3, w - 3)) = (IF e.all THEN SetOf(VortAll) ELSE {})
                /\ w = 5 + (IF e.all THEN Len(VortAll) ELSE 0)
             THEN IF Len(e.out) # Len(m) \/ \E k \in 1 .. Len(m) : Len(e.out[k].v) # w - 2
                  THEN { "LinesWritten" }
                  ELSE Clause("LineTimes", \A k \in 1 .. Len(m) : e.out[k].t = Instant(VortTime(Row(k))))
                  \cup Clause("DataKept",
                         \A k \in 1 .. Len(m) : \A j \in 3 .. w - 3 : REq(Out(k, j), VortValue(Row(k), e.head[j])))
                  \cup Clause("WrittenLocation",
                         \A k \in 1 .. Len(m) :
                             LocationOk(e, h, m[k][2], VortValue(Row(k), "CENTRE_MLAT"), Mlt(k),
                                        Out(k, w - 2), Out(k, w - 1), 2, 6))
                  \cup Clause("DualPairRadius", \A k \in 1 .. Len(m) : Right(k) \/ ~AsIs(k))
                  \cup Clause("WrittenVorticity", \A k \in 1 .. Len(m) : Right(k) \/ AsIs(k))
             ELSE { "WrittenHeader" }

-----------------------------------------------------------------------------
SmagHead == << "#DATE", "TIME", "NST", "STID", "SML", "SMU", "SZA", "MLAT", "MLT", "BMAG", "BN", "BE",
               "BZ", "OCB_MLAT", "OCB_MLT", "OCB_BMAG", "OCB_BN", "OCB_BE", "OCB_BZ" >>
SMeasured == { "MLT", "MLAT", "BE", "BN", "BZ" }

RECURSIVE Distinct(_)
Distinct(s) == IF Len(s) <= 1 THEN s
               ELSE LET r == Distinct(Tail(s)) IN IF Head(r) = s[1] THEN r ELSE << s[1] >> \o r

(* The lines to write: << row, record, number of stations of that time >>  *)
RECURSIVE SLines(_, _, _, _)
SLines(sel, data, m, k) ==
    IF k > Len(m) THEN << >>
    ELSE LET rows == SelectSeq(sel, LAMBDA r : SmagTime(r) = data[m[k][1] + 1])
         IN  [j \in 1 .. Len(rows) |-> << rows[j], m[k][2], Len(rows) >>] \o SLines(sel, data, m, k + 1)

SConv(e) ==
    LET s == SmagRead(SmagStart, e.lines, 1)
        N == Len(s.rows)
        lats == [k \in 1 .. N |-> SmagValue(s.rows[k], "MLAT")]
        h == HemiOf(e, lats)
        sel == SelectSeq(s.rows, LAMBDA r : /\ Sign(SmagValue(r, "MLAT")) = h
                                            /\ \A x \in SMeasured : ~RIsNaN(SmagValue(r, x)))
        times == Distinct([k \in 1 .. Len(sel) |-> SmagTime(sel[k])])
        data == [k \in 1 .. Len(times) |-> times[k] - e.t0]
        m == Matches(RecTimes(e), GoodOnes(e), e.cur, data, 0, e.tol)
        ls == SLines(sel, times, m, 1)
        Val(k, name) == SmagValue(ls[k][1], name)
        Out(k, name) == e.out[k].v[IndexIn(SmagHead, name) - 4]
        B(k) == ORec(e, ls[k][2]).b
        PLat(k) == RSub(90, B(k).r_cent)
        PLt(k) == RDiv(B(k).phi_cent, 15)
        Lat(k) == Val(k, "MLAT")
        Mlt(k) == Val(k, "MLT")
        NoLat(k) == e.dual /\ (\/ Crossing(B(k), ERec(e, ls[k][2]).b, h, Mlt(k))
                               \/ OnLoneEdge(B(k), ERec(e, ls[k][2]).b, h, Lat(k), Mlt(k))
                               \/ RIsNaN(DualLat(B(k), ERec(e, ls[k][2]).b, e.blat, e.elat, h, Lat(k), Mlt(k))))
        (* Where the direction to the pole makes sense                     *)
        Away(k) == /\ AwayFromPoles(Lat(k), Mlt(k), RMul(h, PLat(k)), PLt(k))
                   /\ ~SameMeridian(Mlt(k), PLt(k))
                   /\ ~NoLat(k)
        U(k) == Radius(B(k), Mlt(k))
        Sc(k, x) == Scale(e.fun, x, U(k), RefRadius(Blat(e, h)))
        Vec(k, plat) == Adapted(Val(k, "BN"), Val(k, "BE"), Lat(k), Mlt(k), plat, PLt(k))
        Is(k, v) == Written(Out(k, "OCB_BN"), Sc(k, v[1]), 2) /\ Written(Out(k, "OCB_BE"), Sc(k, v[2]), 2)
        Right(k) == Is(k, Vec(k, RMul(h, PLat(k))))
        AsIs(k) == h < 0 /\ Is(k, Vec(k, PLat(k)))
    IN  IF s.pc = "head" \/ N = 0 THEN {}
        ELSE IF h = 2 THEN Clause("BothHemispheres", e.exc = "ValueError" /\ ~e.wrote)
        ELSE IF e.exc # "" THEN { "ConversionRaises" }
        ELSE IF Loaded(e, SmagTime(s.rows[1]) - e.t0, SmagTime(s.rows[N]) - e.t0) = 0
             THEN Clause("NothingToWrite", ~e.wrote)
        ELSE IF ~e.wrote THEN { "NothingWritten" }
        ELSE IF e.head # SmagHead THEN { "WrittenHeader" }
        ELSE IF Len(e.out) # Len(ls) \/ \E k \in 1 .. Len(ls) : Len(e.out[k].v) # Len(SmagHead) - 4
             THEN { "LinesWritten" }
        ELSE Clause("LineTimes", \A k \in 1 .. Len(ls) : e.out[k].t = Instant(SmagTime(ls[k][1])))
        \cup Clause("Stations", \A k \in 1 .. Len(ls) : /\ e.out[k].nst = ls[k][3]
                                                        /\ e.out[k].id = ls[k][1].line.id)
        \cup Clause("DataKept",
               \A k \in 1 .. Len(ls) :
                   /\ REq(Out(k, "SML"), Val(k, "SML")) /\ REq(Out(k, "SMU"), Val(k, "SMU"))
                   /\ \A x \in { "SZA", "MLAT", "BN", "BE", "BZ" } : Written(Out(k, x), Val(k, x), 2)
                   /\ RCycClose(Out(k, "MLT"), Mlt(k), 24, RFrac(51, 10000))
                   /\ Written(Out(k, "BMAG"), Magnitude(Val(k, "BN"), Val(k, "BE"), Val(k, "BZ")), 2))
        \cup Clause("WrittenLocation",
               \A k \in 1 .. Len(ls) : LocationOk(e, h, ls[k][2], Lat(k), Mlt(k), Out(k, "OCB_MLAT"),
                                                  Out(k, "OCB_MLT"), 2, 2))
        \cup Clause("SouthernPole", \A k \in 1 .. Len(ls) : Away(k) /\ h < 0 => Right(k) \/ ~AsIs(k))
        \cup Clause("WrittenVector",
               \A k \in 1 .. Len(ls) : Away(k) => /\ Right(k) \/ AsIs(k)
                                                  /\ Written(Out(k, "OCB_BZ"), Sc(k, Val(k, "BZ")), 2))
        \cup Clause("WrittenMagnitude",
               \A k \in 1 .. Len(ls) : Away(k) =>
                   Written(Out(k, "OCB_BMAG"),
                           Magnitude(Sc(k, Val(k, "BN")), Sc(k, Val(k, "BE")), Sc(k, Val(k, "BZ"))), 2))

JudgeInstr(s, e) ==
    [st |-> s, bad |->
        Clause("InputsUntouched", e.same) \cup
        CASE e.k = "vload" -> VLoad(e)
          [] e.k = "sload" -> SLoad(e)
          [] e.k = "vconv" -> VConv(e)
          [] e.k = "sconv" -> SConv(e)]
=============================================================================
