---------------------------- MODULE TraceRecords ----------------------------
(***************************************************************************)
(* Judges of recorded loads and cursor histories.                          *)
(***************************************************************************)
EXTENDS Records, TraceBase

NoState == 0

Seq1(n) == [i \in 1 .. n |-> i]
Clause(name, ok) == IF ok THEN {} ELSE { name }
SameReals(xs, ys) == /\ Len(xs) = Len(ys)
                     /\ \A i \in 1 .. Len(xs) : RCloseRel(xs[i], ys[i], Eps(12))

-----------------------------------------------------------------------------
(* e.k = "load"                                                            *)
LoadClauses(e) ==
    LET sel == Selected(e.rows, e.w)
        o == e.out
        Col(name) == [i \in 1 .. Len(sel) |-> e.rows[sel[i]].v[name]]
        names == DOMAIN e.cols
    IN  Clause("LoadRaises", e.exc = "")
        \cup (IF e.exc # "" THEN {}
              ELSE Clause("RecordsInWindow", o.records = Len(sel))
              \cup Clause("RecordTimes",
                          o.t = [i \in 1 .. Len(sel) |-> << RowTime(e.rows[sel[i]]), 0 >>])
              \cup Clause("ColumnsAligned",
                          \A n \in names : e.cols[n] \in DOMAIN o.v
                              /\ SameReals(o.v[e.cols[n]], Col(n)))
              \cup Clause("CentreIsPolar",
                          e.isXY =>
                              /\ SameReals(o.v.r_cent, [i \in 1 .. Len(sel) |->
                                     CentreR(e.rows[sel[i]].v.x, e.rows[sel[i]].v.y)])
                              /\ Len(o.v.phi_cent) = Len(sel)
                              /\ \A i \in 1 .. Len(sel) :
                                    /\ RLe(0, o.v.phi_cent[i]) /\ RLt(o.v.phi_cent[i], 360)
                                    /\ RCycClose(o.v.phi_cent[i],
                                         CentrePhi(e.rows[sel[i]].v.x, e.rows[sel[i]].v.y),
                                         360, Eps(9)))
              \cup Clause("CursorStartsUnset", o.rec_ind = -1)
              \cup Clause("ReferenceLatitude", REq(o.blat, RefLat(e.blat, e.hemi)))
              \cup Clause("QualityLimits", REq(o.minFom, MinFom(e.inst))
                                           /\ REq(o.maxFom, MaxFom(e.inst)))
              \cup Clause("OneCorrectionPerRecord",
                          /\ o.rfn = [i \in 1 .. Len(sel) |-> e.rf]
                          /\ o.rkw = [i \in 1 .. Len(sel) |-> e.kw]))

JudgeLoad(s, e) == [st |-> 0, bad |-> LoadClauses(e)]

-----------------------------------------------------------------------------
(* A cursor history: the state is the loaded file and the cursor           *)
NoFile == [recs |-> << >>, lim |-> [min |-> 0, max |-> 0], cur |-> -1]

CycleStep(s, e) ==
    CASE e.k = "start" -> [st |-> NoFile, bad |-> {}]
      [] e.k = "file" ->
             [st |-> [recs |-> e.recs, lim |-> [min |-> MinFom(e.inst), max |-> MaxFom(e.inst)],
                      cur |-> e.cur],
              bad |-> Clause("CursorStartsUnset", e.cur = -1)]
      [] e.k = "set" ->
             [st |-> [s EXCEPT !.cur = e.i],
              bad |-> Clause("CursorAssigned", e.cur = e.i)]
      [] e.k = "next" ->
             [st |-> [s EXCEPT !.cur = e.cur],
              bad |-> Clause("NextGoodRecord",
                             e.exc = "" /\ NextOk(s.recs, s.lim, e.q, s.cur, e.cur))]
      [] e.k = "all" ->
             [st |-> [s EXCEPT !.cur = e.cur],
              bad |-> Clause("ListsAllGood",
                             e.exc = "" /\ e.list = AllGood(s.recs, s.lim, e.q))
                      \cup Clause("ListKeepsCursor", e.cur = s.cur)
                      \cup Clause("RecordsUntouched", e.fom = [i \in 1 .. Len(s.recs) |-> s.recs[i].fom])]

JudgeCycle(s, e) == CycleStep(s, e)
=============================================================================
