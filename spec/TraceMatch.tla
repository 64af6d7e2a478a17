----------------------------- MODULE TraceMatch -----------------------------
(***************************************************************************)
(* Judges of recorded matching and pairing histories.                      *)
(***************************************************************************)
EXTENDS Records, Matching, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }

GoodSet(recs, lim, q) == { j \in 0 .. Len(recs) - 1 : Good(recs[j + 1], lim, q) }
TimesOf(recs) == [k \in 1 .. Len(recs) |-> recs[k].t]
Lims(inst) == [min |-> MinFom(inst), max |-> MaxFom(inst)]
NoQ == [hasMin |-> FALSE, min |-> 0, hasMax |-> FALSE, max |-> 0, crit |-> << >>]

-----------------------------------------------------------------------------
(* One boundary                                                            *)
NoFile == [recs |-> << >>, lim |-> Lims("none"), data |-> << >>, cur |-> -1]

JudgeMatch(s, e) ==
    CASE e.k = "start" -> [st |-> NoFile, bad |-> {}]
      [] e.k = "file" -> [st |-> [recs |-> e.recs, lim |-> Lims(e.inst), data |-> e.data,
                                  cur |-> e.cur],
                          bad |-> Clause("CursorStartsUnset", e.cur = -1)]
      [] e.k = "set" -> [st |-> [s EXCEPT !.cur = e.i], bad |-> {}]
      [] e.k = "match" ->
             [st |-> [s EXCEPT !.cur = e.cur],
              bad |-> Clause("MatchRaises", e.exc = "")
                 \cup Clause("ClosestRecordInTolerance",
                         e.exc = "" => MatchOk(TimesOf(s.recs), GoodSet(s.recs, s.lim, e.q), s.cur,
                                               s.data, e.idat, e.tol, e.out, e.cur))
                 \cup Clause("MovesForward",
                         e.exc = "" => e.cur >= s.cur /\ (e.out >= 0 => e.out >= e.idat))]

-----------------------------------------------------------------------------
(* Two boundaries                                                          *)
NoDual == [o |-> << >>, e |-> << >>, ol |-> Lims("none"), el |-> Lims("none"), delta |-> 0,
           pairs |-> << >>, cur |-> 0, data |-> << >>]

SetToSeqUp(s, n) == SelectSeq([k \in 1 .. n |-> k - 1], LAMBDA x : x \in s)
PairsOf(s, qo, qe) ==
    Pairs(TimesOf(s.o), AllGood(s.o, s.ol, qo), TimesOf(s.e), GoodSet(s.e, s.el, qe), s.delta)

(* The two cursors point to the paired records, or are both unset or       *)
(* both exhausted                                                          *)
CursorsAgree(s, pairs, ev) ==
    IF ev.cur < 0 THEN ev.ocur < 0 /\ ev.ecur < 0
    ELSE IF ev.cur >= Len(pairs) THEN ev.ocur >= Len(s.o) /\ ev.ecur >= Len(s.e)
    ELSE ev.ocur = pairs[ev.cur + 1][1] /\ ev.ecur = pairs[ev.cur + 1][2]

PairClauses(s, pairs, ev) ==
    Clause("DualRaises", ev.exc = "")
    \cup (IF ev.exc # "" THEN {}
          ELSE Clause("PairsAreClosestInTime", ev.pairs = pairs)
          \cup Clause("PairCount", ev.records = Len(pairs))
          \cup Clause("PairTimes", ev.t = [k \in 1 .. Len(pairs) |-> s.o[pairs[k][1] + 1].t])
          \cup Clause("CursorsAgree", CursorsAgree(s, pairs, ev)))

(* Boundaries of different hemispheres, reference latitudes that do not    *)
(* increase towards the pole, and negative time differences are refused    *)
Refused(e) == e.ohemi # e.ehemi \/ e.delta < 0 \/ RLe(RAbs(e.olat), RAbs(e.elat))

JudgeDual(s, e) ==
    CASE e.k = "start" -> [st |-> NoDual, bad |-> {}]
      [] e.k = "dual" /\ Refused(e) ->
             [st |-> s, bad |-> Clause("MismatchRefused", e.exc = "ValueError")]
      [] e.k = "dual" ->
             LET s1 == [NoDual EXCEPT !.o = e.o, !.e = e.e, !.ol = Lims(e.oinst),
                                      !.el = Lims(e.einst), !.delta = e.delta, !.data = e.data]
                 p == PairsOf(s1, NoQ, NoQ)
             IN  [st |-> [s1 EXCEPT !.pairs = p, !.cur = 0],
                  bad |-> PairClauses(s1, p, e) \cup Clause("DualCursorStart", e.exc = "" => e.cur = 0)
                          \cup Clause("DualHemisphere", e.exc = "" => e.hemi = e.ohemi)]
      [] e.k = "select" ->
             LET p == PairsOf(s, e.qo, e.qe)
             IN  [st |-> [s EXCEPT !.pairs = p, !.cur = 0],
                  bad |-> PairClauses(s, p, e) \cup Clause("DualCursorStart", e.exc = "" => e.cur = 0)
                          \cup Clause("CriteriaUntouched", e.same)]
      [] e.k = "set" -> [st |-> [s EXCEPT !.cur = e.i],
                         bad |-> PairClauses(s, s.pairs, e)
                                 \cup Clause("DualCursorAssigned", e.cur = e.i)]
      [] e.k = "next" -> [st |-> [s EXCEPT !.cur = e.cur],
                          bad |-> PairClauses(s, s.pairs, e)
                                  \cup Clause("DualCursorNext",
                                          e.cur = IF s.cur < Len(s.pairs) THEN s.cur + 1 ELSE s.cur)]
      [] e.k = "match" ->
             LET reselect == e.q.hasMin \/ e.q.hasMax \/ e.q.crit # << >>
                 gone == s.cur >= Len(s.pairs)
                 p == IF reselect /\ ~gone /\ e.idat < Len(s.data) THEN PairsOf(s, e.q, e.q) ELSE s.pairs
                 c == IF reselect /\ ~gone /\ e.idat < Len(s.data) THEN 0 ELSE s.cur
                 pt == [k \in 1 .. Len(p) |-> s.o[p[k][1] + 1].t]
             IN  [st |-> [s EXCEPT !.pairs = p, !.cur = e.cur],
                  bad |-> PairClauses(s, p, e)
                     \cup Clause("ClosestPairInTolerance",
                             e.exc = "" => MatchOk(pt, 0 .. Len(p) - 1, c, s.data, e.idat, e.tol,
                                                   e.out, e.cur))]
=============================================================================
