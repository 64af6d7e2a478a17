------------------------------ MODULE Matching ------------------------------
(***************************************************************************)
(* Matching data to boundary records in time, and pairing the records of   *)
(* two boundaries.  Times are integers in one unit.  Indices count from    *)
(* zero; a cursor of -1 is unset, and one past the last record is          *)
(* exhausted.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Least(s) == CHOOSE x \in s : \A y \in s : x <= y

(* Records that may be matched: the one at the cursor and the good ones    *)
(* after it, or any good one while the cursor is unset                     *)
Candidates(good, cur) == IF cur < 0 THEN good ELSE { cur } \cup { j \in good : j > cur }

(* The candidate that is closest in time to t, the earlier one of two      *)
Closest(times, cands, t) ==
    CHOOSE j \in cands : \A k \in cands :
        \/ Abs(times[j + 1] - t) < Abs(times[k + 1] - t)
        \/ Abs(times[j + 1] - t) = Abs(times[k + 1] - t) /\ j <= k

(* The outcome of matching the data from index idat on                     *)
Outcome(times, good, cur, data, idat, tol) ==
    LET c == { j \in Candidates(good, cur) : j < Len(times) }
        near == { i \in idat .. Len(data) - 1 :
                      \E j \in c : Abs(times[j + 1] - data[i + 1]) <= tol }
    IN  IF near = {} THEN [found |-> FALSE, idat |-> -1, rec |-> -1]
        ELSE LET i == Least(near)
             IN  [found |-> TRUE, idat |-> i, rec |-> Closest(times, c, data[i + 1])]

(* A reported match is one with a datum and a record                       *)
MatchOk(times, good, cur, data, idat, tol, idat2, cur2) ==
    LET o == Outcome(times, good, cur, data, idat, tol)
        reported == idat2 >= 0 /\ idat2 < Len(data) /\ cur2 >= 0 /\ cur2 < Len(times)
    IN  IF o.found THEN idat2 = o.idat /\ cur2 = o.rec
        ELSE ~reported

-----------------------------------------------------------------------------
(* Pairing: the good records of the first boundary (indices og into ot)    *)
(* are the data; each record of the second is used once, in order          *)
RECURSIVE PairFrom(_, _, _, _, _, _)
PairFrom(ot, og, et, eg, delta, at) ==
    \* at.i : index into og, at.e : cursor of the second boundary (last used)
    LET data == [k \in 1 .. Len(og) |-> ot[og[k] + 1]]
        left == { j \in eg : j > at.e }
        o == Outcome(et, left, -1, data, at.i, delta)
    IN  IF ~o.found THEN at.pairs
        ELSE PairFrom(ot, og, et, eg, delta,
                      [i |-> o.idat, e |-> o.rec,
                       pairs |-> Append(at.pairs, << og[o.idat + 1], o.rec >>)])
Pairs(ot, og, et, eg, delta) == PairFrom(ot, og, et, eg, delta,
                                         [i |-> 0, e |-> -1, pairs |-> << >>])
=============================================================================
