------------------------------ MODULE Records ------------------------------
(***************************************************************************)
(* Boundary records: how a boundary file becomes a sequence of records,    *)
(* which records have sufficient quality, and the record cursor.           *)
(***************************************************************************)
EXTENDS Calendar, Reals, FiniteSets

-----------------------------------------------------------------------------
(* Loading.  A row of a file carries its time, either as a year and second *)
(* of year or as a calendar date and time, and named real values.          *)

RowTime(row) ==
    IF row.isSoy
    THEN YearStart(row.y) * 86400 + RToInt(row.soy)
    ELSE SecOf(row.y, row.m, row.d, row.h, row.mi, row.s)

InWindow(t, w) == /\ w.hasS => w.s <= t
                  /\ w.hasE => t <= w.e

(* Indices of the rows that become records, in file order                  *)
Selected(rows, w) == SelectSeq([i \in 1 .. Len(rows) |-> i],
                               LAMBDA i : InWindow(RowTime(rows[i]), w))

(* Polar location of a centre given by x (dawn) and y (noon)               *)
CentreR(x, y) == RSqrt(RAdd(RSq(x), RSq(y)))
CentrePhi(x, y) == LET p == RAdd(Rad2Deg(RAtan2(y, x)), 90)
                   IN  IF RLt(p, 0) THEN RAdd(p, 360) ELSE p

(* Quality limits of each instrument                                       *)
Inf == RDiv(RInt(1), RInt(0))
MinFom(inst) == CASE inst = "ampere" -> RFrac(15, 100)
                  [] inst = "dmsp-ssj" -> RInt(3)
                  [] OTHER -> RNeg(Inf)
MaxFom(inst) == IF inst = "image" THEN RInt(5) ELSE Inf

(* The reference latitude always lies in the boundary's hemisphere         *)
RefLat(blat, hemi) == IF RSign(blat) = hemi THEN blat ELSE RNeg(blat)

DefaultCorrection(cls, inst) ==
    IF cls = "ocb" /\ inst = "ampere" THEN "elliptical" ELSE "circular"

-----------------------------------------------------------------------------
(* Selection.  q holds the optional quality limits (has/value) and further *)
(* criteria << attribute, relation, value >> on the named record values.   *)

Passes(rel, x, v) ==
    CASE rel = "min" -> RLt(v, x)
      [] rel = "mineq" -> RLe(v, x)
      [] rel = "equal" -> REq(v, x)
      [] rel = "maxeq" -> RLe(x, v)
      [] rel = "max" -> RLt(x, v)
      [] OTHER -> TRUE

Good(rec, lim, q) ==
    /\ RLe(IF q.hasMin THEN q.min ELSE lim.min, rec.fom)
    /\ RLe(rec.fom, IF q.hasMax THEN q.max ELSE lim.max)
    /\ \A k \in 1 .. Len(q.crit) :
           q.crit[k].attr \in DOMAIN rec =>
               Passes(q.crit[k].rel, rec[q.crit[k].attr], q.crit[k].v)

GoodAfter(recs, lim, q, i) ==
    { j \in 0 .. Len(recs) - 1 : j > i /\ Good(recs[j + 1], lim, q) }

SetMin(s) == CHOOSE x \in s : \A y \in s : x <= y

(* The good records, in order                                              *)
AllGood(recs, lim, q) == SelectSeq([j \in 1 .. Len(recs) |-> j - 1],
                                   LAMBDA j : Good(recs[j + 1], lim, q))

(* Does the cursor move allowed by "next good record" from i reach i2?     *)
NextOk(recs, lim, q, i, i2) ==
    LET g == GoodAfter(recs, lim, q, i)
    IN  IF g = {} THEN i2 >= Len(recs) ELSE i2 = SetMin(g)
=============================================================================
