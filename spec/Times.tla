------------------------------- MODULE Times -------------------------------
(***************************************************************************)
(* Instants and how files write them.  An instant is << day, second of     *)
(* day, microsecond >>, day 0 being 2000-01-01.  A text is a sequence of   *)
(* fields, each a directive of strptime and the number written for it.     *)
(***************************************************************************)
EXTENDS Calendar, Reals

(* The number written for a directive is n                                 *)
Has(dirs, d) == \E i \in 1 .. Len(dirs) : dirs[i] = d
Num(dirs, nums, d, default) ==
    IF Has(dirs, d) THEN nums[CHOOSE i \in 1 .. Len(dirs) : dirs[i] = d] ELSE default

Century(y) == IF y >= 69 THEN 1900 + y ELSE 2000 + y

(* What a text means: absent fields are the first ones of their kind       *)
ReadDay(dirs, nums) ==
    LET y == IF Has(dirs, "y") THEN Century(Num(dirs, nums, "y", 0))
             ELSE Num(dirs, nums, "Y", 1900)
        m == IF Has(dirs, "b") THEN Num(dirs, nums, "b", 1)
             ELSE IF Has(dirs, "B") THEN Num(dirs, nums, "B", 1)
             ELSE Num(dirs, nums, "m", 1)
    IN  IF Has(dirs, "j") THEN YearStart(y) + Num(dirs, nums, "j", 1) - 1
        ELSE DayOf(y, m, Num(dirs, nums, "d", 1))
ReadSec(dirs, nums) ==
    LET h == IF Has(dirs, "I")
             THEN (Num(dirs, nums, "I", 12) % 12) + 12 * Num(dirs, nums, "p", 0)
             ELSE Num(dirs, nums, "H", 0)
    IN  h * 3600 + Num(dirs, nums, "M", 0) * 60 + Num(dirs, nums, "S", 0)
Read(dirs, nums) ==
    << ReadDay(dirs, nums), ReadSec(dirs, nums), Num(dirs, nums, "f", 0) >>

(* What is written for an instant of a date                                *)
Write(d, t, date) ==
    LET h == t[2] \div 3600
    IN  CASE d = "Y" -> date[1]
          [] d = "y" -> date[1] % 100
          [] d \in { "m", "b", "B" } -> date[2]
          [] d = "d" -> date[3]
          [] d = "j" -> DayOfYear(date[1], date[2], date[3])
          [] d = "H" -> h
          [] d = "I" -> IF h % 12 = 0 THEN 12 ELSE h % 12
          [] d = "p" -> h \div 12
          [] d = "M" -> (t[2] \div 60) % 60
          [] d = "S" -> t[2] % 60
          [] d = "f" -> t[3]

(* A year and the second of the year, rounded to the nearest second        *)
FromSoy(y, soy) ==
    LET sec == RFloor(RAdd(soy, RFrac(1, 2)))
        day == RFloor(RDiv(sec, 86400))
    IN  << YearStart(y) + RToInt(day), RToInt(RSub(sec, RMul(day, 86400))), 0 >>

(* Seconds of the day after the start of a day, to microseconds            *)
PlusSod(day, sod, t) ==
    LET got == RAdd(RAdd(RMul(t[1] - day, 86400), RInt(t[2])), RDiv(RInt(t[3]), 1000000))
    IN  RClose(got, sod, RFrac(11, 10000000))

HourOf(t) == RAdd(RDiv(RInt(t[2]), 3600), RDiv(RDiv(RInt(t[3]), 1000000), 3600))

-----------------------------------------------------------------------------
(* Cyclic values.  v is brought to min <= v < max by multiples of the      *)
(* period p <= max - min, and is left alone when it is there.              *)
FixInt(v, mn, mx, p) ==
    IF v >= mx THEN ((v - mx) % p) + mx - p
    ELSE IF v < mn THEN ((v - mn) % p) + mn
    ELSE v

(* out is a correct result for v, up to tol                                *)
Fixed(out, v, p, tol) == RCycClose(out, v, p, tol)
InRange(out, mn, mx) == RLe(mn, out) /\ RLt(out, mx)
(* Values beyond an end come to lie within one period of that end          *)
NearEnd(out, v, mn, mx, p, tol) ==
    /\ RLe(mx, v) => RLe(RSub(mx, p), RAdd(out, tol))
    /\ RLt(v, mn) => RLe(out, RAdd(RAdd(mn, p), tol))
=============================================================================
