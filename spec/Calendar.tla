------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar in integers.  Day 0 is 2000-01-01 and  *)
(* instants are whole seconds from its start.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0) /\ (y % 100 # 0 \/ y % 400 = 0)
YearDays(y) == IF IsLeap(y) THEN 366 ELSE 365
MonthDays(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                   ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

(* Days from 0001-01-01 to the first of January of year y                  *)
YearStartAbs(y) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400
YearStart(y) == YearStartAbs(y) - YearStartAbs(2000)

(* Days in year y before the first of month m                              *)
BeforeMonth(y, m) ==
    LET c == << 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 >>
    IN  c[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)

DayOf(y, m, d) == YearStart(y) + BeforeMonth(y, m) + d - 1
DayOfYear(y, m, d) == BeforeMonth(y, m) + d
SecOf(y, m, d, h, mi, s) == DayOf(y, m, d) * 86400 + h * 3600 + mi * 60 + s

(* The same, found by counting: used to check the closed forms             *)
RECURSIVE CountYears(_, _)
CountYears(y, acc) == IF y = 2000 THEN acc
                      ELSE IF y > 2000 THEN CountYears(y - 1, acc + YearDays(y - 1))
                      ELSE CountYears(y + 1, acc - YearDays(y))
RECURSIVE CountMonths(_, _, _)
CountMonths(y, m, acc) == IF m = 1 THEN acc
                          ELSE CountMonths(y, m - 1, acc + MonthDays(y, m - 1))

DateOfDay(n) ==
    LET g == 2000 + ((n * 400) \div 146097)
        y == CHOOSE yy \in g - 1 .. g + 1 : YearStart(yy) <= n /\ n < YearStart(yy + 1)
        k == n - YearStart(y)
        m == CHOOSE mm \in 1 .. 12 :
                 BeforeMonth(y, mm) <= k /\ k < BeforeMonth(y, mm) + MonthDays(y, mm)
    IN  << y, m, k - BeforeMonth(y, m) + 1 >>
=============================================================================
