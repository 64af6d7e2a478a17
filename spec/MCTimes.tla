------------------------------ MODULE MCTimes ------------------------------
(***************************************************************************)
(* A clock that counts days with carry, checked against the closed forms   *)
(* of the calendar; each instant is written in every style and read back.  *)
(***************************************************************************)
EXTENDS Times, TLC, Json

CONSTANTS FirstYear, LastYear, EmitMod
VARIABLES n, y, m, d, doy

Init == y \in FirstYear .. LastYear /\ n = YearStart(y) /\ m = 1 /\ d = 1 /\ doy = 1
Next == /\ y <= LastYear
        /\ n' = n + 1
        /\ LET lastd == d = MonthDays(y, m)
               lasty == lastd /\ m = 12
           IN  /\ d' = IF lastd THEN 1 ELSE d + 1
               /\ m' = IF lasty THEN 1 ELSE IF lastd THEN m + 1 ELSE m
               /\ y' = IF lasty THEN y + 1 ELSE y
               /\ doy' = IF lasty THEN 1 ELSE doy + 1
Spec == Init /\ [][Next]_<< n, y, m, d, doy >>

ClosedForms == /\ DayOf(y, m, d) = n
               /\ DateOfDay(n) = << y, m, d >>
               /\ DayOfYear(y, m, d) = doy
               /\ d = 1 => BeforeMonth(y, m) = CountMonths(y, m, 0)
               /\ (d = 1 /\ m = 1) => YearStart(y) = CountYears(y, 0)

Dates == << << "Y", "m", "d" >>, << "Y", "j" >>, << "d", "b", "Y" >>,
            << "B", "d", "Y" >>, << "y", "m", "d" >>, << "y", "j" >> >>
Times_ == << << >>, << "H", "M", "S" >>, << "H", "M" >>,
             << "H", "M", "S", "f" >>, << "I", "M", "S", "p" >> >>
(* A second of the day that goes with the day                              *)
Sec == (n * 7919) % 86400
Instant == << n, Sec, ((n % 20011) * 104729) % 1000000 >>
Kept(i, j) == << n, CASE j = 1 -> 0 [] j = 3 -> Sec - (Sec % 60) [] OTHER -> Sec,
                 IF j = 4 THEN Instant[3] ELSE 0 >>
WriteAll(dirs) == [k \in 1 .. Len(dirs) |-> Write(dirs[k], Instant, << y, m, d >>)]
(* Reading is the inverse of writing                                       *)
ReadsBack == \A i \in 1 .. Len(Dates), j \in 1 .. Len(Times_) :
    (i \in { 5, 6 } => y \in 1969 .. 2068) =>
        LET dirs == Dates[i] \o Times_[j]
        IN  Read(dirs, WriteAll(dirs)) = Kept(i, j)
(* Seconds of the year and of the day                                      *)
SoyLaw == FromSoy(y, RAdd(RMul(doy - 1, 86400), RInt(Sec))) = << n, Sec, 0 >>

Edge == d = 1 \/ d = MonthDays(y, m)
Emit == (Edge /\ (n % EmitMod = 0 \/ (m \in { 2, 3 } /\ (y % 4 = 0 \/ n % 5 = 0)) \/ (m \in { 1, 12 } /\ y % 3 = 0))) =>
    PrintT("@@" \o ToJson([t |-> Instant, date |-> << y, m, d, doy >>,
                           dirs |-> LET i == (IF y \in 1969 .. 2068 THEN (n % 6) ELSE (n % 4)) + 1
                                        j == ((n \div 6) % 5) + 1
                                    IN  << Dates[i], Times_[j] >>]))
=============================================================================
