----------------------------- MODULE TraceTimes -----------------------------
(***************************************************************************)
(* Judges of ocb_time.                                                     *)
(***************************************************************************)
EXTENDS Times, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }

-----------------------------------------------------------------------------
(* Conversions of texts and numbers to instants                            *)
JudgeTime(s, e) ==
    LET exp == CASE e.k = "soy" -> FromSoy(e.year, e.soy)
                 [] e.k \in { "text", "fmtlen" } -> Read(e.dirs, e.nums)
                 [] e.k = "yyddd" -> << YearStart(1900 + e.yy) + e.ddd - 1, 0, 0 >>
                 [] e.k = "yytod" -> << YearStart(1900 + e.yy) + e.ddd - 1,
                                        ReadSec(e.dirs, e.nums), Num(e.dirs, e.nums, "f", 0) >>
                 [] OTHER -> << 0, 0, 0 >>
    IN  [st |-> s, bad |->
            CASE e.k \in { "soy", "text", "yyddd", "yytod" } ->
                    IF e.exc # "" THEN { "ConversionRaises" }
                    ELSE Clause("WrongInstant", e.out = exp)
              [] e.k = "sod" ->
                    IF e.exc # "" THEN { "ConversionRaises" }
                    ELSE Clause("WrongSecondOfDay", PlusSod(
                        IF e.yy >= 0 THEN YearStart(1900 + e.yy) + e.ddd - 1
                        ELSE ReadDay(e.dirs, e.nums), e.sod, e.out))
              [] e.k = "invalid" -> Clause("InvalidAccepted", e.exc = "ValueError")
              [] e.k = "fmtlen" -> Clause("TextTooLong", e.exc = "" /\ e.len >= e.need)]

-----------------------------------------------------------------------------
(* Cyclic ranges and the conversions between angles and hours              *)
Tol(v) == RMul(Eps(11), RAdd(1, RAbs(v)))
Factor(fn) == CASE fn = "deg2hr" -> RFrac(1, 15)
                [] fn = "hr2deg" -> RInt(15)
                [] fn = "hr2rad" -> RDiv(RPi, 12)
                [] fn = "rad2hr" -> RDiv(12, RPi)
                [] fn = "slt2glon" -> RInt(15)
                [] fn = "glon2slt" -> RFrac(1, 15)
                [] OTHER -> RInt(1)
(* The value before it is brought to the range                             *)
Ideal(e, v) ==
    CASE e.fn = "slt2glon" -> RMul(15, RSub(v, HourOf(e.ut)))
      [] e.fn = "glon2slt" -> RAdd(RDiv(v, 15), HourOf(e.ut))
      [] e.fn = "back" -> v
      [] OTHER -> RMul(Factor(e.fn), v)
(* The range asked for: a range of less than a turn ends at its maximum    *)
Low(e) == IF e.fn = "hr2deg" /\ RLt(RSub(e.mx, e.mn), 360) THEN RSub(e.mx, 360) ELSE e.mn

(* What brings values to a range more than once                            *)
Composed(e) == e.fn \in { "slt2glon", "glon2slt", "back" }

RangeOne(e, v, o) ==
    IF RIsNaN(v) THEN Clause("NaNKept", RIsNaN(o))
    ELSE LET want == Ideal(e, v)
             exact == RLt(RSub(want, Low(e)), RMul(-1, Tol(want))) \/ RLe(RAdd(e.mx, Tol(want)), want)
             inside == RLe(RAdd(Low(e), Tol(want)), want) /\ RLt(want, RSub(e.mx, Tol(want)))
         IN  Clause("OutOfRange", InRange(o, Low(e), e.mx))
             \cup Clause("NotCongruent", Fixed(o, want, e.p, Tol(want)))
             \cup Clause("ChangedInside",
                   IF e.fn = "fix" THEN InRange(v, e.mn, e.mx) => REq(o, v)
                   ELSE (inside /\ ~Composed(e)) => RClose(o, want, Tol(want)))
             \cup Clause("FarFromEnd", (exact /\ ~Composed(e)) =>
                   NearEnd(o, want, Low(e), e.mx, e.p, Tol(want)))

RECURSIVE RangeAll(_, _)
RangeAll(e, i) == IF i = 0 THEN {} ELSE RangeOne(e, e.v[i], e.out[i]) \cup RangeAll(e, i - 1)

JudgeRange(s, e) ==
    [st |-> s, bad |->
        CASE e.k = "range" ->
                IF e.exc # "" THEN { "RangeRaises" }
                ELSE Clause("OutputShape", e.oshape = e.shape)
                     \cup Clause("InputsUntouched", e.same)
                     \cup (IF Len(e.out) # Len(e.v) THEN { "OutputShape" } ELSE RangeAll(e, Len(e.v)))
          [] e.k = "badrange" -> Clause("InvalidAccepted", e.exc = "ValueError")
          [] e.k = "uth" -> Clause("WrongHour",
                e.exc = "" /\ RClose(e.out, HourOf(e.ut), Eps(11)) /\ InRange(e.out, 0, 24))]
=============================================================================
