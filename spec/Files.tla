------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* The boundary files of the package directory and the default choice.     *)
(* A file has an instrument, a hemisphere, a boundary, and the days that   *)
(* it covers: fixed ones for the known instruments, otherwise those of its *)
(* name, and << >> when the name tells none.                               *)
(***************************************************************************)
EXTENDS Calendar

Image == { "image", "si12", "si13", "wic" }
Known == Image \cup { "amp", "dmsp-ssj" }
Far == 1000000
Covers(f) ==
    CASE f.inst \in { "image", "si13" } -> << DayOf(2000, 5, 3), DayOf(2002, 11, 1) >>
      [] f.inst \in { "si12", "wic" } -> << DayOf(2000, 5, 4), DayOf(2002, 11, 1) >>
      [] f.inst = "amp" -> << DayOf(2010, 1, 1), DayOf(2022, 1, 1) >>
      [] f.inst = "dmsp-ssj" -> << DayOf(2010, 1, 1), Far >>     \* until tomorrow
      [] OTHER -> f.days

(* The instruments that a requested name stands for                        *)
Allowed(name) == CASE name = "" -> Known
                   [] name = "ampere" -> { "amp" }
                   [] name = "image" -> Image
                   [] OTHER -> { name }
LongName(inst) == IF inst \in Image THEN "image" ELSE IF inst = "amp" THEN "ampere" ELSE inst

Rank(inst) == CASE inst = "image" -> 1 [] inst = "amp" -> 2 [] inst = "si13" -> 3
                [] inst = "si12" -> 4 [] inst = "wic" -> 5 [] inst = "dmsp-ssj" -> 6
                [] OTHER -> 7

(* A request: hemisphere, boundary, instrument name, and a period of       *)
(* << day, second >> instants, or << >> for any time                       *)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
InTime(f, q) == \/ q.start = << >> \/ q.end = << >>
                \/ /\ Covers(f) # << >>
                   /\ Before(q.start, << Covers(f)[2], 0 >>)
                   /\ Before(<< Covers(f)[1], 0 >>, q.end)
Fits(f, q) == /\ f.hemi = q.hemi /\ f.bound = q.bound
              /\ f.inst \in Allowed(q.inst) /\ InTime(f, q)

(* Files are numbered in the order of their names                          *)
Best(files, q) ==
    LET good == { i \in 1 .. Len(files) : Fits(files[i], q) }
    IN  IF good = {} THEN 0
        ELSE CHOOSE i \in good : \A j \in good :
                \/ Rank(files[i].inst) < Rank(files[j].inst)
                \/ Rank(files[i].inst) = Rank(files[j].inst) /\ i <= j
ChosenName(files, q) ==
    IF Best(files, q) = 0 THEN q.inst ELSE LongName(files[Best(files, q)].inst)
=============================================================================
