----------------------------- MODULE Conversion -----------------------------
(***************************************************************************)
(* Converting the data of a file: the data of one hemisphere are taken in  *)
(* order; each that a good boundary record matches in time is written with *)
(* its location and value relative to that record.                         *)
(***************************************************************************)
EXTENDS Matching

(* Matches from datum i and cursor cur on, << datum, record >> from zero   *)
RECURSIVE Matches(_, _, _, _, _, _)
Matches(times, good, cur, data, i, tol) ==
    LET o == Outcome(times, good, cur, data, i, tol)
    IN  IF ~o.found THEN << >>
        ELSE << << o.idat, o.rec >> >> \o Matches(times, good, o.rec, data, o.idat + 1, tol)

(* Hemisphere of the data when the caller chooses none: signs of the       *)
(* greatest and least latitude; 2 when there are both                      *)
Hemisphere(hi, lo) == IF hi = 0 THEN lo ELSE IF hi = lo THEN hi ELSE 2
=============================================================================
