------------------------------ MODULE Describe ------------------------------
(***************************************************************************)
(* What the representation and the summary of an object say about it.      *)
(***************************************************************************)
EXTENDS Records

(* The period in a representation: that of the records, or the one that    *)
(* was asked for when there are none.                                      *)
Period(times, w) ==
    LET n == Len(times)
    IN  IF n = 0 THEN w
        ELSE [hasS |-> TRUE, s |-> times[1], hasE |-> TRUE, e |-> times[n]]

Within(times, w) == SelectSeq(times, LAMBDA t : InWindow(t, w))

(* The records a summary lists: the first and the last two                 *)
Shown(n) == SelectSeq([i \in 1 .. n |-> i], LAMBDA i : i <= 2 \/ i >= n - 1)

-----------------------------------------------------------------------------
(* The lines of a vector summary: << whose, element >>, where "dat" lines  *)
(* hold the data and "ocb" lines that at a boundary record.  dnum and onum *)
(* are 0 for scalars.                                                      *)
Once(dnum, onum) == dnum = 0
Elements(dnum, onum) == LET n == IF dnum > onum THEN dnum ELSE onum
                        IN  IF n = 0 THEN 1 ELSE n
RECURSIVE Lines(_, _, _, _)
Lines(dnum, onum, i, ocbs) ==
    IF i > Elements(dnum, onum) THEN << >>
    ELSE (IF i = 1 \/ ~Once(dnum, onum) THEN << << "dat", i >> >> ELSE << >>)
         \o (IF i \in ocbs THEN << << "ocb", i >> >> ELSE << >>)
         \o Lines(dnum, onum, i + 1, ocbs)
=============================================================================
