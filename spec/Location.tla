------------------------------ MODULE Location ------------------------------
(***************************************************************************)
(* Locations of data in magnetic and geographic coordinate systems.  AACGM *)
(* converts between magnetic coordinates and each geographic system, for a *)
(* given time and height; the code has to chain the conversions, supply    *)
(* the longitudes, and keep the name of the system in step.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Geographic == { "geodetic", "geocentric" }
Systems == { "magnetic" } \cup Geographic

Conversions(from, to) ==
    IF from = to THEN << >>
    ELSE IF from = "magnetic" THEN << << "A2G", to >> >>
    ELSE IF to = "magnetic" THEN << << "G2A", from >> >>
    ELSE << << "G2A", from >>, << "A2G", to >> >>

(* Numbers of elements: 0 is a scalar location, and a single time          *)
Fits(n, times) == n = 0 \/ times = 0 \/ n = times
Size(n, times) == IF n = 0 THEN times ELSE n

(* Vectors and locations cannot be in different geographic systems         *)
Compatible(loc, vect) == loc = vect \/ "magnetic" \in { loc, vect }
=============================================================================
