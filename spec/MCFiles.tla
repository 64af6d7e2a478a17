------------------------------ MODULE MCFiles ------------------------------
(***************************************************************************)
(* A directory to which files are added and from which they are removed,   *)
(* and what is chosen for every request.                                   *)
(***************************************************************************)
EXTENDS Files, TLC, Json, FiniteSets

CONSTANTS MaxFiles, EmitMod

F(inst, hemi, bound, days, name) ==
    [inst |-> inst, hemi |-> hemi, bound |-> bound, days |-> days, name |-> name]
(* In the order of the names                                               *)
Universe == <<
    F("amp", 1, "ocb", << >>, "amp_north_radii.ocb"),
    F("amp", -1, "ocb", << >>, "amp_south_radii.ocb"),
    F("dmsp-ssj", 1, "eab", << >>, "dmsp-ssj_north_out.eab"),
    F("dmsp-ssj", 1, "ocb", << >>, "dmsp-ssj_north_a.ocb"),
    F("dmsp-ssj", 1, "ocb", << >>, "dmsp-ssj_north_b.ocb"),
    F("image", 1, "ocb", << >>, "image_north_circle.ocb"),
    F("mine", 1, "ocb", << DayOf(2001, 1, 1), DayOf(2001, 12, 31) >>, "mine_north_20010101_20011231.ocb"),
    F("mine", 1, "ocb", << DayOf(2010, 6, 1), DayOf(2010, 7, 1) >>, "mine_north_20100601_20100701.ocb"),
    F("mine", 1, "ocb", << >>, "mine_north_circle.ocb"),
    F("si12", 1, "ocb", << >>, "si12_north_circle.ocb"),
    F("si13", 1, "ocb", << >>, "si13_north_circle.ocb"),
    F("wic", 1, "ocb", << >>, "wic_north_circle.ocb") >>
All == 1 .. Len(Universe)

Periods == { << << >>, << >> >>,
             << << DayOf(2000, 5, 3), 0 >>, << DayOf(2000, 5, 3), 86399 >> >>,
             << << DayOf(2001, 6, 1), 0 >>, << DayOf(2001, 6, 2), 0 >> >>,
             << << DayOf(2002, 11, 1), 0 >>, << DayOf(2002, 11, 2), 0 >> >>,
             << << DayOf(2002, 11, 1), 1 >>, << DayOf(2002, 11, 2), 0 >> >>,
             << << DayOf(2010, 6, 15), 0 >>, << DayOf(2010, 6, 16), 0 >> >>,
             << << DayOf(2000, 1, 1), 0 >>, << DayOf(2020, 1, 1), 0 >> >>,
             << << DayOf(2009, 12, 31), 0 >>, << DayOf(2010, 1, 1), 0 >> >> }
Names == { "", "ampere", "amp", "image", "si12", "wic", "dmsp-ssj", "mine", "other" }
Request(hemi, bound, inst, per) ==
    [hemi |-> hemi, bound |-> bound, inst |-> inst, start |-> per[1], end |-> per[2]]

VARIABLES dir, q
Init == /\ dir = {}
        /\ q \in { Request(h, b, n, p) : h \in { 1, -1 }, b \in { "ocb", "eab" }, n \in Names, p \in Periods }
Next == \E i \in All \ dir : Cardinality(dir) < MaxFiles /\ dir' = dir \cup { i } /\ UNCHANGED q
Spec == Init /\ [][Next]_<< dir, q >>

RECURSIVE Order(_, _)
Order(s, i) == IF i > Len(Universe) THEN << >>
               ELSE (IF i \in s THEN << Universe[i] >> ELSE << >>) \o Order(s, i + 1)
Listing(s) == Order(s, 1)
Chosen(s) == IF Best(Listing(s), q) = 0 THEN "none" ELSE Listing(s)[Best(Listing(s), q)].name

ChosenFits == Best(Listing(dir), q) # 0 => Fits(Listing(dir)[Best(Listing(dir), q)], q)
NoneOnly == Best(Listing(dir), q) = 0 <=> \A i \in dir : ~Fits(Universe[i], q)
(* A file that is not the chosen one does not matter                       *)
Irrelevant == \A i \in dir : Universe[i].name # Chosen(dir) => Chosen(dir \ { i }) = Chosen(dir)
(* A file of an unknown instrument is chosen only when it is asked for     *)
OwnOnly == (Best(Listing(dir), q) # 0 /\ Listing(dir)[Best(Listing(dir), q)].inst \notin Known)
              => q.inst = Listing(dir)[Best(Listing(dir), q)].inst
(* Any time is the most generous request                                   *)
Generous == (Best(Listing(dir), q) # 0) =>
    Best(Listing(dir), [q EXCEPT !.start = << >>]) # 0

RECURSIVE Sum(_)
Sum(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE i \in s : TRUE IN x * x * 7 + Sum(s \ { x })
PerCode(p) == IF p = << >> THEN 3 ELSE (p[1] + p[2]) % 97
Emit == ((Sum(dir) + PerCode(q.start) * 31 + q.hemi * 5 + Len(q.inst) * 13 + (IF q.bound = "ocb" THEN 0 ELSE 17)) % EmitMod = 0) =>
    PrintT("@@" \o ToJson([files |-> Listing(dir), q |-> q]))
=============================================================================
