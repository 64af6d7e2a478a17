-------------------------------- MODULE Dmsp --------------------------------
(***************************************************************************)
(* DMSP SSJ boundaries: an archive of daily files of satellites is         *)
(* downloaded into a directory, the wanted files are taken from it, and    *)
(* their passes are written to four boundary files.                        *)
(***************************************************************************)
EXTENDS Calendar, Reals, FiniteSets

Satellites == { 16, 17, 18 }
Bounds == { "ocb", "eab" }
Hemis == { 1, -1 }

-----------------------------------------------------------------------------
(* Which files of the archive are wanted.  A file has a satellite and a    *)
(* day; q.sats is << >> for any and << list >> otherwise; q.start and      *)
(* q.end are << >> or << day, second >>, and an open end is now.           *)

Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SatsOf(q) == IF q.sats = << >> THEN Satellites
             ELSE { q.sats[1][i] : i \in 1 .. Len(q.sats[1]) }
KnownSats(q) == SatsOf(q) \subseteq Satellites
Everything(q) == q.sats = << >> /\ q.start = << >> /\ q.end = << >>
Wanted(f, q) ==
    \/ Everything(q)
    \/ /\ f.sat \in SatsOf(q)
       /\ q.start # << >> => ~Earlier(<< f.day, 0 >>, q.start)
       /\ q.end # << >> => Earlier(<< f.day, 0 >>, q.end)
       /\ q.end = << >> => f.day <= q.today
Picked(archive, q) == SelectSeq(archive, LAMBDA f : Wanted(f, q))

(* What a download can do                                                  *)
Succeeds == { "ok", "again" }
Outcomes == Succeeds \cup { "badsum", "raise", "nolink", "nozip", "noarchive" }

(* How a fetch ends: "" or the kind of error                               *)
FetchEnds(q, isdir, outcome) ==
    CASE ~KnownSats(q) \/ ~isdir -> "value"
      [] KnownSats(q) /\ isdir /\ outcome \in Succeeds -> ""
      [] KnownSats(q) /\ isdir /\ outcome = "raise" -> "passed on"
      [] OTHER -> "io"

-----------------------------------------------------------------------------
(* Formatting.  A row is a pass: its hemisphere, figure of merit, and for  *)
(* each boundary the seconds of day of both crossings and their magnetic   *)
(* latitudes and local times.                                              *)

(* In the plane of a boundary file x points to dawn and y to noon          *)
CrossX(c) == RMul(RSub(90, RAbs(c[1])), RCos(Hr2Rad(RSub(c[2], 6))))
CrossY(c) == RMul(RSub(90, RAbs(c[1])), RSin(Hr2Rad(RSub(c[2], 6))))
Half(a, b) == RDiv(RAdd(a, b), 2)

MidSecond(p) == (p.t[1] + p.t[2]) \div 2       \* whole seconds are written
PassTime(f, p) == f.day * 86400 + MidSecond(p)
PassRadius(p) == RDiv(RHypot(RSub(CrossX(p.c[1]), CrossX(p.c[2])),
                             RSub(CrossY(p.c[1]), CrossY(p.c[2]))), 2)
(* r, x, y, fom, x_1, y_1, x_2, y_2                                        *)
PassValues(row, p) ==
    << PassRadius(p), Half(CrossX(p.c[1]), CrossX(p.c[2])),
       Half(CrossY(p.c[1]), CrossY(p.c[2])), row.fom,
       CrossX(p.c[1]), CrossY(p.c[1]), CrossX(p.c[2]), CrossY(p.c[2]) >>

(* The passes that a boundary file gets from the files, in order           *)
RECURSIVE Lines(_, _, _, _)
Lines(files, hemi, i, j) ==
    IF i > Len(files) THEN << >>
    ELSE IF files[i].bad \/ j > Len(files[i].rows) THEN Lines(files, hemi, i + 1, 1)
    ELSE (IF files[i].rows[j].hemi = hemi THEN << << i, j >> >> ELSE << >>)
         \o Lines(files, hemi, i, j + 1)
BoundaryLines(files, hemi) == Lines(files, hemi, 1, 1)
=============================================================================
