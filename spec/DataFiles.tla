----------------------------- MODULE DataFiles -----------------------------
(***************************************************************************)
(* Vorticity and SuperMAG files.  Each is read line by line by a state     *)
(* machine; a line is its number of fields n, whether it starts with a     *)
(* field "#" (hash) or holds a rule of equal signs (rule), and its fields  *)
(* as reals (v), integers (i) and text (first field, id).                  *)
(***************************************************************************)
EXTENDS Calendar, Reals

-----------------------------------------------------------------------------
(* Vorticity.  A file has comment lines, then records: a line of the date  *)
(* and hour, one of the number of entries, and three lines for each entry. *)

VortBlock1 == << "R1BM1", "R1BM2", "R2BM1", "R2BM2", "AREA", "VORTICITY", "MLT" >>
VortBlock2 == << "GFLG", "CENTRE_GLAT", "CENTRE_GLON", "C1_GLAT", "C1_GLON", "C2_GLAT", "C2_GLON",
                 "C3_GLAT", "C3_GLON", "C4_GLAT", "C4_GLON" >>
VortBlock3 == << "MFLG", "CENTRE_MLAT", "CENTRE_MLON", "C1_MLAT", "C1_MLON", "C2_MLAT", "C2_MLON",
                 "C3_MLAT", "C3_MLON", "C4_MLAT", "C4_MLON" >>
VortFields == << "YEAR", "MONTH", "DAY", "UTH" >>

VortStart == [pc |-> "head", date |-> << >>, left |-> 0, first |-> TRUE, block |-> << >>,
              rows |-> << >>]
VortDate(s, x) == IF x.n # 4 THEN [s EXCEPT !.pc = "fail"]
                  ELSE [s EXCEPT !.pc = "count", !.date = x]
VortLine(s, x) ==
    CASE s.pc = "head" -> IF x.hash THEN s ELSE VortDate(s, x)
      [] s.pc = "date" -> VortDate(s, x)
      [] s.pc = "count" -> IF x.n # 1 THEN [s EXCEPT !.pc = "fail"]
                           ELSE [s EXCEPT !.left = x.i[1], !.first = TRUE,
                                          !.pc = IF x.i[1] = 0 THEN "date" ELSE "one"]
      [] s.pc = "one" -> IF x.n # 7 THEN [s EXCEPT !.pc = "fail"]
                         ELSE [s EXCEPT !.pc = "two", !.block = << x >>]
      [] s.pc = "two" -> IF x.n # 11 THEN [s EXCEPT !.pc = "fail"]
                         ELSE [s EXCEPT !.pc = "three", !.block = Append(@, x)]
      [] s.pc = "three" -> IF x.n # 11 THEN [s EXCEPT !.pc = "fail"]
                           ELSE [s EXCEPT !.rows = Append(@, [date |-> s.date, block |-> Append(s.block, x)]),
                                          !.block = << >>, !.left = @ - 1, !.first = FALSE,
                                          !.pc = IF s.left = 1 THEN "date" ELSE "one"]
      [] s.pc = "fail" -> s
(* May the file end here?  When it ends where its first entry should start *)
(* both reading nothing more and failing are allowed.                      *)
VortMayEnd(s) == s.pc \in { "head", "date", "count" } \/ (s.pc = "one" /\ s.first)
VortMayFail(s) == s.pc \in { "fail", "one", "two", "three" }

RECURSIVE VortRead(_, _, _)
VortRead(s, lines, k) == IF k > Len(lines) THEN s ELSE VortRead(VortLine(s, lines[k]), lines, k + 1)

(* The value of a row under a name                                         *)
IndexIn(seq, x) == CHOOSE k \in 1 .. Len(seq) : seq[k] = x
In(seq, x) == \E k \in 1 .. Len(seq) : seq[k] = x
VortValue(row, name) ==
    CASE In(VortFields, name) -> row.date.v[IndexIn(VortFields, name)]
      [] In(VortBlock1, name) -> row.block[1].v[IndexIn(VortBlock1, name)]
      [] In(VortBlock2, name) -> row.block[2].v[IndexIn(VortBlock2, name)]
      [] In(VortBlock3, name) -> row.block[3].v[IndexIn(VortBlock3, name)]
(* Whole seconds of the instant from 2000-01-01                            *)
VortTime(row) ==
    DayOf(row.date.i[1], row.date.i[2], row.date.i[3]) * 86400
    + RToInt(RFloor(RMul(row.date.v[4], 3600)))

VortNeeded == << "YEAR", "MONTH", "DAY", "UTH", "VORTICITY", "MLT", "CENTRE_MLAT" >>
VortAll == SelectSeq(VortFields \o VortBlock1 \o VortBlock2 \o VortBlock3,
                     LAMBDA x : x # "GFLG" /\ x # "MFLG")

-----------------------------------------------------------------------------
(* SuperMAG.  Everything up to the rule is the header.  Each record is a   *)
(* line of the date, time and number of stations, lines of indices, and a  *)
(* line per station.  The indices belong to the stations that follow in    *)
(* the record.                                                             *)

Fill == 999999
NoIndex == [SML |-> Fill, SMU |-> Fill]
SmagStart == [pc |-> "head", header |-> 0, date |-> << >>, left |-> 0, index |-> NoIndex,
              rows |-> << >>]
SmagDate(s, x) == [s EXCEPT !.pc = "body", !.date = x, !.left = x.i[7], !.index = NoIndex]
SmagLine(s, x) ==
    IF s.pc = "head" THEN [s EXCEPT !.header = @ + 1, !.pc = IF x.rule THEN "date" ELSE "head"]
    ELSE IF s.pc = "date" THEN SmagDate(s, x)
    ELSE IF x.n = 2 THEN [s EXCEPT !.index = [@ EXCEPT ![x.id] = x.i[2]]]
    ELSE IF s.left = 0 THEN SmagDate(s, x)    \* the record has no stations
    ELSE [s EXCEPT !.rows = Append(@, [date |-> s.date, index |-> s.index, line |-> x]),
                   !.left = @ - 1, !.pc = IF s.left = 1 THEN "date" ELSE "body"]
RECURSIVE SmagRead(_, _, _)
SmagRead(s, lines, k) == IF k > Len(lines) THEN s ELSE SmagRead(SmagLine(s, lines[k]), lines, k + 1)

SmagDates == << "YEAR", "MONTH", "DAY", "HOUR", "MIN", "SEC", "NST" >>
SmagReals == << "STID", "BN", "BE", "BZ", "MLT", "MLAT", "DEC", "SZA" >>
Gap(x) == IF REq(x, Fill) THEN RNaN ELSE x
SmagValue(row, name) ==
    CASE name = "SML" -> RInt(row.index.SML)
      [] name = "SMU" -> RInt(row.index.SMU)
      [] In(SmagDates, name) -> row.date.v[IndexIn(SmagDates, name)]
      [] name = "MLAT" -> row.line.v[6]
      [] OTHER -> Gap(row.line.v[IndexIn(SmagReals, name)])
SmagTime(row) == LET d == row.date.i IN SecOf(d[1], d[2], d[3], d[4], d[5], d[6])
SmagAll == << "YEAR", "MONTH", "DAY", "HOUR", "MIN", "SEC", "NST", "SML", "SMU", "BN", "BE", "BZ",
              "MLT", "MLAT", "DEC", "SZA" >>
=============================================================================
