------------------------------- MODULE Ascii -------------------------------
(***************************************************************************)
(* Reading a file of columns.  A file is a sequence of header lines, each  *)
(* a text with the names in it, and a sequence of rows of fields.  The     *)
(* reader takes the header lines one by one, then the rows one by one.     *)
(***************************************************************************)
EXTENDS Times

DtNames == << "datetime", "DATETIME", "DT", "dt" >>

(* given: header lines of the caller, the last of which names the columns  *)
Reader(given) ==
    [header |-> [i \in 1 .. Len(given) |-> given[i].text],
     names |-> IF given = << >> THEN << >> ELSE given[Len(given)].names,
     fixed |-> given # << >>, cols |-> << >>, rows |-> 0]
ReadHeader(s, line) ==
    [s EXCEPT !.header = Append(@, line.text),
              !.names = IF s.fixed THEN @ ELSE line.names]
(* The names are known                                                     *)
Open(s) == [s EXCEPT !.cols = [j \in 1 .. Len(s.names) |-> << >>]]
ReadRow(s, row) ==
    [s EXCEPT !.rows = @ + 1,
              !.cols = [j \in 1 .. Len(s.names) |-> Append(@[j], row[j])]]

RECURSIVE ReadHeaders(_, _, _), ReadRows(_, _, _)
ReadHeaders(s, lines, i) ==
    IF i > Len(lines) THEN Open(s) ELSE ReadHeaders(ReadHeader(s, lines[i]), lines, i + 1)
ReadRows(s, rows, i) ==
    IF i > Len(rows) THEN s ELSE ReadRows(ReadRow(s, rows[i]), rows, i + 1)
ReadFile(given, lines, rows) == ReadRows(ReadHeaders(Reader(given), lines, 1), rows, 1)

(* The name of the column of instants: the first that is not taken         *)
Taken(names, x) == \E j \in 1 .. Len(names) : names[j] = x
FreeName(names) ==
    IF \A k \in 1 .. Len(DtNames) : Taken(names, DtNames[k]) THEN ""
    ELSE LET k == CHOOSE k \in 1 .. Len(DtNames) :
                 ~Taken(names, DtNames[k]) /\ \A h \in 1 .. k - 1 : Taken(names, DtNames[h])
         IN  DtNames[k]

(* What the columns of a row say about its instant                         *)
InstantOk(w, t) ==
    CASE w.k = "soy" -> t = FromSoy(w.year, RInt(w.soy))
      [] w.k = "text" -> t = Read(w.dirs, w.nums)
      [] w.k = "sod" -> PlusSod(ReadDay(w.dirs, w.nums), w.sod, t)
      [] w.k = "yysod" -> PlusSod(YearStart(1900 + w.yy) + w.ddd - 1, w.sod, t)
      [] w.k = "yytod" -> t = << YearStart(1900 + w.yy) + w.ddd - 1,
                                 ReadSec(w.dirs, w.nums), Num(w.dirs, w.nums, "f", 0) >>
=============================================================================
