------------------------------ MODULE MCAscii ------------------------------
(***************************************************************************)
(* The reader of column files on every small file.  Field i, j of the file *)
(* is the number 10 i + j.                                                 *)
(***************************************************************************)
EXTENDS Ascii, TLC, Json

CONSTANTS MaxLines, MaxRows, MaxCols, EmitMod

Names == << "a", "datetime", "DATETIME", "DT", "dt" >>
Kinds == { "f", "i", "s" }
VARIABLES given, lines, nrows, kinds, offs, rd, pos

Line(k, n, off) == [text |-> "line" \o ToString(k), names |-> [j \in 1 .. n |-> Names[((j + off - 1) % 5) + 1]]]
Row(i) == [j \in 1 .. Len(kinds) |-> 10 * i + j]

Init == /\ kinds \in UNION { [1 .. n -> Kinds] : n \in 1 .. MaxCols }
        /\ offs \in 0 .. 4
        /\ nrows \in 0 .. MaxRows
        /\ \E g \in 0 .. 2, h \in 0 .. MaxLines :
               /\ g + h > 0
               /\ given = [k \in 1 .. g |-> Line(k, Len(kinds), IF k = g THEN offs ELSE 3)]
               /\ lines = [k \in 1 .. h |-> Line(10 + k, Len(kinds), IF g = 0 /\ k = h THEN offs ELSE k)]
        /\ rd = Reader(given) /\ pos = 1
Next == /\ UNCHANGED << given, lines, nrows, kinds, offs >>
        /\ pos' = pos + 1
        /\ CASE pos <= Len(lines) -> rd' = ReadHeader(rd, lines[pos])
             [] pos = Len(lines) + 1 -> rd' = Open(rd)
             [] pos > Len(lines) + 1 /\ pos <= Len(lines) + 1 + nrows ->
                    rd' = ReadRow(rd, Row(pos - Len(lines) - 1))
             [] OTHER -> FALSE
Spec == Init /\ [][Next]_<< given, lines, nrows, kinds, offs, rd, pos >>

Opened == pos > Len(lines) + 1
Done == pos = Len(lines) + 2 + nrows
(* Column j is the j-th field of every row, in order                       *)
Transposed == Opened => /\ rd.rows = pos - Len(lines) - 2
                        /\ Len(rd.cols) = Len(kinds)
                        /\ \A j \in 1 .. Len(kinds) :
                              rd.cols[j] = [i \in 1 .. rd.rows |-> 10 * i + j]
HeaderKept == Opened => Len(rd.header) = Len(given) + Len(lines)
Named == Opened => rd.names = [j \in 1 .. Len(kinds) |-> Names[((j + offs - 1) % 5) + 1]]
(* Folding over the file is what the steps do                              *)
Folded == Done => rd = ReadFile(given, lines, [i \in 1 .. nrows |-> Row(i)])
(* The column of instants does not replace a column                        *)
Distinct == Opened => LET f == FreeName(rd.names)
                      IN  IF f = "" THEN \A k \in 1 .. 4 : Taken(rd.names, DtNames[k])
                          ELSE ~Taken(rd.names, f)

Code == Len(given) + Len(lines) * 3 + nrows * 9 + Len(kinds) * 31 + offs * 101
        + (IF kinds[1] = "i" THEN 7 ELSE 0) + (IF kinds[Len(kinds)] = "s" THEN 17 ELSE 0)
Emit == (Done /\ Code % EmitMod = 0) =>
    PrintT("@@" \o ToJson([given |-> given, lines |-> lines, nrows |-> nrows, kinds |-> kinds]))
=============================================================================
