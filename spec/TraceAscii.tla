----------------------------- MODULE TraceAscii -----------------------------
(***************************************************************************)
(* Judge of the reader of column files.  A field is [r, i, c]: its value   *)
(* as a real, as an integer, and its characters.                           *)
(***************************************************************************)
EXTENDS Ascii, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }
SameReal(x, y) == (RIsNaN(x) /\ RIsNaN(y)) \/ REq(x, y)
Cut(c, n) == IF Len(c) <= n THEN c ELSE SubSeq(c, 1, n)

(* kind f: real, i: integer, s: text of at most max characters, d: text of *)
(* a date, which is never cut, and neither are texts as long as the date   *)
IsField(kind, v, f, e) ==
    CASE kind = "f" -> SameReal(v, f.r)
      [] kind = "i" -> v = f.i
      [] kind = "s" -> IF e.dates THEN Len(v) <= Len(f.c) /\ v = SubSeq(f.c, 1, Len(v)) /\ Len(Cut(f.c, e.max)) <= Len(v)
                       ELSE v = Cut(f.c, e.max)
      [] kind = "d" -> v = f.c

Loaded(e) ==
    LET want == ReadFile(e.given, e.lines, e.rows)
        free == IF e.dates THEN FreeName(want.names) ELSE ""
        n == Len(want.names)
    IN  Clause("WrongHeader", e.header = want.header)
        \cup (IF e.names # want.names \/ e.dtname # free \/ e.nkeys # n + (IF free = "" THEN 0 ELSE 1)
              THEN { "WrongColumns" }
              ELSE Clause("ColumnLength", \A j \in 1 .. n : Len(e.cols[j]) = want.rows)
                   \cup Clause("WrongKind", want.rows > 0 => e.kinds = [j \in 1 .. n |-> IF e.want[j] = "d" THEN "s" ELSE e.want[j]])
                   \cup Clause("WrongValue",
                          \A j \in 1 .. n : \A i \in 1 .. want.rows :
                              (Len(e.cols[j]) = want.rows /\ e.kinds[j] = (IF e.want[j] = "d" THEN "s" ELSE e.want[j])) =>
                                  IsField(e.want[j], e.cols[j][i], want.cols[j][i], e))
                   \cup Clause("WrongInstant",
                          free # "" => /\ Len(e.dt) = want.rows
                                       /\ \A i \in 1 .. want.rows : InstantOk(e.when[i], e.dt[i])))

JudgeAscii(s, e) ==
    [st |-> s, bad |->
        Clause("InputsUntouched", e.same) \cup
        CASE e.k = "load" -> IF e.exc # "" THEN { "LoadRaises" } ELSE Loaded(e)
          [] e.k = "nofile" -> Clause("NoFile", e.exc = "" /\ e.header = e.given /\ e.nkeys = 0)
          [] e.k = "invalid" -> Clause("InvalidAccepted", e.exc = "ValueError")]
=============================================================================
