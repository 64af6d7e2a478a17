---------------------------- MODULE MCDataFiles ----------------------------
(***************************************************************************)
(* The line readers of vorticity and SuperMAG files on every short         *)
(* sequence of lines.                                                      *)
(***************************************************************************)
EXTENDS DataFiles, TLC, Json, FiniteSets, FiniteSetsExt

CONSTANTS MaxV, MaxS, EmitMod

VARIABLES kind, lines, st

(* c: what the line looks like                                             *)
Line(c) == [c |-> c, n |-> CASE c = "hash" -> 5 [] c = "date" -> 4 [] c = "zero" -> 1 [] c = "one" -> 1
                             [] c = "two" -> 1 [] c = "seven" -> 7 [] c = "eleven" -> 11
                             [] c = "blank" -> 0 [] c = "twelve" -> 12
                             [] c = "text" -> 5 [] c = "rule" -> 1 [] c = "sml" -> 2 [] c = "smu" -> 2
                             [] c = "stn" -> 8 [] OTHER -> 7,
            hash |-> c = "hash", rule |-> c = "rule",
            id |-> CASE c = "sml" -> "SML" [] c = "smu" -> "SMU" [] OTHER -> "x",
            i |-> CASE c = "two" -> << 2 >> [] c = "one" -> << 1 >> [] c = "zero" -> << 0 >>
                    [] c \in { "sml", "smu" } -> << 0, Len(lines) >>
                    [] c = "d0" -> << 2001, 1, 1, 0, 0, 0, 0 >>
                    [] c = "d1" -> << 2001, 1, 1, 0, 0, 0, 1 >>
                    [] c = "d2" -> << 2001, 1, 1, 0, 0, 0, 2 >>
                    [] OTHER -> << >>,
            v |-> << >>]

VKinds == { "hash", "date", "zero", "one", "two", "seven", "eleven", "twelve", "blank" }
(* Only what the format allows: a body line is never short of its record   *)
SKinds == CASE st.pc = "head" -> { "text", "rule" }
            [] st.pc = "date" -> { "d0", "d1", "d2" }
            [] OTHER -> IF st.left = 0 THEN { "sml", "smu", "d0", "d1", "d2" } ELSE { "sml", "smu", "stn" }

Init == kind \in { "vort", "smag" } /\ lines = << >>
        /\ st = IF kind = "vort" THEN VortStart ELSE SmagStart
Next == \/ /\ kind = "vort" /\ Len(lines) < MaxV /\ st.pc # "fail"
           /\ \E c \in VKinds : lines' = Append(lines, Line(c)) /\ st' = VortLine(st, Line(c))
           /\ UNCHANGED kind
        \/ /\ kind = "smag" /\ Len(lines) < MaxS
           /\ \E c \in SKinds : lines' = Append(lines, Line(c)) /\ st' = SmagLine(st, Line(c))
           /\ UNCHANGED kind
Spec == Init /\ [][Next]_<< kind, lines, st >>

Last == lines[Len(lines)]
Count(c) == Cardinality({ k \in 1 .. Len(lines) : lines[k].c = c })
(* Reading a file is reading its lines                                     *)
Folded == st = IF kind = "vort" THEN VortRead(VortStart, lines, 1) ELSE SmagRead(SmagStart, lines, 1)
(* A vorticity entry is three lines, and belongs to the date before it     *)
VortRows == kind = "vort" =>
    /\ \A k \in 1 .. Len(st.rows) : /\ Len(st.rows[k].block) = 3
                                    /\ st.rows[k].date.n = 4
                                    /\ [j \in 1 .. 3 |-> st.rows[k].block[j].n] = << 7, 11, 11 >>
    /\ Len(st.rows) <= Count("seven") /\ Len(st.rows) * 2 <= Count("eleven")
(* The file may end exactly between records (or before the first entry)    *)
Ends == kind = "vort" => /\ VortMayEnd(st) \/ VortMayFail(st)
                         /\ st.pc = "date" => ~VortMayFail(st)
                         /\ st.pc \in { "two", "three" } => ~VortMayEnd(st)
Misplaced == (kind = "vort" /\ st.pc = "fail") => Last.c \in VKinds
(* Every station line is a row, of the record before it                    *)
SmagRows == kind = "smag" => /\ Len(st.rows) = Count("stn")
                             /\ \A k \in 1 .. Len(st.rows) : st.rows[k].date.n = 7
Headers == kind = "smag" => /\ st.header = Count("text") + Count("rule")
                            /\ st.pc = "head" <=> Count("rule") = 0
(* An index is that of the last index line since the date line             *)
LastIn(c) == LET s == { k \in 1 .. Len(lines) : lines[k].c = c } IN IF s = {} THEN 0 ELSE Max(s)
Since == LET s == { k \in 1 .. Len(lines) : lines[k].c \in { "d0", "d1", "d2" } }
         IN  IF s = {} THEN 0 ELSE Max(s)
Indices == (kind = "smag" /\ st.pc = "body") =>
    /\ st.index.SML = (IF LastIn("sml") > Since THEN LastIn("sml") - 1 ELSE Fill)
    /\ st.index.SMU = (IF LastIn("smu") > Since THEN LastIn("smu") - 1 ELSE Fill)

RECURSIVE Mix(_, _)
Mix(k, acc) == IF k > Len(lines) THEN acc ELSE Mix(k + 1, (acc * 31 + lines[k].n * 7
    + (IF lines[k].c = "two" \/ lines[k].c = "sml" THEN 3 ELSE 0)
    + (IF lines[k].c = "zero" \/ lines[k].c = "d1" THEN 5 ELSE 0)) % 99991)
Emit == (lines # << >> /\ Mix(1, 5) % EmitMod = 0) =>
    PrintT("@@" \o ToJson([kind |-> kind, lines |-> [k \in 1 .. Len(lines) |-> lines[k].c]]))
=============================================================================
