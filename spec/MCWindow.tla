------------------------------ MODULE MCWindow ------------------------------
(***************************************************************************)
(* Loading a file one row at a time, for all small files (times need not   *)
(* be ordered or distinct) and all windows.                                *)
(***************************************************************************)
EXTENDS Records, TLC

CONSTANTS MaxRows
Times == 0 .. 3
Wins == [hasS : BOOLEAN, s : Times, hasE : BOOLEAN, e : Times]

VARIABLES rows, w, pos, loaded
vars == << rows, w, pos, loaded >>

Row(t) == [isSoy |-> TRUE, y |-> 2000, soy |-> t]
Init == /\ rows \in UNION { [1 .. n -> Times] : n \in 0 .. MaxRows }
        /\ w \in Wins /\ (w.hasS \/ w.s = 0) /\ (w.hasE \/ w.e = 0)
        /\ pos = 0 /\ loaded = << >>
ReadRow == /\ pos < Len(rows) /\ pos' = pos + 1
           /\ loaded' = IF /\ w.hasS => rows[pos + 1] >= w.s
                           /\ w.hasE => rows[pos + 1] <= w.e
                        THEN Append(loaded, pos + 1) ELSE loaded
           /\ UNCHANGED << rows, w >>
Spec == Init /\ [][ReadRow]_vars

Full == [i \in 1 .. Len(rows) |-> Row(rows[i])]
LoadedIsWindow == pos = Len(rows) => loaded = Selected(Full, w)
LoadedInOrder == \A i, j \in 1 .. Len(loaded) : i < j => loaded[i] < loaded[j]
NothingElse == \A i \in 1 .. Len(loaded) : InWindow(rows[loaded[i]], w)
=============================================================================
