----------------------------- MODULE TraceFiles -----------------------------
(***************************************************************************)
(* Judge of the choice of a default file.                                  *)
(***************************************************************************)
EXTENDS Files, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }

Want(e) == IF Best(e.files, e.q) = 0 THEN "" ELSE e.files[Best(e.files, e.q)].name

JudgeFiles(s, e) ==
    [st |-> s, bad |->
        IF e.exc # "" THEN { "SelectionRaises" }
        ELSE CASE e.k = "default" ->
                    Clause("WrongFile", e.name = Want(e) /\ e.indir)
                    \cup Clause("WrongInstrument", e.inst = ChosenName(e.files, e.q))
               [] e.k = "object" ->
                    Clause("WrongFile", e.name = Want(e) /\ e.indir)
                    \cup Clause("WrongInstrument", e.inst = ChosenName(e.files, e.q))
                    \cup Clause("Unloaded", e.records = (IF Want(e) = "" THEN 0 ELSE e.rows))
               [] e.k = "list" ->
                    Clause("WrongListing", e.names = [i \in 1 .. Len(e.files) |-> e.files[i].name])
                    \cup Clause("WrongCoverage",
                          Len(e.names) = Len(e.files) => \A i \in 1 .. Len(e.files) :
                          /\ e.insts[i] = e.files[i].inst /\ e.hemis[i] = e.files[i].hemi
                          /\ IF e.files[i].inst = "dmsp-ssj"
                             THEN e.days[i][1] = Covers(e.files[i])[1] /\ e.days[i][2] > e.today
                             ELSE e.days[i] = Covers(e.files[i]))]
=============================================================================
