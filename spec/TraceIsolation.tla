--------------------------- MODULE TraceIsolation ---------------------------
(***************************************************************************)
(* Judge of schedules.  An event "alone" gives what an object shows at     *)
(* every step of its program when nothing else is used; "step" events      *)
(* follow, one for every step of a schedule of several objects.  The state *)
(* holds what each object shows alone, and the schedule so far.            *)
(***************************************************************************)
EXTENDS Isolation, TraceBase

Fresh == [alone |-> << >>, sched |-> << >>]
Clause(name, ok) == IF ok THEN {} ELSE { name }

JudgeIsolation(s, e) ==
    IF e.k = "start" THEN [st |-> Fresh, bad |-> {}]
    ELSE IF e.k = "alone"
    THEN [st |-> [s EXCEPT !.alone = Append(@, e.shown)],
          bad |-> Clause("AloneKeepsArguments", e.kept)]
    ELSE LET sched == Append(s.sched, e.obj)
             age == Age(sched, e.obj, Len(sched))
             mine == s.alone[e.obj]
         IN  [st |-> [s EXCEPT !.sched = sched],
              bad |-> Clause("Isolated", age <= Len(mine) /\ e.shown = mine[age])
                      \cup Clause("ArgumentsKept", e.kept)]
=============================================================================
