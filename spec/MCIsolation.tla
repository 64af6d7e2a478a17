---------------------------- MODULE MCIsolation ----------------------------
(***************************************************************************)
(* Objects on a heap.  Making an object copies the argument into a cell of *)
(* its own, writing changes this cell, and calling a function leaves no    *)
(* trace.  Every schedule of the objects' programs is explored.            *)
(***************************************************************************)
EXTENDS Isolation, TLC, Json

CONSTANTS Objs, Steps
VARIABLES heap, cell, sched, shown
vars == << heap, cell, sched, shown >>

Arg == 1
Kinds == << "new", "write", "read", "write", "read" >>
(* Writes of different objects are different                               *)
Value(o, k, v) == 10 * v + o + k

RECURSIVE Solo(_, _)
Solo(o, k) == IF k = 0 THEN 7
              ELSE LET v == Solo(o, k - 1)
                   IN  IF Kinds[k] = "write" THEN Value(o, k, v) % 1009 ELSE v

Init == /\ heap = << 7 >> /\ cell = [o \in 1 .. Objs |-> Arg]
        /\ sched = << >> /\ shown = << >>
Step(o) ==
    LET k == Len(Own(sched, o)) + 1
    IN  /\ k <= Steps
        /\ CASE Kinds[k] = "new" -> /\ heap' = Append(heap, heap[Arg])
                                    /\ cell' = [cell EXCEPT ![o] = Len(heap) + 1]
             [] Kinds[k] = "write" ->
                    /\ heap' = [heap EXCEPT ![cell[o]] = Value(o, k, @) % 1009]
                    /\ UNCHANGED cell
             [] OTHER -> UNCHANGED << heap, cell >>
        /\ sched' = Append(sched, o)
        /\ shown' = Append(shown, heap'[cell'[o]])
Next == \E o \in 1 .. Objs : Step(o)
Spec == Init /\ [][Next]_vars

Alone == \A k \in 1 .. Len(sched) : shown[k] = Solo(sched[k], Age(sched, sched[k], k))
ArgKept == heap[Arg] = 7
NotShared == \A a, b \in 1 .. Objs : (a # b /\ cell[a] = cell[b]) => cell[a] = Arg
Emit == (Len(sched) = Objs * Steps) => PrintT("@@" \o ToJson([sched |-> sched]))
=============================================================================
