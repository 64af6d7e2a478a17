------------------------------ MODULE MCVData ------------------------------
(***************************************************************************)
(* All histories of operations on a VectorData object.                     *)
(***************************************************************************)
EXTENDS VData, TLC, Json

CONSTANTS Shapes, MaxOps, EmitMod
VARIABLES s, ops
vars == << s, ops >>

Init == s = NoVData /\ ops = << >>
Do(op, d, o, new) == /\ Len(ops) < MaxOps
                     /\ ops' = Append(ops, << op, d, o >>) /\ s' = new
Next == \/ ops = << >> /\ \E d \in Shapes, o \in Shapes : Do("new", d, o, New(d, o, 0))
        \/ /\ s.alive
           /\ \/ \E o \in Shapes : Do("setO", 0, o, SetO(s, o))
              \/ \E d \in Shapes : Do("setD", d, 0, SetD(s, d)) \/ Do("setI", d, 0, SetI(s, d))
              \/ Do("setV", 0, 0, SetV(s))
              \/ \E f \in 0 .. 1 : Do("setF", f, 0, SetF(s, f))
              \/ \E b \in 1 .. 2, f \in 0 .. 1, k \in BOOLEAN :
                     Do("setB", f, b, SetB(s, b, f, k, k \/ s.known))
              \/ Do("clear", 0, 0, Clear(s))
              \/ Do("redo", 0, 0, Redo(s))
Spec == Init /\ [][Next]_vars

(* What is set belongs to the current data and boundaries                  *)
Consistent == /\ s.loc # << >> => SubSeq(s.loc, 1, 2) = << s.dv, s.ov >>
              /\ s.out # << >> => /\ SubSeq(s.loc, 1, 2) = SubSeq(s.out, 1, 2)
                                 /\ s.out[3] <= s.vv
ShapeLaw == s.alive => Fits(s.d, s.o) /\ VShape(s) \in Shapes
(* Setting the boundary last always gives current results, and a function  *)
(* is used if there ever was one since it was taken away                   *)
LastSet == (s.alive /\ ops # << >> /\ ops[Len(ops)][1] = "setB") =>
    /\ Current(s) /\ s.out[5] = ops[Len(ops)][3]
    /\ ops[Len(ops)][2] # 0 /\ s.known => s.out[4] # 0
    /\ ~s.known => s.loc[3] = s.out[5]

(* Scaling once more makes results current, with the boundary that was set *)
RedoLaw == (s.alive /\ ops # << >> /\ ops[Len(ops)][1] = "redo") =>
    /\ s.ang => Current(s)
    /\ s.out = << >> => ~s.ang

Code(op) == CASE op = "new" -> 1 [] op = "setO" -> 2 [] op = "setD" -> 3 [] op = "setI" -> 4
              [] op = "setV" -> 5 [] op = "setB" -> 6 [] op = "clear" -> 7 [] op = "setF" -> 8 [] op = "redo" -> 9
RECURSIVE Mix(_, _)
Mix(n, acc) == IF n = 0 THEN acc
    ELSE Mix(n - 1, (acc * 31 + 7 * Code(ops[n][1]) + 3 * ops[n][2] + 5 * ops[n][3]) % 9973)
Emit == ((Len(ops) = MaxOps \/ (ops # << >> /\ ~s.alive)) /\ Mix(Len(ops), 1) % EmitMod = 0) =>
    PrintT("@@" \o ToJson([ops |-> ops]))
=============================================================================
