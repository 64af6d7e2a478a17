------------------------------- MODULE VData -------------------------------
(***************************************************************************)
(* The VectorData object as a state machine.  Shapes are 0 (scalar) or the *)
(* length of an array.  dv, ov and vv are the versions of the data, of the *)
(* boundary indices and of the vectors, and f is the scaling function (0:  *)
(* none).  loc and out are the versions that the boundary locations and    *)
(* the rotated vectors belong to, with the boundary object (1, 2, ...) and *)
(* function used; << >> when they are not set.  known: whether a location  *)
(* is defined at all; ang: whether there is an angle at a vector.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Max2(a, b) == IF a < b THEN b ELSE a
(* One datum may have several boundaries, several data one boundary        *)
Fits(d, o) == d = 0 \/ o = 0 \/ d = o
VShape(s) == IF s.d = 0 THEN s.o ELSE s.d

NoVData == [alive |-> FALSE, d |-> 0, o |-> 0, dv |-> 0, ov |-> 0, vv |-> 0, f |-> 0,
            loc |-> << >>, known |-> FALSE, ang |-> FALSE, out |-> << >>]
New(d, o, f) == IF Fits(d, o)
                THEN [NoVData EXCEPT !.alive = TRUE, !.d = d, !.o = o, !.f = f]
                ELSE NoVData
Now(s) == << s.dv, s.ov, s.vv, s.f >>
(* The results are those of the current input                              *)
Current(s) == s.out # << >> /\ SubSeq(s.out, 1, 4) = Now(s)
(* New indices drop what belongs to the old ones                           *)
SetO(s, o) == IF Fits(s.d, o)
              THEN [s EXCEPT !.o = o, !.ov = @ + 1, !.loc = << >>, !.out = << >>, !.ang = FALSE]
              ELSE NoVData
(* New data: arrays stay arrays                                            *)
SetD(s, d) == IF Fits(d, s.o) /\ (s.d = 0 \/ d # 0)
              THEN [s EXCEPT !.d = d, !.dv = @ + 1, !.vv = @ + 1, !.loc = << >>, !.out = << >>, !.ang = FALSE]
              ELSE NoVData
(* The data index alone: one datum may become several equal ones           *)
SetI(s, d) == IF Fits(d, s.o) /\ (s.d = 0 \/ d = s.d)
              THEN [s EXCEPT !.d = d, !.dv = @ + 1, !.loc = << >>, !.out = << >>, !.ang = FALSE]
              ELSE NoVData
SetV(s) == [s EXCEPT !.vv = @ + 1]
SetF(s, f) == [s EXCEPT !.f = f]
(* Boundary b, for which locations are defined or not.  Locations that are *)
(* known stay; a function is only taken when there is none, and a vector   *)
(* that it may be used for                                                 *)
SetB(s, b, f, known, rotated) ==
    LET n == [s EXCEPT !.f = IF @ = 0 /\ rotated THEN f ELSE @]
    IN  [n EXCEPT !.loc = IF @ = << >> \/ ~s.known THEN << s.dv, s.ov, b >> ELSE @,
                  !.known = IF s.loc = << >> \/ ~s.known THEN known ELSE @,
                  !.out = Append(Now(n), b), !.ang = rotated]
Clear(s) == [s EXCEPT !.out = << >>, !.ang = FALSE]
(* The quadrants and scaled vectors once more, with the boundary set last  *)
Redo(s) == IF s.ang THEN [s EXCEPT !.out = Append(Now(s), s.out[5])] ELSE s
=============================================================================
