----------------------------- MODULE MCLocation -----------------------------
(***************************************************************************)
(* All sequences of conversions.  is is the system the numbers are in,     *)
(* label the one that they are said to be in.                              *)
(***************************************************************************)
EXTENDS Location, TLC, Json

CONSTANTS MaxLen, Sizes
VARIABLES start, n0, label, is, n, todo, hist
vars == << start, n0, label, is, n, todo, hist >>

Init == /\ start \in Systems /\ n0 \in Sizes
        /\ label = start /\ is = start /\ n = n0 /\ todo = << >> /\ hist = << >>
Ask(to, times) ==
    /\ todo = << >> /\ Len(hist) < MaxLen
    /\ hist' = Append(hist, [to |-> to, times |-> times])
    /\ IF Fits(n, times) \/ to = label
       THEN todo' = Conversions(label, to) /\ n' = (IF to = label THEN n ELSE Size(n, times))
       ELSE todo' = << >> /\ n' = n
    /\ UNCHANGED << start, n0, label, is >>
Convert ==
    /\ todo # << >>
    /\ LET s == todo[1]
       IN  /\ Assert(is = (IF s[1] = "A2G" THEN "magnetic" ELSE s[2]), "wrong input")
           /\ is' = (IF s[1] = "A2G" THEN s[2] ELSE "magnetic")
           /\ label' = is'
    /\ todo' = Tail(todo) /\ UNCHANGED << start, n0, n, hist >>
Next == Convert \/ \E to \in Systems, times \in Sizes : Ask(to, times)
Spec == Init /\ [][Next]_vars /\ WF_vars(Convert)

Labelled == label = is
Arrives == (todo = << >> /\ hist # << >>) =>
    LET a == hist[Len(hist)] IN label = a.to \/ n # 0
KeepsArrays == [][n # 0 => n' = n]_vars
AtMostTwo == Len(todo) <= 2
Settles == []<>(todo = << >>)
Emit == (todo = << >> /\ Len(hist) = MaxLen) =>
    PrintT("@@" \o ToJson([start |-> start, n0 |-> n0, hist |-> hist]))
=============================================================================
