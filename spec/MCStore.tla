------------------------------ MODULE MCStore ------------------------------
(***************************************************************************)
(* Stored boundary locations as a state machine: histories of requests     *)
(* with abstract local times (the number of the request).  A record is     *)
(* written when it is empty or may be overwritten; longitudes are written  *)
(* on request only.  Loading records anew empties the store.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS NRec, MaxOps, EmitMod
VARIABLES lat, lon, ops
vars == << lat, lon, ops >>

Sel == { << >>, << 0 >>, << 1 >>, << 0, 1 >> }
Init == lat = [i \in 1 .. NRec |-> 0] /\ lon = [i \in 1 .. NRec |-> 0] /\ ops = << >>

Asked(sel, i) == sel = << >> \/ \E k \in 1 .. Len(sel) : sel[k] = i - 1
Write(sel, over, setLon) ==
    LET n == Len(ops) + 1
        T(i) == Asked(sel, i) /\ (lat[i] = 0 \/ over)
    IN  /\ Len(ops) < MaxOps
        /\ lat' = [i \in 1 .. NRec |-> IF T(i) THEN n ELSE lat[i]]
        /\ lon' = [i \in 1 .. NRec |-> IF T(i) /\ setLon THEN n ELSE lon[i]]
        /\ ops' = Append(ops, << "blat", sel, over, setLon >>)
Convert == /\ Len(ops) < MaxOps /\ ops' = Append(ops, << "other", << >>, FALSE, FALSE >>)
           /\ UNCHANGED << lat, lon >>
Reload == /\ Len(ops) < MaxOps /\ ops' = Append(ops, << "reload", << >>, FALSE, FALSE >>)
          /\ lat' = [i \in 1 .. NRec |-> 0] /\ lon' = [i \in 1 .. NRec |-> 0]
Next == Convert \/ Reload \/ \E sel \in Sel, over \in BOOLEAN, setLon \in BOOLEAN : Write(sel, over, setLon)
Spec == Init /\ [][Next]_vars

(* Requests that count are those after the last reload                     *)
Wrote(i, n) == /\ ops[n][1] = "blat" /\ Asked(ops[n][2], i)
               /\ \A m \in n .. Len(ops) : ops[m][1] # "reload"
(* What is stored is of the first request, or of the last that overwrites  *)
WrittenOnce == \A i \in 1 .. NRec :
    LET w == { n \in 1 .. Len(ops) : Wrote(i, n) }
        o == { n \in w : ops[n][3] }
        Mx(s) == CHOOSE x \in s : \A y \in s : y <= x
        Mn(s) == CHOOSE x \in s : \A y \in s : x <= y
    IN  lat[i] = IF w = {} THEN 0 ELSE IF o = {} THEN Mn(w) ELSE Mx(o)
OnlyAsked == \A i \in 1 .. NRec : lat[i] # 0 => Wrote(i, lat[i])
LonMatches == \A i \in 1 .. NRec : lon[i] # 0 => lon[i] <= lat[i] /\ ops[lon[i]][4]

RECURSIVE Mix(_, _)
Mix(n, acc) == IF n = 0 THEN acc
    ELSE Mix(n - 1, (acc * 31 + 7 * Len(ops[n][2]) + (IF ops[n][3] THEN 3 ELSE 0)
                     + (IF ops[n][4] THEN 11 ELSE 0) + (IF ops[n][1] = "blat" THEN 5 ELSE IF ops[n][1] = "other" THEN 2 ELSE 9)
                     + (IF ops[n][2] = << 1 >> THEN 13 ELSE 0)) % 9973)
Emit == (Len(ops) = MaxOps /\ Mix(MaxOps, 1) % EmitMod = 0) =>
    PrintT("@@" \o ToJson([ops |-> [n \in 1 .. MaxOps |->
        << ops[n][1], IF ops[n][2] = << >> THEN << 0, 1 >> ELSE ops[n][2], ops[n][3], ops[n][4] >>]]))
=============================================================================
