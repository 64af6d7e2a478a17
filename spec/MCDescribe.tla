----------------------------- MODULE MCDescribe -----------------------------
(***************************************************************************)
(* Describing and building anew any object, over and over.                 *)
(***************************************************************************)
EXTENDS Describe, TLC, Json

CONSTANTS MaxRows, Last
Times == 0 .. Last
Files == { f \in UNION { [1 .. n -> Times] : n \in 0 .. MaxRows } :
             \A i \in 1 .. Len(f) - 1 : f[i] <= f[i + 1] }
Wins == { w \in [hasS : BOOLEAN, s : Times, hasE : BOOLEAN, e : Times] :
             (w.hasS \/ w.s = 0) /\ (w.hasE \/ w.e = 0) }

(* first: the window of the first object; w: that of the current one       *)
VARIABLES file, first, w, gen
vars == << file, first, w, gen >>
Init == file \in Files /\ first \in Wins /\ w = first /\ gen = 0
Rebuild == gen < 3 /\ gen' = gen + 1 /\ w' = Period(Within(file, w), w)
           /\ UNCHANGED << file, first >>
Spec == Init /\ [][Rebuild]_vars

SameRecords == Within(file, w) = Within(file, first)
Settles == [][gen > 0 => w' = w]_vars

Summary == LET sh == Shown(Len(file))
           IN  /\ Len(sh) <= 4
               /\ Len(file) > 0 => sh[1] = 1 /\ sh[Len(sh)] = Len(file)
               /\ Len(file) <= 4 => Len(sh) = Len(file)
(* Everything is told, and nothing twice                                   *)
AllTold == \A d, o \in 0 .. 4 : (d = 0 \/ o = 0 \/ d = o) =>
    LET ls == Lines(d, o, 1, 1 .. Elements(d, o))
        told(p) == Cardinality({ k \in 1 .. Len(ls) : ls[k] = p })
    IN  /\ \A i \in 1 .. Elements(d, o) : told(<< "ocb", i >>) = 1
        /\ told(<< "dat", 1 >>) = 1
        /\ \A i \in 2 .. d : told(<< "dat", i >>) = 1
Emit == (gen = 0) => PrintT("@@" \o ToJson([file |-> file, w |-> w]))
=============================================================================
