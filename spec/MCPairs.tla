------------------------------ MODULE MCPairs ------------------------------
(***************************************************************************)
(* Pairing the records of two boundaries, for all small time axes.         *)
(***************************************************************************)
EXTENDS Matching, TLC, Json

CONSTANTS MaxT, MaxRecs, EmitMod
VARIABLES ot, og, et, eg, delta, i, e, pairs, done
vars == << ot, og, et, eg, delta, i, e, pairs, done >>

Incr(n) == { s \in [1 .. n -> 0 .. MaxT] : \A k \in 1 .. n - 1 : s[k] < s[k + 1] }
InOrder(s) == SelectSeq([k \in 1 .. MaxRecs |-> k - 1], LAMBDA x : x \in s)

Init == /\ ot \in UNION { Incr(n) : n \in 1 .. MaxRecs }
        /\ \E s \in SUBSET (0 .. Len(ot) - 1) : og = InOrder(s)
        /\ et \in UNION { Incr(n) : n \in 1 .. MaxRecs }
        /\ eg \in SUBSET (0 .. Len(et) - 1)
        /\ delta \in 0 .. 2 /\ i = 0 /\ e = -1 /\ pairs = << >> /\ done = FALSE

T(k) == ot[og[k + 1] + 1]
Left == { j \in eg : j > e }
(* One step looks at one record of the first boundary: it is paired with   *)
(* the closest unused later record of the second, or left behind           *)
Step == /\ ~done
        /\ IF i >= Len(og) \/ Left = {} THEN done' = TRUE /\ UNCHANGED << i, e, pairs >>
           ELSE /\ done' = done
                /\ LET c == Closest(et, Left, T(i))
                   IN  IF Abs(et[c + 1] - T(i)) <= delta
                       THEN pairs' = Append(pairs, << og[i + 1], c >>) /\ e' = c /\ i' = i
                       ELSE i' = i + 1 /\ UNCHANGED << e, pairs >>
        /\ UNCHANGED << ot, og, et, eg, delta >>
Spec == Init /\ [][Step]_vars

IsPairs == done => pairs = Pairs(ot, og, et, eg, delta)
PairsNear == \A k \in 1 .. Len(pairs) :
    /\ Abs(ot[pairs[k][1] + 1] - et[pairs[k][2] + 1]) <= delta
    /\ pairs[k][2] \in eg /\ \E m \in 1 .. Len(og) : og[m] = pairs[k][1]
PairsForward == \A k \in 1 .. Len(pairs) - 1 :
    pairs[k][1] <= pairs[k + 1][1] /\ pairs[k][2] < pairs[k + 1][2]
(* No pairing opportunity is left after the last pair                      *)
Exhaustive == done => \A k \in 1 .. Len(og) : \A j \in Left :
    (pairs = << >> \/ og[k] >= pairs[Len(pairs)][1]) => Abs(T(k - 1) - et[j + 1]) > delta

RECURSIVE Mix(_, _)
Mix(s, acc) == IF s = << >> THEN acc ELSE Mix(Tail(s), (acc * 7 + Head(s) + 1) % 99991)
Hash == Mix(ot, Mix(et, Mix(og, 7 * Cardinality(eg) + delta)))
Emit == (done /\ Hash % EmitMod = 0) =>
    PrintT("@@" \o ToJson([ot |-> ot, og |-> [j \in 1 .. Len(ot) |-> \E k \in 1 .. Len(og) : og[k] = j - 1],
                           et |-> et, eg |-> [j \in 1 .. Len(et) |-> j - 1 \in eg],
                           delta |-> delta]))
=============================================================================
