------------------------------ MODULE MCTrack ------------------------------
(***************************************************************************)
(* Points of a grid and tracks between grid points: what the definition of *)
(* a track implies, whatever the direction in which the satellite moves.   *)
(***************************************************************************)
EXTENDS Track, TLC, Json

CONSTANTS Size, EmitMod

Grid == { << x, y >> \in (-Size .. Size) \X (-Size .. Size) : TRUE }
VARIABLES p, a, b, dx, dy, past
Init == /\ p = << 0, 0 >> /\ a \in Grid /\ b \in Grid /\ a # b
        /\ dx \in { 0, 1, 3 } /\ dy \in { 0, 1, 2 } /\ past \in { 0, 1, 5 }
Next == \E d \in { << 1, 0 >>, << 0, 1 >>, << -1, 0 >>, << 0, -1 >> } :
          /\ << p[1] + d[1], p[2] + d[2] >> \in Grid
          /\ p' = << p[1] + d[1], p[2] + d[2] >>
          /\ UNCHANGED << a, b, dx, dy, past >>

Near == RFrac(1, 1000000)
M(pp, aa, bb, x, y, h) == Margin(pp, aa, bb, x, y, h)
Same(m, n) == RClose(m, n, Near)
Flip(q) == << -q[1], q[2] >>
Swap(q) == << q[2], q[1] >>
Turn(q) == << -q[1], -q[2] >>
Equidistant == Same(Apart(p, a), Apart(p, b))

CrossingsOn == RLe(RNeg(Near), M(a, a, b, dx, dy, past))
EitherWay == ~Equidistant => Same(M(p, a, b, dx, dy, past), M(p, b, a, dx, dy, past))
Mirrored == Same(M(p, a, b, dx, dy, past), M(Flip(p), Flip(a), Flip(b), dx, dy, past))
Exchanged == Same(M(p, a, b, dx, dy, past), M(Swap(p), Swap(a), Swap(b), dy, dx, past))
Turned == Same(M(p, a, b, dx, dy, past), M(Turn(p), Turn(a), Turn(b), dx, dy, past))
Wider == /\ RLe(M(p, a, b, dx, dy, past), RAdd(M(p, a, b, dx + 1, dy, past), Near))
         /\ RLe(M(p, a, b, dx, dy, past), RAdd(M(p, a, b, dx, dy + 1, past), Near))
         /\ RLe(M(p, a, b, dx, dy, past), RAdd(M(p, a, b, dx, dy, past + 1), Near))
(* The narrow band never holds a point that is not on the track            *)
NarrowInside == RLe(AsIsMargin(p, a, b, dx, dy, past), RAdd(M(p, a, b, dx, dy, past), Near))
Poleward == M(<< 0, 0 >>, a, b, dx, dy, past) = BandMargin(<< 0, 0 >>, a, b, dx, dy)
            \/ RLe(LimitMargin(<< 0, 0 >>, a, b, past), BandMargin(<< 0, 0 >>, a, b, dx, dy))

Code == (p[1] + 50) * 7 + (p[2] + 50) * 13 + (a[1] + 50) * 3 + (a[2] + 50) * 5 + (b[1] + 50) * 11 + b[2] + 17 * dx + 19 * dy + 23 * past
Emit == (Code % EmitMod = 0) => PrintT("@@" \o ToJson([p |-> p, a |-> a, b |-> b, dx |-> dx, dy |-> dy, past |-> past]))
=============================================================================
