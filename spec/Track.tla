-------------------------------- MODULE Track --------------------------------
(***************************************************************************)
(* The track of a satellite over the polar cap: the straight line through  *)
(* both of its boundary crossings, in the plane around the magnetic pole   *)
(* where x points to dawn and y to noon.                                   *)
(***************************************************************************)
EXTENDS Reals

(* Location of a latitude and local time                                   *)
TrackPoint(lat, mlt, hemi) ==
    LET d == RSub(90, RMul(hemi, lat))
        a == Hr2Rad(RSub(mlt, 6))
    IN  << RMul(d, RCos(a)), RMul(d, RSin(a)) >>

Apart(p, q) == RHypot(RSub(p[1], q[1]), RSub(p[2], q[2]))

(* How far p may be moved away from the line before it leaves the band     *)
(* that the box of the allowed distances dx and dy sweeps along the line   *)
BandMargin(p, a, b, dx, dy) ==
    LET ux == RSub(b[1], a[1])
        uy == RSub(b[2], a[2])
        off == RAbs(RSub(RMul(RSub(p[2], a[2]), ux), RMul(RSub(p[1], a[1]), uy)))
    IN  RDiv(RSub(RAdd(RMul(dy, RAbs(ux)), RMul(dx, RAbs(uy))), off), RHypot(ux, uy))

(* Latitude above the equatorward limit, set by the closest crossing       *)
LimitMargin(p, a, b, past) ==
    LET c == IF RLe(Apart(p, a), Apart(p, b)) THEN a ELSE b
    IN  RSub(RAdd(Apart(c, << 0, 0 >>), past), Apart(p, << 0, 0 >>))

Margin(p, a, b, dx, dy, past) == RMin(BandMargin(p, a, b, dx, dy), LimitMargin(p, a, b, past))
OnTrack(p, a, b, dx, dy, past) == RLe(0, Margin(p, a, b, dx, dy, past))

(* Where the line rises with x, the code moves it by the wrong corners of  *)
(* the box (known finding): the band is narrower, or empty                 *)
Rises(a, b) == RLt(0, RMul(RSub(b[1], a[1]), RSub(b[2], a[2])))
NarrowMargin(p, a, b, dx, dy) ==
    LET ux == RAbs(RSub(b[1], a[1]))
        uy == RAbs(RSub(b[2], a[2]))
        off == RAbs(RSub(RMul(RSub(p[2], a[2]), RSub(b[1], a[1])), RMul(RSub(p[1], a[1]), RSub(b[2], a[2]))))
    IN  RDiv(RSub(RSub(RMul(dy, ux), RMul(dx, uy)), off), RHypot(ux, uy))
AsIsMargin(p, a, b, dx, dy, past) == RMin(NarrowMargin(p, a, b, dx, dy), LimitMargin(p, a, b, past))
=============================================================================
