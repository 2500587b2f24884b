-------------------------------- MODULE Angle --------------------------------
(* Angles whose half-angle cosine and sine are a/|z| and b/|z| for integers   *)
(* (a, b) = z: theta = 2 atan2(b, a) + 4 pi k. All rotations built from them   *)
(* have exact values in Z, Q or Z * sqrt(Q).                                  *)
EXTENDS Quat, Wire

Th(a, b) == NMul(2, NAt(b, a))
ThK(a, b, k) == IF k = 0 THEN Th(a, b) ELSE NAdd(Th(a, b), NPi(4 * k, 1))
\* + an odd number of full turns
ThOdd(a, b) == NAdd(Th(a, b), NPi(2, 1))
DZ(a, b) == a * a + b * b
CosN(a, b) == a * a - b * b          \* over DZ
SinN(a, b) == 2 * a * b              \* over DZ

\* the unit quaternion of theta about w (any non-zero integer vector)
QAx(a, b, w) == LET D == DZ(a, b)  nn == Dot(w, w)  e(i) == NMul(NRt(b, 1, D), NRt(w[i], 1, nn)) IN
  Qua(<< NRt(a, 1, D), e(1), e(2), e(3) >>)
UAx(w) == Dir(Vec(w))
\* its rotation matrix: cos I + sin [w] + (1 - cos) w w^T
RAx(a, b, w) == LET D == DZ(a, b)  nn == Dot(w, w)  H == Hat(w)
                    e(i, j) == NOp("+", << IF i = j THEN NQ(CosN(a, b), D) ELSE 0,
                                               NMul(NQ(2 * b * b, D), NQ(w[i] * w[j], nn)),
                                               NMul(NQ(SinN(a, b), D), NRt(H[i][j], 1, nn)) >>) IN
                Mat([i \in 1..3 |-> [j \in 1..3 |-> e(i, j)]])
\* elementary rotations as integer quaternions
QX(a, b) == <<a, b, 0, 0>>
QY(a, b) == <<a, 0, b, 0>>
QZ(a, b) == <<a, 0, 0, b>>
UQ(q) == OverRt(Qua(q), QN(q))
RM(q) == Over(Mat(RotN(q)), QN(q))
=============================================================================
