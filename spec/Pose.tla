--------------------------------- MODULE Pose ---------------------------------
(* Rigid motions of space: x -> R x + t with R the rotation of an integer      *)
(* quaternion q and t = v / d.                                                *)
EXTENDS Angle

RedV(q, v, d) == LET g == Max2(1, Gcd(d, GcdSeq(v))) IN [q |-> QRed(q), v |-> VDivI(v, g), d |-> d \div g]
PId == [q |-> QOne, v |-> <<0, 0, 0>>, d |-> 1]
PMul(a, b) == LET n == QN(a.q) IN
  RedV(QMul(a.q, b.q), VAdd(VScale(a.v, n * b.d), VScale(RotV(a.q, b.v), a.d)), a.d * n * b.d)
PInv(a) == RedV(QConj(a.q), VNeg(RotV(QConj(a.q), a.v)), a.d * QN(a.q))
\* can the product be formed within machine integers?
\* (products of bounds are formed stepwise so that the test itself cannot overflow)
Le(x, y, lim) == IF x = 0 THEN TRUE ELSE y <= lim \div x
MulSafe(a, b) ==
  LET n == QN(a.q) IN
  /\ n <= 20000 /\ QN(b.q) <= 20000
  /\ Le(n, b.d, 1000000) /\ Le(n * b.d, a.d, 1000000)
  /\ Le(n * b.d, MaxAbs(a.v), 400000000)
  /\ Le(3 * n, MaxAbs(b.v), 1000000) /\ Le(3 * n * MaxAbs(b.v), a.d, 400000000)
InvSafeP(a) == MulSafe(a, a)

\* scaled translation component and the matrices
Tn(x, d, s) == IF s = 0 THEN NQ(x, d) ELSE NMul(NQ(x, d), NP2(1, s))
TV(a, s) == Tl(Vec([i \in 1..3 |-> Tn(a.v[i], a.d, s)]), s)
RotQ(a, i, j) == NQ(RotN(a.q)[i][j], QN(a.q))
HM(a, s) == LET Ro == RotN(a.q)  n == QN(a.q) IN
  Tl(Mat([i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 1>> ELSE
        << NQ(Ro[i][1], n), NQ(Ro[i][2], n), NQ(Ro[i][3], n), Tn(a.v[i], a.d, s) >>]), s)
\* R p + t and R^T (p - t), p an integer vector scaled like the translation
PApp(a, p) == [v |-> VAdd(VScale(a.v, QN(a.q)), VScale(RotV(a.q, p), a.d)), d |-> a.d * QN(a.q)]
PBack(a, p) == [v |-> RotV(QConj(a.q), VSub(VScale(p, a.d), a.v)), d |-> a.d * QN(a.q)]
NV(x, s) == Tl(Vec([i \in 1..3 |-> Tn(x.v[i], x.d, s)]), s)
\* the unit dual quaternion q/|q| + e t q / (2 |q|)
DP(a, s) == LET n == QN(a.q)  e == QMul(Pure(a.v), a.q)  k == NRt(1, 1, n) IN
  Tl(Dua([i \in 1..8 |-> IF i <= 4 THEN NMul(a.q[i], k) ELSE NMul(Tn(e[i - 4], 2 * a.d, s), k)]), s)
DSafe(a) == Le(QN(a.q), MaxAbs(a.v), 400000000) /\ a.d <= 100000000
PNeg(a) == [a EXCEPT !.q = VNeg(a.q)]

(* ---- screws: half angle z = (c, s) direction, axis w through the point c, displacement e/f *)
ScQ(z, w, L) == <<z[1] * L, z[2] * w[1], z[2] * w[2], z[2] * w[3]>>       \* L = |w|
\* the k-th power: rotation q^k, translation (I - R^k) c + k (e/f) w / L
ScPow(z, w, L, c, e, f, k) ==
  LET g == ScQ(z, w, L)
      q == QRed(QPow(QRed(IF k < 0 THEN QConj(g) ELSE g), Abs(k)))
      n == QN(q) IN
  RedV(q, VAdd(VScale(VSub(VScale(c, n), RotV(q, c)), f * L), VScale(w, k * e * n)), n * f * L)
=============================================================================
