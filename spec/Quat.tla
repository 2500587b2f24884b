-------------------------------- MODULE Quat --------------------------------
(* Hamilton's quaternions and dual quaternions over the integers, and the     *)
(* rotation / rigid motion they stand for. A quaternion is <<w, x, y, z>>.    *)
EXTENDS Lin

QMul(a, b) == TLCEval(<< a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4],
                 a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
                 a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2],
                 a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1] >>)
QConj(a) == TLCEval(<< a[1], -a[2], -a[3], -a[4] >>)
QN(a) == Dot(a, a)
QOne == <<1, 0, 0, 0>>
QZero == <<0, 0, 0, 0>>
Pure(v) == <<0, v[1], v[2], v[3]>>
Imag(q) == <<q[2], q[3], q[4]>>
RECURSIVE QPow(_, _)
QPow(a, k) == IF k = 0 THEN QOne ELSE QMul(QPow(a, k - 1), a)

\* q / gcd of its entries (same direction, same sign)
QRed(q) == VDivI(q, Max2(1, GcdSeq(q)))

\* rotation matrix of q, times QN(q); column j is q e_j conj(q)
RotN(q) == LET c(j) == TLCEval(Imag(QMul(QMul(q, Pure(VUnit(3, j))), QConj(q))))
               c1 == c(1)  c2 == c(2)  c3 == c(3)
           IN TLCEval(<< <<c1[1], c2[1], c3[1]>>, <<c1[2], c2[2], c3[2]>>, <<c1[3], c2[3], c3[3]>> >>)
RotV(q, v) == Imag(QMul(QMul(q, Pure(v)), QConj(q)))    \* times QN(q)

\* ---- dual quaternions <<r, d>>: r + eps d, eps^2 = 0, as sequences of eight
DR(x) == SubSeq(x, 1, 4)
DD(x) == SubSeq(x, 5, 8)
DMul(x, y) == TLCEval(QMul(DR(x), DR(y)) \o VAdd(QMul(DR(x), DD(y)), QMul(DD(x), DR(y))))
DConj(x) == QConj(DR(x)) \o QConj(DD(x))
DDualConj(x) == DR(x) \o VNeg(DD(x))
DCombConj(x) == QConj(DR(x)) \o VNeg(QConj(DD(x)))
DOne == <<1, 0, 0, 0, 0, 0, 0, 0>>

\* skew matrix of a 3-vector
Hat(v) == << <<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>> >>
=============================================================================
