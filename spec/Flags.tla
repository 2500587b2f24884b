-------------------------------- MODULE Flags --------------------------------
(* Histories of constructors and operations over quaternions (registers 0..2)  *)
(* and dual quaternions (registers 3..5). The library remembers privately      *)
(* whether a value is normalised; the model has no such flag: a value is an     *)
(* integer tuple times sqrt(p/q), and every observation follows from the value. *)
EXTENDS Angle, Machine

VARIABLES Q, D
vars == <<step, out, Q, D>>

Val(v, p, q) == LET g == Max2(1, Gcd(p, q)) IN [v |-> v, p |-> p \div g, q |-> q \div g]
X(x) == OverRt(Qua(x.v), NQ(x.q, x.p))
XD(x) == OverRt(Dua(x.v), NQ(x.q, x.p))
Big(x) == MaxAbs(x.v) > 3000 \/ x.p > 20000 \/ x.q > 20000
N(x) == QN(SubSeq(x.v, 1, 4))
RQ(i) == R(i - 1)
RD(i) == R(i + 2)
\* |x|^2 = N p / q, kept away from the thresholds
Fine(x) == N(x) > 0 /\ N(x) <= 40000000 /\ N(x) * 50 > x.q \div x.p /\ N(x) \div x.q < 40000 \div x.p + 1

\* axes of integer length k
Axes == << <<1, 0, 0>>, <<0, -1, 0>>, <<0, 3, 4>>, <<1, 2, -2>>, <<2, -3, 6>>, <<-4, 0, 3>>, <<0, 0, 1>> >>
LenOf == << 1, 1, 5, 3, 7, 5, 1 >>

Init == step = 0 /\ out = <<>> /\ Q = [i \in 1..3 |-> Val(QOne, 1, 1)] /\ D = [i \in 1..3 |-> Val(DOne, 1, 1)]

SetQ(d, x, e) == /\ ~Big(x) /\ Q' = [Q EXCEPT ![d] = x] /\ UNCHANGED D /\ out' = << To(Exp(e, X(x)), d - 1) >>
SetD(d, x, e) == /\ ~Big(x) /\ D' = [D EXCEPT ![d] = x] /\ UNCHANGED Q /\ out' = << To(Exp(e, XD(x)), d + 2) >>
See(evs) == out' = evs /\ UNCHANGED <<Q, D>>
LoadQ(d) == \E v \in {RandV(4, -5, 5)} : LET x == Val(IF v = QZero THEN <<1, 2, 0, 0>> ELSE v, 1, 1) IN SetQ(d, x, Ev("id", <<X(x)>>))
LoadD(d) == \E v \in {RandV(8, -4, 4)} : LET x == Val(IF DR(v) = QZero THEN <<1, 2, 0, 0, 1, 1, 1, 1>> ELSE v, 1, 1) IN SetD(d, x, Ev("id", <<XD(x)>>))

\* ---- values of the operations
Norm(x) == Val(x.v, 1, N(x))
Inv(x) == LET g == GcdSeq(<<x.v[1], x.v[2], x.v[3], x.v[4]>>)  w == VDivI(x.v, g) IN
          \* conj(g w) / (g^2 |w|^2 p/q) * sqrt(p/q) = conj(w) * sqrt(q / (p |w|^4 g^2))
          Val(QConj(w), x.q, x.p * QN(w) * QN(w) * g * g)
InvSafe(x) == N(x) <= 140 /\ x.p <= 100
Same(x, y) == x.p = y.p /\ x.q = y.q

\* ---- dual quaternions: the dual part of a normalised value is orthogonal to the real one
RNorm(x) == LET n == N(x)  r == DR(x.v)  dd == DD(x.v)  s == Dot(r, dd) IN
            \* (n r, n d - (r.d) r) / n^(3/2)
            [v |-> TLCEval([i \in 1..8 |-> IF i <= 4 THEN n * r[i] ELSE n * dd[i - 4] - s * r[i - 4]]), n |-> n]
XDN(x) == LET y == RNorm(x) IN OverRt(Over(Dua(y.v), y.n), y.n)
NormD(x) == LET y == RNorm(x)  g == Max2(1, GcdSeq(y.v)) IN
            Val(VDivI(y.v, g), g * g, y.n * y.n * y.n)
XDI(x) == LET n == N(x)  c == QConj(DR(x.v)) IN
          \* value: (n c, -c d c) / n^2 * sqrt(q/p)
          OverRt(Over(Dua(VScale(c, n) \o VNeg(QMul(QMul(c, DD(x.v)), c))), n * n), NQ(x.p, x.q))
InvD(x) == LET n == N(x)  c == QConj(DR(x.v))  w == VScale(c, n) \o VNeg(QMul(QMul(c, DD(x.v)), c))  g == Max2(1, GcdSeq(w)) IN
           Val(VDivI(w, g), x.q * g * g, x.p * n * n * n * n)

\* ---- observations of the flag's effects
UnitObs(i) ==
  LET x == Q[i]  n == N(x)  v == Imag(x.v)  nn == Dot(v, v) IN
  << Exp(Ev("normalize", <<RQ(i)>>), Dir(Qua(x.v))),
     Exp(Ev("normalize_q", <<RQ(i)>>), Dir(Qua(x.v))),
     Exp(Ev("norm2", <<RQ(i)>>), Scl(NRt(1, n * x.p, x.q))),
     To(Exp(Ev("inverse", <<RQ(i)>>), OverRt(Over(Qua(QConj(x.v)), n), NQ(x.p, x.q))), 8),
     Exp(Ev("mul", <<RQ(i), R(8)>>), Qua(QOne)),
     Exp(Ev("get_angle", <<RQ(i)>>), Scl(NMul(2, NAt(NRt(1, nn, 1), x.v[1])))),
     Exp(Ev("id", <<RQ(i)>>), X(x)) >>
  \o (IF nn * 100 < n THEN <<>> ELSE << Exp(Ev("get_axis", <<RQ(i)>>), Dir(Vec(v))),
       Exp(Ev("ln", <<RQ(i)>>), LET a == NAt(NRt(1, nn, 1), x.v[1])  L == NMul(NQ(1, 2), NOp("ln", <<NQ(n * x.p, x.q)>>)) IN
          Qua(<<L, NMul(a, NRt(v[1], 1, nn)), NMul(a, NRt(v[2], 1, nn)), NMul(a, NRt(v[3], 1, nn))>>)) >>)
  \o << Exp(Ev("exp", << OverRt(Qua(Pure(v)), NQ(x.q, x.p)) >>), IF nn = 0 THEN Qua(QOne) ELSE
          LET t == NRt(1, nn * x.p, x.q) IN Qua(<<NOp("cos", <<t>>), NMul(NOp("sin", <<t>>), NRt(v[1], 1, nn)),
                                                   NMul(NOp("sin", <<t>>), NRt(v[2], 1, nn)), NMul(NOp("sin", <<t>>), NRt(v[3], 1, nn))>>)) >>
\* results of the transcendental and derived operations: a unit multiple, a true inverse
Probe(r) == << To(Ev("normalize", <<R(r)>>), 10), Exp(Ev("norm2", <<R(10)>>), Scl(1)),
               To(Ev("inverse", <<R(r)>>), 11), Cond(Exp(Ev("mul", <<R(r), R(11)>>), Qua(QOne)), 10),
               To(Ev("conj", <<R(10)>>), 12), To(Ev("mul", <<R(12), R(r)>>), 13),
               Cond(Exp(Ev("qimag", <<R(13)>>), Vec(<<0, 0, 0>>)), 100) >>
Fn(f, i, j, s) ==
  LET sm == Over(Qua(Q[i].v), Max2(1, MaxAbs(Q[i].v)))
      sj == Over(Qua(Q[j].v), Max2(1, MaxAbs(Q[j].v))) IN
  CASE f = 1 -> << To(Ev("exp", <<sm>>), 9) >>
    [] f = 2 -> << To(Ev("ln", <<RQ(i)>>), 14), To(Ev("muls", <<R(14), Scl(s)>>), 15), To(Ev("add", <<R(15), Qua(<<7, 0, 0, 0>>)>>), 9) >>
    [] f = 3 -> << To(Ev("sqrt", <<RQ(i)>>), 9) >>
    [] f = 4 -> << To(Ev("pow", <<sm, Qua(<<NQ(s, 2), 0, 0, 0>>)>>), 9) >>
    [] f = 5 -> << To(Ev("cos", <<sm>>), 14), To(Ev("add", <<R(14), Qua(<<0, 5, 0, 0>>)>>), 9) >>
    [] f = 6 -> << To(Ev("sin", <<sm>>), 14), To(Ev("add", <<R(14), Qua(<<0, 5, 0, 0>>)>>), 9) >>
    [] f = 7 -> << To(Ev("normalize", <<RQ(i)>>), 14), To(Ev("derivative", <<R(14), Vec(<<s, 1, 2>>)>>), 9) >>
    [] f = 8 -> << To(Ev("normalize", <<RQ(i)>>), 14), To(Ev("muls", <<R(14), Scl(s)>>), 9) >>
    [] f = 9 -> << To(Ev("normalize", <<RQ(i)>>), 14), To(Ev("normalize", <<RQ(j)>>), 15), To(Ev("add", <<R(14), R(15)>>), 14),
                   To(Ev("add", <<R(14), Qua(<<3, 0, 0, 0>>)>>), 9) >>
    [] f = 10 -> << To(Ev("normalize", <<RQ(i)>>), 14), To(Ev("divs", <<R(14), Scl(s)>>), 15), To(Ev("conj", <<R(15)>>), 9) >>
    [] f = 11 -> << To(Ev("normalize", <<RQ(i)>>), 14), To(Ev("div", <<RQ(j), R(14)>>), 9) >>
    [] f = 12 -> << To(Ev("argq", <<RQ(i)>>), 14), To(Ev("mul", <<R(14), RQ(j)>>), 15), To(Ev("neg", <<R(15)>>), 9) >>
    [] f = 13 -> << To(Ev("normalize", <<RD(1)>>), 14), To(Ev("muls", <<R(14), Scl(s)>>), 15), To(Ev("dreal", <<R(15)>>), 9) >>
    [] OTHER -> << To(Ev("normalize", <<RQ(i)>>), 14), To(Ev("rotation", <<Scl(s), Vec(<<1, 2, s>>)>>), 15), To(Ev("slerp", <<R(14), R(15), Scl(NQ(1, 3))>>), 14),
                     To(Ev("muls", <<R(14), Scl(s)>>), 9) >>

IsU(x) == N(x) * x.p = x.q
DObs(i) ==
  LET x == D[i] IN
  << Exp(Ev("normalize", <<RD(i)>>), XDN(x)),
     To(Exp(Ev("inverse", <<RD(i)>>), XDI(x)), 8),
     Cond(Exp(Ev("mul", <<RD(i), R(8)>>), Dua(DOne)), 10),
     Exp(Ev("dreal", <<RD(i)>>), OverRt(Qua(DR(x.v)), NQ(x.q, x.p))),
     Exp(Ev("id", <<RD(i)>>), XD(x)) >>
  \o (IF IsU(x) THEN <<>> ELSE << Exp(Ev("is_normalized", <<RD(i)>>), Boo(FALSE)) >>)

\* ---- equality and the predicates is_zero and is_one are about the value only; every operation here is exact
DZero == <<0, 0, 0, 0, 0, 0, 0, 0>>
EqP(x, y) == << Exp(Ev("eq", <<x, y>>), Boo(TRUE)), Exp(Ev("eq", <<y, x>>), Boo(TRUE)) >>
NeP(x, y) == << Exp(Ev("eq", <<x, y>>), Boo(FALSE)), Exp(Ev("eq", <<y, x>>), Boo(FALSE)) >>
Same2(r, zero, one) ==
  << To(Ev("conj", <<r>>), 9), To(Ev("conj", <<R(9)>>), 9), To(Ev("neg", <<r>>), 10), To(Ev("neg", <<R(10)>>), 10), To(Ev("add", <<r, zero>>), 11),
     To(Ev("muls", <<r, Scl(1)>>), 12), To(Ev("one", <<r>>), 13), To(Ev("mul", <<R(13), r>>), 14), To(Ev("mul", <<r, R(13)>>), 15), To(Ev("neg", <<r>>), 8) >>
  \o EqP(R(9), r) \o EqP(R(10), r) \o EqP(R(11), r) \o EqP(R(12), r) \o EqP(R(14), r) \o EqP(R(15), r) \o EqP(R(9), R(12)) \o EqP(R(14), R(11))
  \o NeP(R(8), r) \o EqP(R(13), one)
  \o << To(Ev("muls", <<r, Scl(NQ(1, 2))>>), 9), To(Ev("add", <<R(9), R(9)>>), 9), To(Ev("sub", <<r, r>>), 10), To(Ev("sub", <<R(13), one>>), 11) >>
  \o EqP(R(9), r) \o EqP(R(10), zero) \o EqP(R(11), R(10))
  \o << Exp(Ev("is_zero", <<R(10)>>), Boo(TRUE)), Exp(Ev("is_one", <<R(13)>>), Boo(TRUE)), Exp(Ev("is_one", <<one>>), Boo(TRUE)), Exp(Ev("is_zero", <<r>>), Boo(FALSE)),
         To(Ev("mul", <<R(13), one>>), 9), Exp(Ev("is_one", <<R(9)>>), Boo(TRUE)), To(Ev("neg", <<R(13)>>), 9), Exp(Ev("is_one", <<R(9)>>), Boo(FALSE)) >>
\* a multiple of a unit of the algebra is normalised without an error
UnitEq(k, s) ==
  LET e == VUnit(4, k)  z == [i \in 1..8 |-> IF i = k THEN 1 ELSE 0] IN
  << To(Ev("normalize", <<Qua(VScale(e, s))>>), 9), To(Ev("conj", <<R(9)>>), 10), To(Ev("mul", <<R(9), R(10)>>), 11), To(Ev("inverse", <<R(9)>>), 12) >>
  \o EqP(R(9), Qua(VScale(e, Sgn(s)))) \o EqP(R(12), R(10)) \o EqP(R(11), Qua(QOne)) \o << Exp(Ev("is_one", <<R(11)>>), Boo(TRUE)), Exp(Ev("is_one", <<R(10)>>), Boo(k = 1 /\ s > 0)) >>
  \o << To(Ev("normalize", <<Dua(VScale(z, s))>>), 9), To(Ev("conj", <<R(9)>>), 10), To(Ev("mul", <<R(9), R(10)>>), 11), To(Ev("inverse", <<R(9)>>), 12) >>
  \o EqP(R(9), Dua(VScale(z, Sgn(s)))) \o EqP(R(12), R(10)) \o EqP(R(11), Dua(DOne)) \o << Exp(Ev("is_one", <<R(11)>>), Boo(TRUE)), Exp(Ev("is_one", <<R(10)>>), Boo(k = 1 /\ s > 0)) >>
  \o << To(Ev("d_from_rotation", <<Qua(e)>>), 9), To(Ev("d_new", <<Qua(e), Qua(QZero)>>), 10), To(Ev("dreal", <<R(9)>>), 11) >>
  \o EqP(R(9), R(10)) \o EqP(R(11), Qua(e))
  \o << To(Ev("d_from_translation", <<Vec(<<k, s, 4>>)>>), 9), To(Ev("d_new", <<Qua(QOne), Over(Qua(<<0, k, s, 4>>), 2)>>), 10) >> \o EqP(R(9), R(10))

\* unit quaternions times 1, 2 (halves), 5 or 3
VPerm(k, t) == LET sg == Sgn(t) IN
  CASE k = 1 -> VScale(VUnit(4, 1 + (Abs(t) % 4)), sg) [] k = 2 -> <<sg, 1, -1, sg>> [] k = 3 -> <<3, 4 * sg, 0, 0>> [] k = 4 -> <<0, 0, 3, 4 * sg>>
    [] k = 5 -> <<4, 0, -3, 0>> [] k = 6 -> <<1, 2, 0, 2 * sg>> [] OTHER -> <<sg, 0, 0, 0>>
ISqrt(n) == CHOOSE r \in 1..5 : r * r = n

\* ---- steps
Do(o, i, j, d, s, t, a, b, ax) ==
  LET x == Q[i]  y == Q[j]  z == D[i]  w == D[j] IN
  \/ (o = "loadq" /\ LoadQ(d))
  \/ (o = "loadd" /\ LoadD(d))
  \/ (o = "one" /\ SetQ(d, Val(QOne, 1, 1), Ev("one", <<RQ(d)>>)))
  \/ (o = "rot" /\ SetQ(d, Val(<<a * LenOf[ax], b * Axes[ax][1], b * Axes[ax][2], b * Axes[ax][3]>>, 1, LenOf[ax] * LenOf[ax] * DZ(a, b)),
                        Ev("rotation", <<Scl(Th(a, b)), Vec(Axes[ax])>>)))
  \/ (o = "rne" /\ SetQ(d, Val(<<a * LenOf[ax], b * Axes[ax][1], b * Axes[ax][2], b * Axes[ax][3]>>, 1, LenOf[ax] * LenOf[ax] * DZ(a, b)),
                        Ev("rotation_ne", <<Over(Vec([k \in 1..3 |-> NMul(Axes[ax][k], Th(a, b))]), LenOf[ax])>>)))
  \/ (o = "euler" /\ LET e == QMul(QMul(QZ(a, b), QY(b, s)), QX(a, s)) IN SetQ(d, Val(e, 1, QN(e)), Ev("from_euler", <<Scl(Th(a, b)), Scl(Th(b, s)), Scl(Th(a, s))>>)))
  \/ (o = "normalize" /\ Fine(x) /\ SetQ(d, Norm(x), Ev("normalize", <<RQ(i)>>)))
  \/ (o = "normq" /\ Fine(x) /\ SetQ(d, Norm(x), Ev("normalize_q", <<RQ(i)>>)))
  \/ (o = "conj" /\ SetQ(d, Val(QConj(x.v), x.p, x.q), Ev("conj", <<RQ(i)>>)))
  \/ (o = "neg" /\ SetQ(d, Val(VNeg(x.v), x.p, x.q), Ev("neg", <<RQ(i)>>)))
  \/ (o = "mul" /\ SetQ(d, Val(QMul(x.v, y.v), x.p * y.p, x.q * y.q), Ev("mul", <<RQ(i), RQ(j)>>)))
  \/ (o = "muls" /\ SetQ(d, Val(VScale(x.v, s), x.p, x.q), Ev("muls", <<RQ(i), Scl(s)>>)))
  \/ (o = "divs" /\ SetQ(d, Val(VScale(x.v, Sgn(t)), x.p, x.q * t * t), Ev("divs", <<RQ(i), Scl(t)>>)))
  \* by fractions, one and minus one included: k / l
  \/ (o = "mulq" /\ LET k == IF ax % 2 = 0 THEN Sgn(s) ELSE s  l == 1 + (ax % 4) IN SetQ(d, Val(VScale(x.v, k), x.p, x.q * l * l), Ev("muls", <<RQ(i), Scl(NQ(k, l))>>)))
  \/ (o = "divq" /\ LET k == IF ax % 2 = 0 THEN Sgn(s) ELSE s  l == 1 + (ax % 4) IN SetQ(d, Val(VScale(x.v, l * Sgn(k)), x.p, x.q * k * k), Ev("divs", <<RQ(i), Scl(NQ(k, l))>>)))
  \/ (o = "dmulq" /\ LET k == IF ax % 2 = 0 THEN Sgn(s) ELSE s  l == 1 + (ax % 4) IN SetD(d, Val(VScale(z.v, k), z.p, z.q * l * l), Ev("muls", <<RD(i), Scl(NQ(k, l))>>)))
  \/ (o = "add" /\ Same(x, y) /\ x.v # VNeg(y.v) /\ SetQ(d, Val(VAdd(x.v, y.v), x.p, x.q), Ev("add", <<RQ(i), RQ(j)>>)))
  \/ (o = "sub" /\ Same(x, y) /\ x.v # y.v /\ SetQ(d, Val(VSub(x.v, y.v), x.p, x.q), Ev("sub", <<RQ(i), RQ(j)>>)))
  \/ (o = "addi" /\ SetQ(d, Val(VScale(x.v, 2), x.p, x.q), Ev("add", <<RQ(i), RQ(i)>>)))
  \/ (o = "inv" /\ Fine(x) /\ InvSafe(x) /\ SetQ(d, Inv(x), Ev("inverse", <<RQ(i)>>)))
  \/ (o = "derive" /\ IsU(x) /\ s # 0 /\ SetQ(d, Val(QMul(Pure(<<s, a, b>>), x.v), x.p, 4 * x.q), Ev("derivative", <<RQ(i), Vec(<<s, a, b>>)>>)))
  \/ (o = "obs" /\ Fine(x) /\ See(UnitObs(i)))
  \/ (o = "fn" /\ Fine(x) /\ Fine(y) /\ Fine(D[1]) /\ Abs(x.v[1]) < 1000 /\ (\E f \in Pick(1..14) : See(Fn(f, i, j, s) \o Probe(9))))
  \/ (o = "eqq" /\ See(Same2(RQ(i), Qua(QZero), Qua(QOne)) \o UnitEq(1 + (ax % 4), Sgn(s) * 2^(1 + (ax % 3)))))
  \/ (o = "eqd" /\ See(Same2(RD(i), Dua(DZero), Dua(DOne))))
  \/ (o = "eqqd" /\ See((IF Same(x, y) /\ x.v # y.v THEN NeP(RQ(i), RQ(j)) ELSE <<>>) \o (IF Same(z, w) /\ z.v # w.v THEN NeP(RD(i), RD(j)) ELSE <<>>)))
  \* dual quaternions
  \/ (o = "done" /\ SetD(d, Val(DOne, 1, 1), Ev("one", <<RD(d)>>)))
  \/ (o = "dnew" /\ Same(x, y) /\ SetD(d, Val(x.v \o y.v, x.p, x.q), Ev("d_new", <<RQ(i), RQ(j)>>)))
  \/ (o = "drot" /\ IsU(x) /\ SetD(d, Val(x.v \o QZero, x.p, x.q), Ev("d_from_rotation", <<RQ(i)>>)))
  \/ (o = "dtrans" /\ SetD(d, Val(<<2, 0, 0, 0, 0, a, b, s>>, 1, 4), Ev("d_from_translation", <<Vec(<<a, b, s>>)>>)))
  \/ (o = "dpoint" /\ SetD(d, Val(<<1, 0, 0, 0, 0, a, b, s>>, 1, 1), Ev("d_from_point", <<Vec(<<a, b, s>>)>>)))
  \* from a rotation that need not be normalised, and a translation
  \/ (o = "drt" /\ Fine(x) /\ SetD(d, Val(VScale(x.v, 2) \o QMul(<<0, a, b, s>>, x.v), 1, 4 * N(x)), Ev("d_from_rt", <<RQ(i), Vec(<<a, b, s>>)>>)))
  \/ (o = "dnorm" /\ Fine(z) /\ N(z) <= 600 /\ SetD(d, NormD(z), Ev("normalize", <<RD(i)>>)))
  \/ (o = "dinv" /\ Fine(z) /\ N(z) <= 60 /\ z.p <= 60 /\ SetD(d, InvD(z), Ev("inverse", <<RD(i)>>)))
  \/ (o = "dconj" /\ SetD(d, Val(DConj(z.v), z.p, z.q), Ev("conj", <<RD(i)>>)))
  \/ (o = "ddual" /\ SetD(d, Val(DDualConj(z.v), z.p, z.q), Ev("conj_dual", <<RD(i)>>)))
  \/ (o = "dcomb" /\ SetD(d, Val(DCombConj(z.v), z.p, z.q), Ev("conj_comb", <<RD(i)>>)))
  \/ (o = "dneg" /\ SetD(d, Val(VNeg(z.v), z.p, z.q), Ev("neg", <<RD(i)>>)))
  \/ (o = "dmul" /\ SetD(d, Val(DMul(z.v, w.v), z.p * w.p, z.q * w.q), Ev("mul", <<RD(i), RD(j)>>)))
  \/ (o = "dmuls" /\ SetD(d, Val(VScale(z.v, s), z.p, z.q), Ev("muls", <<RD(i), Scl(s)>>)))
  \/ (o = "dadd" /\ Same(z, w) /\ SubSeq(z.v, 1, 4) # VNeg(SubSeq(w.v, 1, 4)) /\ SetD(d, Val(VAdd(z.v, w.v), z.p, z.q), Ev("add", <<RD(i), RD(j)>>)))
  \/ (o = "dsub" /\ Same(z, w) /\ SubSeq(z.v, 1, 4) # SubSeq(w.v, 1, 4) /\ SetD(d, Val(VSub(z.v, w.v), z.p, z.q), Ev("sub", <<RD(i), RD(j)>>)))
  \/ (o = "dadd2" /\ SetD(d, Val(VScale(z.v, 2), z.p, z.q), Ev("add", <<RD(i), RD(i)>>)))
  \/ (o = "dobs" /\ Fine(z) /\ MaxAbs(z.v) <= 100 /\ N(z) <= 10000 /\ See(DObs(i)))
  \* a unit with a dual part orthogonal to it, every component representable
  \/ (o = "dunit" /\ LET r == IF ax <= 4 THEN [k \in 1..4 |-> IF k = ax THEN 2 * Sgn(t) ELSE 0] ELSE <<Sgn(s), Sgn(t), IF a > 0 THEN 1 ELSE -1, Sgn(b)>> IN
        See(<< Exp(Ev("is_normalized", <<Over(Dua(r \o QMul(<<0, a, b, s>>, r)), 2)>>), Boo(TRUE)),
               Exp(Ev("is_normalized", <<Over(Dua(VScale(r \o QMul(<<0, a, b, s>>, r), 3)), 2)>>), Boo(FALSE)) >>))
  \/ (o = "ddiv" /\ Fine(w) /\ N(w) <= 60 /\ w.p <= 60 /\ LET m == InvD(w)  v == DMul(z.v, m.v)  g == Max2(1, GcdSeq(v)) IN
        m.p * z.p < 10000 /\ m.q < 30000 /\ z.q < 30000 /\ SetD(d, Val(VDivI(v, g), z.p * m.p * g * g, z.q * m.q), Ev("div", <<RD(i), RD(j)>>)))
  \/ (o = "qdiv" /\ Fine(y) /\ InvSafe(y) /\ LET m == Inv(y) IN x.p * m.p < 10000 /\ SetQ(d, Val(QMul(x.v, m.v), x.p * m.p, x.q * m.q), Ev("div", <<RQ(i), RQ(j)>>)))
  \* exactly of unit norm (a real part, in a dual quaternion with any dual part), but nobody has said so
  \/ (o = "loadu" /\ LET u == VPerm(ax, t) IN SetQ(d, Val(u, 1, QN(u)), Ev("id", <<Over(Qua(u), ISqrt(QN(u)))>>)))
  \/ (o = "loadud" /\ \E v \in {RandV(4, -4, 4)} : LET u == VPerm(ax, t)  l == ISqrt(QN(u)) IN SetD(d, Val(u \o v, 1, l * l), Ev("id", <<Over(Dua(u \o v), l)>>)))
  \* the real part taken out of a dual quaternion carries its own flag
  \/ (o = "dreal" /\ SetQ(d, Val(DR(z.v), z.p, z.q), Ev("dreal", <<RD(i)>>)))

Ops == {"loadq", "loadd", "one", "rot", "rne", "euler", "normalize", "normq", "conj", "neg", "mul", "muls", "divs", "add", "sub", "addi", "inv",
        "derive", "obs", "fn", "done", "dnew", "drot", "dtrans", "dpoint", "drt", "dnorm", "dinv", "dconj", "ddual", "dcomb", "dneg", "dmul",
        "dmuls", "dadd", "dsub", "dadd2", "dobs", "dreal", "dunit", "mulq", "divq", "dmulq", "eqq", "eqd", "eqqd", "ddiv", "qdiv", "loadu", "loadud"}
\* a modification of register d is followed by observations of it
Prev == step % 2 = 1
Step == \E o \in Pick(Ops) : \E i \in Pick(1..3) : \E j \in Pick(1..3) : \E d \in Pick(1..3) :
        \E s \in Pick({-3, -2, 2, 3, 5}) : \E t \in Pick({-3, -2, 2, 4}) : \E a \in Pick(-3..3) : \E b \in Pick({-3, -2, -1, 1, 2, 3, 4}) :
        \E ax \in Pick(1..7) :
        IF ENABLED Do(o, i, j, d, s, t, a, b, ax) THEN Do(o, i, j, d, s, t, a, b, ax)
        ELSE IF o \in {"one", "rot", "mul", "add", "sub", "normalize", "obs", "fn", "inv"} THEN LoadQ(d) ELSE LoadD(d)
\* look at everything that was just touched
Look == LET fq == {i \in 1..3 : Fine(Q[i])}  fd == {i \in 1..3 : Fine(D[i]) /\ MaxAbs(D[i].v) <= 100 /\ N(D[i]) <= 10000} IN
        See((IF 1 \in fq THEN UnitObs(1) ELSE <<>>) \o (IF 2 \in fq THEN UnitObs(2) ELSE <<>>) \o (IF 3 \in fq THEN UnitObs(3) ELSE <<>>)
            \o (IF 1 \in fd THEN DObs(1) ELSE <<>>) \o (IF 2 \in fd THEN DObs(2) ELSE <<>>) \o (IF 3 \in fd THEN DObs(3) ELSE <<>>))
Next == /\ step' = step + 1
        /\ IF step = 0 THEN See(<<EvNew(0, Floats)>>)
           ELSE IF step <= 3 THEN LoadQ(step) ELSE IF step <= 6 THEN LoadD(step - 3)
           ELSE IF step % 4 = 0 THEN Look ELSE Step
Spec == Init /\ [][Next]_vars

\* the formulas for inverse and normalised values
Laws == /\ (step % 9 # 5 \/ MaxAbs(Q[1].v) > 100 \/ QMul(Q[1].v, QConj(Q[1].v)) = VScale(QOne, N(Q[1])))
        /\ (step # 7 \/ LET x == D[1]  c == QConj(DR(x.v))  n == N(x) IN
              DMul(x.v, VScale(c, n) \o VNeg(QMul(QMul(c, DD(x.v)), c))) = VScale(DOne, n * n))
=============================================================================
