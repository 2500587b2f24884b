-------------------------------- MODULE QuatFn --------------------------------
(* exp, ln, sqrt, pow, sin, cos of quaternions. The value of a function of     *)
(* q = (w + v) / m is given by the real functions of w/m and |v|/m along the    *)
(* direction v; algebraic cases (powers, roots of squares) are exact integers. *)
EXTENDS Angle, Machine

CONSTANTS LIM

VARIABLES q, m
vars == <<step, out, q, m>>

F(op, x) == NOp(op, <<x>>)
\* real part a, imaginary part b along v (b times v/|v|)
Along(a, b, v) == LET nn == Dot(v, v) IN
  Qua(<<a, NMul(b, NRt(v[1], 1, nn)), NMul(b, NRt(v[2], 1, nn)), NMul(b, NRt(v[3], 1, nn))>>)
RealQ(a) == Qua(<<a, 0, 0, 0>>)

Obs(a, d, c) ==   \* the quaternion a / d; c: a second real number
  LET v == Imag(a)
      nn == Dot(v, v)
      real == nn = 0
      x == Over(Qua(a), d)
      w == NQ(a[1], d)
      n == NRt(1, nn, d * d)
      N == QN(a)
      pos == a[1] > 0
      lnr == NSub(NMul(NQ(1, 2), F("ln", N)), F("ln", d))
      arg == NAt(NRt(1, nn, 1), a[1])
      calm == nn <= 9 * d * d /\ Abs(a[1]) <= 3 * d
  IN
  << To(Exp(Ev("id", <<x>>), x), 0) >>
  \o (IF nn > 40 * d * d \/ Abs(a[1]) > 5 * d THEN <<>> ELSE
      << To(Exp(Ev("exp", <<R(0)>>), IF real THEN RealQ(F("exp", w))
                ELSE Along(NMul(F("exp", w), F("cos", n)), NMul(F("exp", w), F("sin", n)), v)), 1) >>
      \o (IF nn * 100 >= 900 * d * d \/ Abs(a[1]) > 3 * d THEN <<>> ELSE << Exp(Ev("ln", <<R(1)>>), x) >>))
  \o (IF N = 0 THEN <<>> ELSE
      (IF real /\ ~pos THEN << To(Ev("ln", <<R(0)>>), 2) >>
       ELSE << To(Exp(Ev("ln", <<R(0)>>), IF real THEN RealQ(lnr) ELSE Along(lnr, arg, v)), 2) >>)
      \o << Exp(Ev("exp", <<R(2)>>), x),
            To(Ev("sqrt", <<R(0)>>), 3), Exp(Ev("mul", <<R(3), R(3)>>), x),
            Exp(Ev("normalize_q", <<R(0)>>), Dir(Qua(a))),
            Exp(Ev("argq", <<R(0)>>), IF real THEN Qua(<<0, 1, 0, 0>>) ELSE Dir(Qua(Pure(v)))),
            \* integer powers
            Exp(Ev("pow", <<R(0), Qua(QZero)>>), Qua(QOne)),
            Exp(Ev("pow", <<R(0), Qua(QOne)>>), x),
            Exp(Ev("pow", <<R(0), Qua(<<2, 0, 0, 0>>)>>), Over(Qua(QPow(a, 2)), d * d)),
            Exp(Ev("pow", <<R(0), Qua(<<-1, 0, 0, 0>>)>>), Over(Qua(VScale(QConj(a), d)), N)) >>
      \o (IF MaxAbs(a) > 12 THEN <<>> ELSE
         << Exp(Ev("pow", <<R(0), Qua(<<3, 0, 0, 0>>)>>), Over(Qua(QPow(a, 3)), d * d * d)),
            Exp(Ev("pow", <<R(0), Qua(<<4, 0, 0, 0>>)>>), Over(Qua(QPow(a, 4)), d * d * d * d)) >>)
      \* principal roots: sqrt(q^2) = q in the right half space, (q^3)^(1/3) = q within 60 degrees
      \o (IF ~pos \/ MaxAbs(a) > 100 THEN <<>> ELSE
         << Exp(Ev("sqrt", <<Over(Qua(QMul(a, a)), d * d)>>), x),
            Exp(Ev("pow", <<Over(Qua(QMul(a, a)), d * d), Qua(<<NQ(1, 2), 0, 0, 0>>)>>), x) >>)
      \o (IF ~pos \/ MaxAbs(a) > 12 \/ 5 * a[1] * a[1] <= 2 * nn THEN <<>> ELSE
         << Exp(Ev("pow", <<Over(Qua(QPow(a, 3)), d * d * d), Qua(<<NQ(1, 3), 0, 0, 0>>)>>), x) >>))
  \o (IF ~calm THEN <<>> ELSE
      LET sh == F("sinh", n)  ch == F("cosh", n)  s == F("sin", w)  co == F("cos", w) IN
      << To(Exp(Ev("sin", <<R(0)>>), IF real THEN RealQ(s) ELSE Along(NMul(s, ch), NMul(co, sh), v)), 4),
         To(Exp(Ev("cos", <<R(0)>>), IF real THEN RealQ(co) ELSE Along(NMul(co, ch), NMul(-1, NMul(s, sh)), v)), 5),
         To(Ev("mul", <<R(4), R(4)>>), 6), To(Ev("mul", <<R(5), R(5)>>), 7),
         Cond(Exp(Ev("add", <<R(6), R(7)>>), Qua(QOne)), 500),
         \* exp(q) exp(c q) = exp((1 + c) q), and e^{q + r} = e^q e^r for a real r
         To(Ev("exp", <<R(0)>>), 8), To(Ev("exp", <<Over(Qua(VScale(a, c)), 4 * d)>>), 9),
         To(Ev("exp", <<Over(Qua(VScale(a, 4 + c)), 4 * d)>>), 10),
         To(Ev("mul", <<R(8), R(9)>>), 11), To(Ev("mul", <<R(9), R(8)>>), 12),
         To(Ev("sub", <<R(11), R(10)>>), 13), Cond(Exp(Ev("id", <<R(13)>>), Qua(QZero)), 1000),
         To(Ev("sub", <<R(12), R(10)>>), 13), Cond(Exp(Ev("id", <<R(13)>>), Qua(QZero)), 1000) >>)

InitS == SIM /\ q = QOne /\ m = 1 /\ step = 0 /\ out = <<>>
InitX == /\ ~SIM /\ step = 0 /\ q \in [1..4 -> (-LIM)..LIM] /\ m \in {1, 2}
         /\ out = <<EvNew(0, Floats)>> \o Obs(q, m, 3)
Init == InitS \/ InitX
Next == /\ SIM /\ step' = step + 1
        /\ IF step = 0 THEN UNCHANGED <<q, m>> /\ out' = <<EvNew(0, Floats)>>
           ELSE \E h \in Pick(0..5) : \E a \in {RandV(4, -12, 12)} : \E z \in {RandV(4, 0, 2)} : \E d \in Pick({1, 2, 3, 5, 8}) :
                \E c \in Pick({-4, -2, -1, 1, 2, 4}) :
                LET b == TLCEval(IF h = 0 THEN <<a[1], 0, 0, 0>> ELSE IF h = 1 THEN [i \in 1..4 |-> IF z[i] = 0 THEN 0 ELSE a[i]]
                                 ELSE IF h = 2 THEN [a EXCEPT ![1] = 10 * a[1]]
                                 ELSE IF h = 3 THEN [i \in 1..4 |-> 8 * a[i]] ELSE a) IN
                q' = b /\ m' = d /\ out' = Obs(b, d, c)
Spec == Init /\ [][Next]_vars
Laws == MaxAbs(q) > 40 \/ QMul(q, QPow(q, 2)) = QPow(q, 3)
=============================================================================
