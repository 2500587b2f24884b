-------------------------------- MODULE Slerp --------------------------------
(* Interpolation on the unit sphere: end points a and +-a r^n for an integer   *)
(* quaternion r whose n-th power is still within 90 degrees; the model knows   *)
(* every intermediate point a r^k exactly.                                     *)
EXTENDS Angle, Machine

CONSTANTS LIM

VARIABLES p, q
vars == <<step, out, p, q>>

RECURSIVE NPow(_, _)
NPow(x, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN x ELSE NMul(x, NPow(x, k - 1))
\* a r^k as a unit quaternion
Pt(a, r, k) == OverRt(Qua(QMul(a, QPow(r, k))), NMul(QN(a), NPow(QN(r), k)))
MPt(a, r, k) == OverRt(Qua(VNeg(QMul(a, QPow(r, k)))), NMul(QN(a), NPow(QN(r), k)))
\* the arc to r^n is the short one
Short(r, n) == \A k \in 1..n : QPow(r, k)[1] > 0
Close(r) == r # QOne /\ r[1] >= 400
T(e, r) == IF Close(r) THEN Tol(e, 6, 3) ELSE e

Arc(a, r, n, s) ==
  LET A == Pt(a, r, 0)
      B == IF s > 0 THEN Pt(a, r, n) ELSE MPt(a, r, n) IN
  << To(Exp(Ev("id", <<A>>), A), 0), To(Exp(Ev("id", <<B>>), B), 1),
     T(Exp(Ev("slerp", <<R(0), R(1), Scl(0)>>), A), r),
     T(Exp(Ev("slerp", <<R(0), R(1), Scl(1)>>), PM(B)), r) >>
  \o (IF n = 1 THEN <<>> ELSE
      [i \in 1..(2 * (n - 1)) |->
        LET k == (i + 1) \div 2 IN
        IF i % 2 = 1 THEN T(To(Exp(Ev("slerp", <<R(0), R(1), Scl(NQ(k, n))>>), Pt(a, r, k)), 2), r)
        ELSE T(Exp(Ev("norm2", <<R(2)>>), Scl(1)), r)])
  \* the reverse journey, from b back to a
  \o (IF n = 1 THEN <<>> ELSE
      << T(Exp(Ev("slerp", <<R(1), R(0), Scl(NQ(1, n))>>), IF s > 0 THEN Pt(a, r, n - 1) ELSE MPt(a, r, n - 1)), r) >>)
\* equal or opposite end points: the same rotation throughout
Same(a, s) ==
  LET A == Pt(a, QOne, 0)  B == IF s > 0 THEN A ELSE MPt(a, QOne, 0) IN
  [i \in 1..5 |-> Tol(Exp(Ev("slerp", <<A, B, Scl(NQ(i - 1, 4))>>), IF s > 0 \/ i = 1 THEN A ELSE PM(A)), 6, 3)]

\* any two end points, any fraction t = i/j: the point in closed form. Orthogonal end points have two shortest arcs.
Wide(a, b, i, j) ==
  LET d == Dot(a, b)  s2 == QN(a) * QN(b) - d * d
      th == NAt(NRt(1, s2, 1), Abs(d))
      sn == NOp("sin", <<th>>)
      fr(u, v) == NDiv(NOp("sin", <<NMul(NQ(u, v), th)>>), sn)
      x == fr(j - i, j)  y == fr(i, j)
      A == OverRt(Qua(a), QN(a))  B == OverRt(Qua(b), QN(b))
      pt(sg) == Qua([m \in 1..4 |-> NAdd(NMul(x, NRt(a[m], 1, QN(a))), NMul(NMul(sg, y), NRt(b[m], 1, QN(b))))]) IN
  IF s2 = 0 THEN <<>>
  ELSE << To(Ev("id", <<A>>), 0), To(Ev("id", <<B>>), 1),
          To(Exp(Ev("slerp", <<R(0), R(1), Scl(NQ(i, j))>>), IF d = 0 THEN OneOf(<<pt(1), pt(-1)>>) ELSE pt(Sgn(d))), 2),
          Exp(Ev("norm2", <<R(2)>>), Scl(1)) >>
Unit24 == {x \in [1..4 -> {-1, 1}] : x[1] = 1} \cup {QOne, <<0, 1, 0, 0>>, <<0, 0, -1, 0>>, <<0, 0, 0, 1>>}
InitS == SIM /\ p = QOne /\ q = QOne /\ step = 0 /\ out = <<>>
\* all pairs of small integer quaternions: half turns, thirds, right angles
InitW == /\ ~SIM /\ step = 0 /\ p \in Unit24 /\ q \in [1..4 -> -1..1] /\ q # QZero
         /\ out = <<EvNew(0, Floats)>> \o Wide(p, q, 1, 2) \o Wide(p, q, 1, 3) \o Wide(p, q, 7, 8)
InitX == /\ ~SIM /\ step = 0 /\ p \in {QOne, <<0, 1, 0, 0>>, <<1, -1, 2, 1>>, <<-3, 0, 0, 1>>}
         /\ q \in [1..4 -> (-LIM)..LIM] /\ q[1] > 0
         /\ out = <<EvNew(0, Floats)>> \o Arc(p, q, 1, 1) \o Arc(p, q, 1, -1)
               \o (IF Short(q, 2) THEN Arc(p, q, 2, 1) \o Arc(p, q, 2, -1) ELSE <<>>)
               \o (IF Short(q, 4) THEN Arc(p, q, 4, 1) \o Arc(p, q, 4, -1) ELSE <<>>)
Init == InitS \/ InitX \/ InitW
Set(a, r, evs) == p' = a /\ q' = r /\ out' = evs
Drw(h) == IF h <= 3 THEN TLCEval([RandV(4, -6, 6) EXCEPT ![1] = RandomElement(1..9)])
          ELSE IF h = 4 THEN TLCEval([RandV(4, -1, 1) EXCEPT ![1] = RandomElement({400, 500, 700, 1000, 1500, 2000})])
          ELSE IF h = 5 THEN TLCEval([RandV(4, -9, 9) EXCEPT ![1] = 1])
          ELSE TLCEval([RandV(4, -3, 3) EXCEPT ![1] = RandomElement(20..40)])
\* an end point: any, orthogonal to the first one, or with few components
FarEnd(a, r, h) == IF h <= 1 THEN [r EXCEPT ![1] = r[1] - 5]
                   ELSE IF h = 2 THEN TLCEval(QMul(a, <<0, r[2], r[3], r[4] + (IF r[2] = 0 /\ r[3] = 0 THEN 20 ELSE 0)>>))
                   ELSE IF h = 3 THEN TLCEval(<<-a[2], a[1], -a[4], a[3]>>)
                   ELSE IF h = 4 THEN TLCEval([i \in 1..4 |-> IF a[i] = 0 THEN 1 + (Abs(a[1]) % 3) ELSE 0])
                   ELSE TLCEval([i \in 1..4 |-> (r[i] % 7) - 3])
Next == /\ SIM /\ step' = step + 1
        /\ IF step = 0 THEN Set(QOne, QOne, <<EvNew(0, Floats)>>)
           ELSE \E h \in Pick(0..6) : \E a \in {RandV(4, -9, 9)} : \E r \in {Drw(h)} : \E s \in Pick({-1, 1}) :
                LET b == IF a = QZero THEN <<0, 0, 1, 0>> ELSE a
                    n == IF h = 4 \/ ~Short(r, 3) THEN (IF Short(r, 2) THEN 2 ELSE 1) ELSE IF h = 6 \/ ~Short(r, 4) THEN 3 ELSE 4 IN
                IF step % 7 = 3 THEN Set(b, QOne, Same(b, s))
                ELSE IF step % 7 \in {1, 5} THEN Set(b, r, LET f == FarEnd(b, r, h) IN Wide(b, f, 1 + ((a[2] * a[2]) % 15), 16) \o Wide(f, b, 1 + ((a[3] * a[3]) % 6), 7))
                ELSE Set(b, r, Arc(b, r, n, s))
Spec == Init /\ [][Next]_vars
\* powers of one rotation commute and stay on one great circle
Laws == MaxAbs(q) > 50 \/ QMul(QPow(q, 2), q) = QMul(q, QPow(q, 2))
=============================================================================
