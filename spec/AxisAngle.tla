------------------------------ MODULE AxisAngle ------------------------------
(* Angle/axis constructors, elementary rotations, and reading them back.      *)
EXTENDS Angle, Machine

CONSTANTS LIM, AL

VARIABLES u, va, vb, vw
vars == <<step, out, u, va, vb, vw>>

Two == <<2, 2>>
\* events for one (a, b, w): k even turns, second angle (c, d)
Obs(a, b, w, k, c, d, s) ==
  LET th == ThK(a, b, k)
      q == QAx(a, b, w)
      dw == Deg(Vec(w), 1)
      nn == Dot(w, w)
      enc == Vec([i \in 1..3 |-> NMul(th, NRt(w[i], 1, nn))])
      e2 == [x |-> a * c - b * d, y |-> a * d + b * c]     \* the sum of the two angles
      ang == NMul(2, NAt(Abs(b), a))
      angm == NMul(2, NAt(Abs(b), -a))
      ax == IF b = 0 THEN NoneV ELSE UAx(VScale(w, Sgn(b)))
      axm == IF b = 0 THEN NoneV ELSE UAx(VScale(w, -Sgn(b)))
      safe == IF b = 0 THEN a > 0 /\ k = 0 ELSE a > 0 \/ Abs(a) <= 50 * Abs(b)               \* sin(angle/2) keeps its precision
      safem == IF b = 0 THEN a > 0 /\ k = 0 ELSE a < 0 \/ Abs(a) <= 50 * Abs(b)
  IN << To(Exp(Ev("rotation", <<Scl(th), dw>>), q), 0),
        Exp(Ev("norm2", <<R(0)>>), Scl(1)),
        Exp(Ev("to_rotation", <<R(0)>>), RAx(a, b, w)),
        \* an odd number of turns changes the sign of the quaternion, not the rotation
        Exp(Ev("rotation", <<Scl(ThOdd(a, b)), dw>>), QAx(-a, -b, w)),
        To(Exp(Ev("rotation_ne", <<enc>>), q), 1),
        Exp(Ev("norm2", <<R(1)>>), Scl(1)),
        Exp(Ev("rotation_from_axis_angle", <<UAx(w), Scl(th)>>), RAx(a, b, w)),
        Exp(Ev("rotx", <<Scl(th)>>), RAx(a, b, <<1, 0, 0>>)),
        Exp(Ev("roty", <<Scl(th)>>), RAx(a, b, <<0, 1, 0>>)),
        Exp(Ev("rotz", <<Scl(th)>>), RAx(a, b, <<0, 0, 1>>)),
        Exp(Ev("rot2", <<Scl(th)>>), Over(Mat(<<<<CosN(a, b), -SinN(a, b)>>, <<SinN(a, b), CosN(a, b)>>>>), DZ(a, b))) >>
  \o (IF Abs(e2.x) > 3000 \/ Abs(e2.y) > 3000 THEN <<>> ELSE
     << To(Exp(Ev("rotation", <<Scl(Th(c, d)), dw>>), QAx(c, d, w)), 2),
        Exp(Ev("mul", <<R(0), R(2)>>), QAx(e2.x, e2.y, w)),
        Exp(Ev("rotation", <<Scl(NAdd(th, Th(c, d))), dw>>), QAx(e2.x, e2.y, w)),
        Exp(Ev("rotation_from_axis_angle", <<UAx(w), Scl(NAdd(th, Th(c, d)))>>), RAx(e2.x, e2.y, w)),
        To(Exp(Ev("rotx", <<Scl(th)>>), RAx(a, b, <<1, 0, 0>>)), 3),
        To(Exp(Ev("rotx", <<Scl(Th(c, d))>>), RAx(c, d, <<1, 0, 0>>)), 4),
        Exp(Ev("mul", <<R(3), R(4)>>), RAx(e2.x, e2.y, <<1, 0, 0>>)) >>)
  \* reading back, from the unit quaternion, from a scaled one and from its negative
  \o (IF ~safe THEN <<>> ELSE
     << Exp(Ev("get_angle", <<R(0)>>), Scl(ang)), Exp(Ev("get_axis", <<R(0)>>), ax),
        Exp(Ev("axis_angle", <<R(1)>>), Tup(<<ax, Scl(ang)>>)),
        To(Exp(Ev("muls", <<R(0), Deg(Scl(s), 1)>>), Deg([q EXCEPT !.v = [i \in 1..4 |-> NMul(s, q.v[i])]], 1)), 5),
        Exp(Ev("get_angle", <<R(5)>>), Scl(ang)),
        Exp(Ev("axis_angle", <<R(5)>>), Tup(<<ax, Scl(ang)>>)) >>
     \o IF b = 0 THEN <<>> ELSE
     << To(Ev("get_angle", <<R(5)>>), 6), To(Ev("get_axis", <<R(5)>>), 7),
        Exp(Ev("rotation", <<R(6), R(7)>>), q) >>)
  \o (IF ~safem THEN <<>> ELSE
     << To(Exp(Ev("neg", <<R(0)>>), QAx(-a, -b, w)), 8),
        Exp(Ev("axis_angle", <<R(8)>>), Tup(<<axm, Scl(angm)>>)) >>)

Set(a, b, w, k, c, d, s) ==
  /\ va' = a /\ vb' = b /\ vw' = w
  /\ out' = IF (a = 0 /\ b = 0) \/ w = <<0, 0, 0>> \/ (c = 0 /\ d = 0) THEN <<>> ELSE Obs(a, b, w, k, c, d, s)
InitS == SIM /\ u \in {0, -20, 15} /\ step = 0 /\ out = <<>> /\ va = 1 /\ vb = 0 /\ vw = <<1, 0, 0>>
InitX == /\ ~SIM /\ u = 0 /\ step = 0 /\ va \in (-AL)..AL /\ vb \in (-AL)..AL /\ vw \in [1..3 -> (-LIM)..LIM]
         /\ (va # 0 \/ vb # 0) /\ vw # <<0, 0, 0>>
         /\ out = <<EvNew(u, Floats)>> \o Obs(va, vb, vw, 0, 2, 1, 3)
Init == InitS \/ InitX
Z(h) == IF h = 0 THEN RandV(2, -3, 3) ELSE IF h = 1 THEN RandV(2, -20, 20)
        ELSE IF h = 2 THEN TLCEval(<<1000, RandomElement({-1, 0, 1})>>)          \* tiny angles
        ELSE IF h = 3 THEN TLCEval(<<RandomElement({-1, 0, 1}), 1000>>)          \* about a half turn
        ELSE TLCEval(<<-50, RandomElement({-1, 1, 2})>>)                         \* nearly a full turn
Next == /\ SIM /\ step' = step + 1 /\ UNCHANGED u
        /\ IF step = 0 THEN UNCHANGED <<va, vb, vw>> /\ out' = <<EvNew(u, Floats), Exp(Ev("rotation_ne", <<Vec(<<0, 0, 0>>)>>), Qua(QOne))>>
           ELSE \E h \in Pick(0..4) : \E z \in {Z(h)} : \E y \in {RandV(2, -9, 9)} : \E x \in {RandV(3, -9, 9)} :
                \E e \in {RandV(3, 0, 3)} : \E k \in Pick({0, 0, 0, -1, 1}) : \E s \in Pick({1, 2, 5}) :
                Set(z[1], z[2], TLCEval([i \in 1..3 |-> IF e[i] = 0 THEN 0 ELSE x[i]]), k, y[1], y[2], s)
Spec == Init /\ [][Next]_vars
\* angles add
Laws == (Abs(va) > 30 \/ Abs(vb) > 30) \/
        QMul(QZ(va, vb), QZ(3, 5)) = QZ(3 * va - 5 * vb, 5 * va + 3 * vb)
=============================================================================
