-------------------------------- MODULE ExpLog --------------------------------
(* so(3) and se(3). A twist is theta (w/L ; c x w/L) + (0 ; (e/f) w/L): the      *)
(* screw of angle theta about the axis w through c with displacement e/f. Its    *)
(* exponential is an exact rigid motion, its logarithm is itself for             *)
(* 0 < theta < pi.                                                            *)
EXTENDS Pose, Machine

CONSTANTS LIM

VARIABLES z, M
vars == <<step, out, z, M>>

Axes == << <<1, 0, 0>>, <<0, -1, 0>>, <<0, 3, 4>>, <<1, 2, -2>>, <<2, -3, 6>>, <<-4, 0, 3>>, <<0, 0, 1>>, <<-2, -1, 2>>, <<4, 4, -7>>, <<-1, 0, 0>> >>
LenOf == << 1, 1, 5, 3, 7, 5, 1, 3, 9, 1 >>

\* theta * w / L as numbers (any axis)
SkewN(th, w) == LET nn == Dot(w, w)  H == Hat(w) IN
  Mat([i \in 1..3 |-> [j \in 1..3 |-> IF H[i][j] = 0 THEN 0 ELSE NMul(th, NRt(H[i][j], 1, nn))]])
\* the angle brought to [0, pi] (z and -z are the same rotation), axis flipped if needed
Norm(x, w) == LET y == IF x[1] < 0 THEN <<-x[1], -x[2]>> ELSE x IN
              IF y[2] < 0 THEN [z |-> <<y[1], -y[2]>>, w |-> VNeg(w)] ELSE [z |-> y, w |-> w]
So3(x, w, k) ==
  LET th == ThK(x[1], x[2], k)  nn == Dot(w, w)  N == Norm(x, w)  th0 == Th(N.z[1], N.z[2]) IN
  << To(Exp(Ev("mexp", <<SkewN(th, w)>>), RAx(x[1], x[2], w)), 0),
     To(Exp(Ev("id", <<RAx(x[1], x[2], w)>>), RAx(x[1], x[2], w)), 1),
     To(Exp(Ev("mlog", <<R(1)>>), IF N.z[2] = 0 THEN Mat(MZero(3)) ELSE IF N.z[1] = 0 THEN PM(SkewN(th0, N.w)) ELSE SkewN(th0, N.w)), 2),
     Exp(Ev("mexp", <<R(2)>>), RAx(x[1], x[2], w)),
     Exp(Ev("mexplog", <<R(1)>>), RAx(x[1], x[2], w)),
     Exp(Ev("mexplog", <<R(0)>>), RAx(x[1], x[2], w)) >>
  \o (IF N.z[2] = 0 THEN <<>> ELSE
     << Exp(Ev("exp_axis_angle", <<Vec([i \in 1..3 |-> NMul(th0, NRt(N.w[i], 1, nn))])>>), Tup(<<Dir(Vec(N.w)), Scl(th0)>>)) >>)
\* ---- se(3)
U(x, s) == IF s = 0 THEN x ELSE NMul(x, NP2(1, s))
Twist(th, w, L, c, e, f, s) ==       \* numbers: angular, linear (lengths in units of 2^s)
  LET m == Cross(c, w) IN
  [i \in 1..6 |-> IF i <= 3 THEN NMul(th, NQ(w[i], L)) ELSE U(NAdd(NMul(th, NQ(m[i - 3], L)), NQ(w[i - 3] * e, L * f)), s)]
TwVec(t, s) == Tl(Vec(t), s)
TwMat(t, s) == Tl(Mat(<< <<0, NMul(-1, t[3]), t[2], t[4]>>, <<t[3], 0, NMul(-1, t[1]), t[5]>>, <<NMul(-1, t[2]), t[1], 0, t[6]>>, <<0, 0, 0, 0>> >>), s)
Se3(x, w, L, c, e, f, s) ==
  LET th == Th(x[1], x[2])
      P == ScPow(x, w, L, c, e, f, 1)
      H == HM(P, s)
      t == Twist(th, w, L, c, e, f, s)
      N == Norm(x, w)
      sg == IF N.w = w THEN 1 ELSE -1
      th0 == Th(N.z[1], N.z[2])
      t0 == Twist(th0, N.w, L, c, sg * e, f, s)
      tn == Twist(th0, VNeg(N.w), L, c, -sg * e, f, s)         \* the other logarithm of a half turn
      lg == IF N.z[1] = 0 THEN OneOf(<<TwMat(t0, s), TwMat(tn, s)>>) ELSE TwMat(t0, s)
      big == 5 + MaxAbs(P.v) \div P.d IN
  << To(Exp(Ev("twist_to_se3", <<TwVec(t, s)>>), TwMat(t, s)), 3),
     Exp(Ev("se3_to_twist", <<R(3)>>), TwVec(t, s)),
     To(Exp(Ev("mexp6", <<R(3)>>), H), 4),
     To(Exp(Ev("id", <<H>>), H), 5) >>
  \o (IF N.z[2] = 0 THEN << Exp(Ev("mlog6", <<R(5)>>), TwMat([i \in 1..6 |-> IF i <= 3 THEN 0 ELSE Tn(P.v[i - 3], P.d, s)], s)) >> ELSE
     << To(Cond(Exp(Ev("mlog6", <<R(5)>>), lg), big), 6), Cond(Exp(Ev("mexp6", <<R(6)>>), H), big),
        Cond(Exp(Ev("mexplog6", <<R(4)>>), H), big) >>)
\* unit screw axis, with the pitch part scaled by 1/theta
AxisAngle6(x, w, L, c, e, f, s) == LET N == Norm(x, w)  sg == IF N.w = w THEN 1 ELSE -1  th0 == Th(N.z[1], N.z[2])  t0 == Twist(th0, N.w, L, c, sg * e, f, s) IN
  Exp(Ev("axis_angle6", <<TwVec(t0, s)>>), Tup(<<TwVec([i \in 1..6 |-> NDiv(t0[i], th0)], s), Scl(th0)>>))
\* ---- pure translations v / d, and the hat / vee maps of an integer vector
Hats(v, l, q, h, d, s) ==
  LET V6(a, b) == a \o b
      Z3 == <<0, 0, 0>>
      tr == [i \in 1..3 |-> Tn(v[i], d, s)]
      T == Tl(Mat(<< <<0, 0, 0, tr[1]>>, <<0, 0, 0, tr[2]>>, <<0, 0, 0, tr[3]>>, <<0, 0, 0, 0>> >>), s)
      G == Tl(Mat(<< <<1, 0, 0, tr[1]>>, <<0, 1, 0, tr[2]>>, <<0, 0, 1, tr[3]>>, <<0, 0, 0, 1>> >>), s)
      sc == VAdd(Cross(q, v), VScale(v, h)) IN
  << Exp(Ev("mexp6", <<T>>), G), Exp(Ev("mlog6", <<G>>), T), Exp(Ev("mexplog6", <<G>>), G),
     To(Exp(Ev("skew", <<Over(Vec(v), d)>>), Over(Mat(Hat(v)), d)), 7), Exp(Ev("vex", <<R(7)>>), Over(Vec(v), d)),
     To(Exp(Ev("skew2", <<Over(Scl(v[1]), d)>>), Over(Mat(<< <<0, -v[1]>>, <<v[1], 0>> >>), d)), 8), Exp(Ev("vex2", <<R(8)>>), Over(Scl(v[1]), d)),
     To(Exp(Ev("twist_to_se3", <<Vec(V6(v, l))>>), Mat(<< <<0, -v[3], v[2], l[1]>>, <<v[3], 0, -v[1], l[2]>>, <<-v[2], v[1], 0, l[3]>>, <<0, 0, 0, 0>> >>)), 9),
     Exp(Ev("se3_to_twist", <<R(9)>>), Vec(V6(v, l))),
     Exp(Ev("se3_get_parts", <<R(9)>>), Tup(<<Mat(Hat(v)), Vec(l)>>)),
     \* the augmented forms put the linear part first
     Exp(Ev("skew_v6", <<Vec(V6(l, v))>>), Mat(<< <<0, -v[3], v[2], l[1]>>, <<v[3], 0, -v[1], l[2]>>, <<-v[2], v[1], 0, l[3]>>, <<0, 0, 0, 0>> >>)),
     Exp(Ev("skew_aug", <<Vec(<<l[1], l[2], v[3]>>)>>), Mat(<< <<0, -v[3], l[1]>>, <<v[3], 0, l[2]>>, <<0, 0, 0>> >>)),
     Exp(Ev("screw_to_axis", <<Vec(q), Vec(v), Scl(h)>>), Vec(V6(v, sc))) >>
  \o (IF v = Z3 THEN <<>> ELSE
     << Exp(Ev("axis_angle6", <<TwVec(V6(Z3, tr), s)>>), Tup(<<Dir(Vec(V6(Z3, v))), Tl(Scl(U(NRt(1, Dot(v, v), d * d), s)), s)>>)),
        Exp(Ev("exp_axis_angle", <<Over(Vec(v), d)>>), Tup(<<Dir(Vec(v)), Over(Scl(NRt(1, Dot(v, v), 1)), d)>>)),
        \* skew * u is the cross product
        Exp(Ev("mul", <<R(7), Vec(l)>>), Over(Vec(Cross(v, l)), d)) >>)

Obs(x, ax, w, c, e, f, v, l, d, k, s) ==
  LET L == LenOf[ax]  a == Axes[ax] IN
  So3(x, IF w = <<0, 0, 0>> THEN a ELSE w, k) \o So3(x, a, 0)
  \o (IF QN(QRed(ScQ(x, a, L))) > 30000 THEN <<>> ELSE Se3(x, a, L, c, e, f, s)
        \o (IF x[2] = 0 THEN <<>> ELSE << AxisAngle6(x, a, L, c, e, f, s) >>))
  \o Hats(v, l, c, e, d, s)

InitS == SIM /\ z = <<1, 1>> /\ M = <<0, 0, 0>> /\ step = 0 /\ out = <<>>
InitX == /\ ~SIM /\ step = 0 /\ M \in [1..3 -> -1..1] /\ z \in ((-LIM)..LIM) \X ((-LIM)..LIM) /\ z # <<0, 0>>
         /\ out = <<EvNew(0, Floats)>> \o Obs(z, 1 + ((Abs(M[1] + 3 * M[2] + 9 * M[3])) % 10), M, <<1, -2, 3>>, 2, 3, M, <<4, -5, 6>>, 2, 0, IF z[1] > 1 THEN -14 ELSE 0)
Init == InitS \/ InitX
DrawZ(h) == IF h <= 2 THEN RandV(2, -3, 3) ELSE IF h = 3 THEN RandV(2, -20, 20) ELSE IF h = 4 THEN TLCEval(<<1000, RandomElement({-3, -1, 1, 2})>>)
            ELSE IF h = 5 THEN TLCEval(<<RandomElement({-2, -1, 0, 1, 3}), 1000>>) ELSE IF h = 6 THEN TLCEval(<<0, RandomElement({-1, 1})>>)
            ELSE IF h = 7 THEN TLCEval(<<RandomElement({-1, 1}), 50>>) ELSE TLCEval(<<RandomElement({-1, 1}), RandomElement({0, 0, 1})>>)
Next == /\ SIM /\ step' = step + 1
        /\ IF step = 0 THEN UNCHANGED <<z, M>> /\ out' = <<EvNew(0, Floats), Exp(Ev("mexp", <<Mat(MZero(3))>>), Mat(MId(3))), Exp(Ev("mlog", <<Mat(MId(3))>>), Mat(MZero(3))),
                 Exp(Ev("mexp6", <<Mat(MZero(4))>>), Mat(MId(4))), Exp(Ev("mlog6", <<Mat(MId(4))>>), Mat(MZero(4)))>>
           ELSE \E h \in Pick(0..8) : \E y \in {DrawZ(h)} : \E w \in {RandV(3, -9, 9)} : \E o \in {RandV(3, 0, 2)} : \E v \in {RandV(3, -9, 9)} : \E l \in {RandV(3, -9, 9)} :
                \E d \in Pick({1, 2, 8}) : \E c \in {RandV(3, -4, 4)} : \E e \in Pick(-5..5) : \E f \in Pick({1, 2, 3}) : \E ax \in Pick(1..10) : \E k \in Pick({0, 0, 1, -1}) : \E s \in Pick({0, -14, -30, 20, 33}) :
                LET x == IF y = <<0, 0>> THEN <<0, 1>> ELSE y  ww == TLCEval([i \in 1..3 |-> IF o[i] = 0 THEN 0 ELSE w[i]]) IN
                z' = x /\ M' = w /\ out' = Obs(x, ax, ww, c, e, f, v, l, d, k, s)
Spec == Init /\ [][Next]_vars
\* the logarithm of the inverse is the negative
Laws == MaxAbs(z) > 3 \/ LET w == Axes[4]  A(k) == ScPow(z, w, 3, <<1, -2, 1>>, 5, 2, k) IN z = <<0, 0>> \/ PMul(A(1), A(-1)).v = <<0, 0, 0>>
=============================================================================
