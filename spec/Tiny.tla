--------------------------------- MODULE Tiny ---------------------------------
(* Angles a power of two away from the exceptional ones: theta = eps and         *)
(* theta = pi - eps, eps = 2^-k. Every function that treats the identity, a half *)
(* turn or gimbal lock specially is observed on both sides of that case, and a   *)
(* component of size eps has to be right to within a fraction of eps.            *)
EXTENDS Wire, Arith, Machine

CONSTANTS KINDS, KS

VARIABLES kind, k, s, ax
vars == <<step, out, kind, k, s, ax>>

Axes == << <<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 3, 4>>, <<1, 2, -2>>, <<2, -3, 6>>, <<-4, 0, 3>>, <<-2, -1, 2>>, <<-1, 0, 0>>, <<3, 4, 0>> >>
LenOf == << 1, 1, 1, 5, 3, 7, 5, 3, 1, 5 >>
Cross(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
Hat(v) == << <<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>> >>

Eps == NP2(1, -k)
N3(x, y, z) == NMul(x, NMul(y, z))
Neg(x) == NMul(-1, x)
\* the angle: tiny, or next to a half turn; t is a multiple of eps, in eps/8
Ang(h, t) == IF h THEN NAdd(NPi(1, 1), NP2(t, -k - 3)) ELSE NP2(t, -k - 3)
CH(h, t) == IF h THEN Neg(NOp("sin", <<NP2(t, -k - 4)>>)) ELSE NOp("cos", <<NP2(t, -k - 4)>>)
SH(h, t) == IF h THEN NOp("cos", <<NP2(t, -k - 4)>>) ELSE NOp("sin", <<NP2(t, -k - 4)>>)
Qn(h, t, w, L) == LET e(i) == NMul(SH(h, t), NQ(w[i], L)) IN <<CH(h, t), e(1), e(2), e(3)>>
QV(h, t, w, L) == Cw(Qua(Qn(h, t, w, L)), Eps)
\* I + 2 sh^2 K^2 + 2 sh ch K
OneMinusCos(h, t) == N3(2, SH(h, t), SH(h, t))
Sin(h, t) == N3(2, SH(h, t), CH(h, t))
K2(w, i, j) == w[i] * w[j] - (IF i = j THEN w[1] * w[1] + w[2] * w[2] + w[3] * w[3] ELSE 0)
Rn(h, t, w, L) == LET H == Hat(w) IN
  TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |->
     NOp("+", << IF i = j THEN 1 ELSE 0, NMul(OneMinusCos(h, t), NQ(K2(w, i, j), L * L)), NMul(Sin(h, t), NQ(H[i][j], L)) >>)])])
RV(h, t, w, L) == Cw(Mat(Rn(h, t, w, L)), Eps)
Un(w, L) == Cw(Over(Vec(w), L), NQ(1, 16))
NegV(w) == [i \in 1..3 |-> -w[i]]
Hf(t) == IF t > 0 THEN 1 ELSE -1
T8 == 8 * s              \* theta = s eps (or pi + s eps)

\* ---- axis and angle
AxisAngle(h, w, L) ==
  LET th == Ang(h, T8)  q == QV(h, T8, w, L)  r == RV(h, T8, w, L)
      v2 == Vec([i \in 1..3 |-> NMul(th, NQ(w[i], L))])
      flip == ~h /\ s < 0                             \* negative angle: the opposite axis is read back
      a2 == IF flip THEN NegV(w) ELSE w
      absth == IF flip THEN Ang(h, -T8) ELSE th IN
  << To(Exp(Ev("rotation", <<Scl(th), Vec(w)>>), q), 0),
     To(Exp(Ev("rotation_ne", <<v2>>), q), 1),
     Exp(Ev("norm2", <<R(0)>>), Cw(Scl(1), 0)), Exp(Ev("norm2", <<R(1)>>), Cw(Scl(1), 0)),
     Exp(Ev("to_rotation", <<R(0)>>), r),
     Exp(Ev("rotation_from_axis_angle", <<Over(Vec(w), L), Scl(th)>>), r),
     Exp(Ev("get_angle", <<R(0)>>), Cw(Scl(absth), 0)),
     Exp(Ev("get_axis", <<R(0)>>), Un(a2, L)),
     Exp(Ev("axis_angle", <<q>>), Tup(<<Un(a2, L), Cw(Scl(absth), 0)>>)),
     Exp(Ev("rotx", <<Scl(th)>>), RV(h, T8, <<1, 0, 0>>, 1)),
     Exp(Ev("roty", <<Scl(th)>>), RV(h, T8, <<0, 1, 0>>, 1)),
     Exp(Ev("rotz", <<Scl(th)>>), RV(h, T8, <<0, 0, 1>>, 1)),
     Exp(Ev("rot2", <<Scl(th)>>), LET M == Rn(h, T8, <<0, 0, 1>>, 1) IN Cw(Mat(<< <<M[1][1], M[1][2]>>, <<M[2][1], M[2][2]>> >>), Eps)),
     \* two small rotations about one axis
     To(Exp(Ev("rotation", <<Scl(Ang(FALSE, 5)), Vec(w)>>), QV(FALSE, 5, w, L)), 2),
     Exp(Ev("mul", <<R(0), R(2)>>), QV(h, T8 + 5, w, L)) >>
\* ---- quaternion and matrix
Conv(h, w, L) ==
  LET q == QV(h, T8, w, L)  r == RV(h, T8, w, L) IN
  << To(Ev("id", <<q>>), 0), To(Ev("id", <<r>>), 1),
     To(Exp(Ev("to_rotation", <<R(0)>>), r), 2),
     To(Exp(Ev("from_rotation", <<R(1)>>), PM(q)), 3), Exp(Ev("to_rotation", <<R(3)>>), r),
     Exp(Ev("from_rotation", <<R(2)>>), PM(q)),
     Exp(Ev("mul", <<R(0), R(0)>>), IF h THEN Cw(Qua([i \in 1..4 |-> Neg(Qn(FALSE, 2 * T8, w, L)[i])]), Eps) ELSE QV(FALSE, 2 * T8, w, L)),
     Exp(Ev("mul", <<R(1), R(1)>>), RV(FALSE, 2 * T8, w, L)),
     \* a vector: first column of the matrix
     Exp(Ev("mul", <<R(0), Vec(<<0, 1, 0>>)>>), Cw(Vec([i \in 1..3 |-> Rn(h, T8, w, L)[i][2]]), Eps)),
     Exp(Ev("inverse", <<R(0)>>), Cw(Qua([i \in 1..4 |-> IF i = 1 THEN Qn(h, T8, w, L)[1] ELSE Neg(Qn(h, T8, w, L)[i])]), Eps)) >>
\* ---- next to gimbal lock: pitch = up * (pi/2 + s eps)
C(z) == NQ(z[1] * z[1] - z[2] * z[2], z[1] * z[1] + z[2] * z[2])
S(z) == NQ(2 * z[1] * z[2], z[1] * z[1] + z[2] * z[2])
Th(z) == NMul(2, NAt(z[2], z[1]))
Euler(w, L) ==
  LET up == IF w[1] + w[2] + w[3] > 0 THEN 1 ELSE -1
      x == <<1 + Abs(w[1]), w[2]>>  z == <<2, w[3] - w[1]>>           \* yaw and roll
      cy == C(x)  sy == S(x)  cr == C(z)  sr == S(z)
      cp == NOp("sin", <<NP2(-s, -k)>>)  sp == NMul(up, NOp("cos", <<Eps>>))
      m == << <<NMul(cy, cp), NSub(N3(cy, sp, sr), NMul(sy, cr)), NAdd(N3(cy, sp, cr), NMul(sy, sr))>>,
              <<NMul(sy, cp), NAdd(N3(sy, sp, sr), NMul(cy, cr)), NSub(N3(sy, sp, cr), NMul(cy, sr))>>,
              <<Neg(sp), NMul(cp, sr), NMul(cp, cr)>> >>
      M == Cw(Mat(m), Eps)
      pitch == NMul(up, NAdd(NPi(1, 2), NP2(s, -k)))
      a == <<Scl(Th(x)), Scl(pitch), Scl(Th(z))>>
      big(y) == CwS(Scl(y), 0, NP2(1, k))
      ang == Tup(<<big(Th(x)), Cw(Scl(pitch), 0), big(Th(z))>>) IN
  << To(Exp(Ev("euler_to_rotation", a \o <<Str("none")>>), M), 1), To(Ev("id", <<M>>), 2), To(Ev("from_euler", a), 3),
     Exp(Ev("to_rotation", <<R(3)>>), M),
     Exp(Ev("euler_rebuild", <<R(1)>>), M), Exp(Ev("euler_rebuild", <<R(2)>>), M), Exp(Ev("euler_rebuild", <<R(3)>>), SkipV) >>
  \o (IF s > 0 THEN <<>> ELSE << Exp(Ev("rotation_to_euler", <<R(2)>>), ang), Exp(Ev("rotation_to_euler", <<R(1)>>), ang) >>)
\* ---- interpolation between rotations eps apart (or pi - eps apart), same and opposite representation
SlerpT(h, w, L) ==
  LET \* begin at a half turn about another axis, so that all components matter
      a == <<NQ(2, 3), NQ(-1, 3), NQ(2, 3), 0>>
      QM(p, q) == << NOp("+", <<NMul(p[1], q[1]), Neg(NMul(p[2], q[2])), Neg(NMul(p[3], q[3])), Neg(NMul(p[4], q[4]))>>),
                     NOp("+", <<NMul(p[1], q[2]), NMul(p[2], q[1]), NMul(p[3], q[4]), Neg(NMul(p[4], q[3]))>>),
                     NOp("+", <<NMul(p[1], q[3]), Neg(NMul(p[2], q[4])), NMul(p[3], q[1]), NMul(p[4], q[2])>>),
                     NOp("+", <<NMul(p[1], q[4]), NMul(p[2], q[3]), Neg(NMul(p[3], q[2])), NMul(p[4], q[1])>>) >>
      \* half turns approached from below only: the arc must be the short one
      HQ(t) == IF h THEN << NOp("cos", <<NSub(NPi(t, 16), NP2(t, -k - 4))>>), NOp("sin", <<NSub(NPi(t, 16), NP2(t, -k - 4))>>) >>
               ELSE << NOp("cos", <<NP2(t, -k - 4)>>), NOp("sin", <<NP2(t, -k - 4)>>) >>
      Pt(t, sg) == [i \in 1..4 |-> NMul(sg, QM(a, LET c == HQ(t) IN <<c[1], NMul(c[2], NQ(w[1], L)), NMul(c[2], NQ(w[2], L)), NMul(c[2], NQ(w[3], L))>>)[i])]
      \* the library interpolates linearly below half angles of 1/1000: third order in eps
      W(x) == IF h \/ k >= 16 THEN Cw(Qua(x), Eps) ELSE Qua(x)
      E(e) == IF h \/ k >= 16 THEN e ELSE Tol(e, 6, 4) IN
  << To(Ev("id", <<Qua(Pt(0, 1))>>), 0), To(Ev("id", <<Qua(Pt(8, s))>>), 1),
     E(Exp(Ev("slerp", <<R(0), R(1), Scl(0)>>), W(Pt(0, 1)))), E(Exp(Ev("slerp", <<R(0), R(1), Scl(1)>>), PM(W(Pt(8, 1))))),
     E(Exp(Ev("slerp", <<R(0), R(1), Scl(NQ(1, 2))>>), W(Pt(4, 1)))), E(Exp(Ev("slerp", <<R(0), R(1), Scl(NQ(1, 8))>>), W(Pt(1, 1)))),
     E(Exp(Ev("slerp", <<R(0), R(1), Scl(NQ(3, 4))>>), W(Pt(6, 1)))) >>
\* ---- quaternion functions: w + v with |v| = eps, and the logarithm next to the negative real axis
QFn(h, w, L) ==
  LET re == IF h THEN -2 ELSE 2
      x == Cw(Qua(<<re, NMul(Eps, NQ(w[1], L)), NMul(Eps, NQ(w[2], L)), NMul(Eps, NQ(w[3], L))>>), Eps)
      n2 == NAdd(4, NMul(Eps, Eps))
      Along(a, b) == Cw(Qua(<<a, NMul(b, NQ(w[1], L)), NMul(b, NQ(w[2], L)), NMul(b, NQ(w[3], L))>>), Eps)
      arg == NAt(Eps, re) IN
  << To(Exp(Ev("id", <<x>>), x), 0),
     Exp(Ev("exp", <<R(0)>>), Along(NMul(NOp("exp", <<re>>), NOp("cos", <<Eps>>)), NMul(NOp("exp", <<re>>), NOp("sin", <<Eps>>)))),
     To(Exp(Ev("ln", <<R(0)>>), Along(NMul(NQ(1, 2), NOp("ln", <<n2>>)), arg)), 1),
     Exp(Ev("exp", <<R(1)>>), x),
     To(Ev("sqrt", <<R(0)>>), 2), Exp(Ev("mul", <<R(2), R(2)>>), x),
     Exp(Ev("pow", <<R(0), Qua(<<2, 0, 0, 0>>)>>), Along(NSub(4, NMul(Eps, Eps)), N3(2, re, Eps))),
     Exp(Ev("argq", <<R(0)>>), Cw(Qua(<<0, NQ(w[1], L), NQ(w[2], L), NQ(w[3], L)>>), 1)),
     Exp(Ev("sin", <<R(0)>>), Along(NMul(NOp("sin", <<re>>), NOp("cosh", <<Eps>>)), NMul(NOp("cos", <<re>>), NOp("sinh", <<Eps>>)))),
     Exp(Ev("cos", <<R(0)>>), Along(NMul(NOp("cos", <<re>>), NOp("cosh", <<Eps>>)), NMul(-1, NMul(NOp("sin", <<re>>), NOp("sinh", <<Eps>>))))) >>
\* ---- screws: angle theta about the axis w/L through c, displacement e/4
CV(w) == <<w[2] + 1, w[3] - 2, 1 - w[1]>>
DotI(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Tr(h, t, w, L, e) ==      \* (I - R) c + t/8 e w: translation of the t/8-th power
  LET c == CV(w)  H == Hat(w)  m == Cross(w, c)  m2 == Cross(w, m) IN
  [i \in 1..3 |-> NOp("+", << Neg(NMul(OneMinusCos(h, t), NQ(m2[i], L * L))), Neg(NMul(Sin(h, t), NQ(m[i], L))), NQ(w[i] * e * t, 32 * L) >>)]
HMt(h, t, w, L, e) == LET Ro == Rn(h, t, w, L)  T == Tr(h, t, w, L, e) IN
  CwS(Mat([i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 1>> ELSE <<Ro[i][1], Ro[i][2], Ro[i][3], T[i]>>]), Eps, 30)
Skew(th, w, L) == LET H == Hat(w) IN Mat([i \in 1..3 |-> [j \in 1..3 |-> NMul(th, NQ(H[i][j], L))]])
TwMat(t) == Mat(<< <<0, Neg(t[3]), t[2], t[4]>>, <<t[3], 0, Neg(t[1]), t[5]>>, <<Neg(t[2]), t[1], 0, t[6]>>, <<0, 0, 0, 0>> >>)
Twist(th, w, c, L, e) == LET m == Cross(c, w) IN [i \in 1..6 |-> IF i <= 3 THEN NMul(th, NQ(w[i], L)) ELSE NAdd(NMul(th, NQ(m[i - 3], L)), NQ(w[i - 3] * e, 4 * L))]
\* the logarithm has its angle in [0, pi]
ExpLog(h, w, L, e) ==
  LET th == Ang(h, T8)  r == RV(h, T8, w, L)
      flip == IF h THEN s > 0 ELSE s < 0
      a == IF flip THEN NegV(w) ELSE w
      th0 == IF ~flip THEN th ELSE Ang(h, -T8)
      sk == Cw(Skew(th0, a, L), Eps)
      H == HMt(h, T8, w, L, e)
      ee == e * s
      t == Twist(th, w, CV(w), L, ee)
      t0 == Twist(th0, a, CV(w), L, IF flip THEN -ee ELSE ee) IN
  << To(Exp(Ev("mexp", <<Skew(th, w, L)>>), r), 0), To(Ev("id", <<r>>), 1),
     To(Exp(Ev("mlog", <<R(1)>>), sk), 2), Exp(Ev("mexp", <<R(2)>>), r), Exp(Ev("mexplog", <<R(0)>>), r),
     Exp(Ev("exp_axis_angle", <<Vec([i \in 1..3 |-> NMul(th0, NQ(a[i], L))])>>), Tup(<<Un(a, L), Cw(Scl(th0), 0)>>)),
     To(Exp(Ev("mexp6", <<TwMat(t)>>), H), 4), To(Ev("id", <<H>>), 5),
     To(Exp(Ev("mlog6", <<R(5)>>), CwS(TwMat(t0), Eps, 30)), 6), Exp(Ev("mexp6", <<R(6)>>), H), Exp(Ev("mexplog6", <<R(4)>>), H),
     Exp(Ev("axis_angle6", <<Vec(t0)>>), Tup(<<CwS(Vec([i \in 1..6 |-> NDiv(t0[i], th0)]), 1, IF h THEN 30 ELSE NP2(30, k)), Cw(Scl(th0), 0)>>)) >>
\* ---- dual quaternions
DQn(h, t, w, L, e) ==
  LET q == Qn(h, t, w, L)  v == Tr(h, t, w, L, e)
      d == << NOp("+", <<Neg(NMul(v[1], q[2])), Neg(NMul(v[2], q[3])), Neg(NMul(v[3], q[4]))>>),
              NOp("+", <<NMul(v[1], q[1]), NMul(v[2], q[4]), Neg(NMul(v[3], q[3]))>>),
              NOp("+", <<NMul(v[2], q[1]), NMul(v[3], q[2]), Neg(NMul(v[1], q[4]))>>),
              NOp("+", <<NMul(v[3], q[1]), NMul(v[1], q[3]), Neg(NMul(v[2], q[2]))>>) >> IN
  CwS(Dua([i \in 1..8 |-> IF i <= 4 THEN q[i] ELSE NMul(NQ(1, 2), d[i - 4])]), Eps, 30)
DualT(h, w, L, e) ==
  LET D == DQn(h, T8, w, L, e)  q == QV(h, T8, w, L)  T == Tr(h, T8, w, L, e)  TT == CwS(Vec(T), Eps, 30)  H == HMt(h, T8, w, L, e) IN
  << To(Exp(Ev("d_from_rt", <<q, Vec(T)>>), D), 0), Exp(Ev("d_to_h", <<R(0)>>), H), Exp(Ev("d_translation", <<R(0)>>), TT),
     Exp(Ev("d_to_rt", <<R(0)>>), Tup(<<RV(h, T8, w, L), TT>>)), Exp(Ev("d_to_qt", <<R(0)>>), Tup(<<q, TT>>)),
     To(Exp(Ev("d_from_h", <<H>>), PM(D)), 1), Exp(Ev("d_to_h", <<R(1)>>), H),
     Exp(Ev("d_from_rotation_matrix", <<RV(h, T8, w, L)>>), PM(Cw(Dua(Qn(h, T8, w, L) \o <<0, 0, 0, 0>>), Eps))),
     Exp(Ev("normalize", <<R(0)>>), D) >>
DOne8 == <<1, 0, 0, 0, 0, 0, 0, 0>>
VNegD(x) == [i \in 1..8 |-> -x[i]]
ScrewT(h, w, L, e) ==
  LET D(t) == DQn(h, t, w, L, e)  X == D(T8)
      \* a screw of positive angle with displacement e s / 4
      th == Ang(h, T8)
      ee == e * s
      flip == ~h /\ s < 0
      a == IF flip THEN NegV(w) ELSE w
      th0 == IF flip THEN Ang(h, -T8) ELSE th
      e0 == IF flip THEN -ee ELSE ee
      m == Cross(CV(w), a)
      bigm == IF h THEN 30 ELSE NP2(30, k)
      lg == [i \in 1..8 |-> IF i = 1 \/ i = 5 THEN 0 ELSE IF i <= 4 THEN N3(NQ(1, 2), th, NQ(w[i - 1], L))
                ELSE NMul(NQ(1, 2), NAdd(NMul(th, NQ(Cross(CV(w), w)[i - 5], L)), NQ(w[i - 5] * ee, 4 * L)))] IN
  << To(Ev("d_from_rt", <<QV(h, T8, w, L), Vec(Tr(h, T8, w, L, e))>>), 0),
     Exp(Ev("screw_params", <<R(0)>>), Tup(<<Un(a, L), CwS(Over(Vec(m), L), 1, bigm), CwS(Scl(th0), 0, IF h THEN 8 ELSE 0), CwS(Scl(NQ(e0, 4)), 1, 30)>>)),
     Exp(Ev("screw_rebuild", <<R(0)>>), X),
     Exp(Ev("d_from_screw", <<Over(Vec(w), L), Over(Vec(Cross(CV(w), w)), L), Scl(th), Scl(NQ(ee, 4))>>), X),
     Exp(Ev("log", <<R(0)>>), CwS(Dua(lg), Eps, 30)),
     Exp(Ev("pow", <<R(0), Scl(0)>>), Dua(DOne8)), Exp(Ev("pow", <<R(0), Scl(1)>>), X) >>
  \o (IF h THEN
     \* next to half a turn there are two ways, one a little shorter
     LET a2 == IF s > 0 THEN NegV(w) ELSE w
         e2 == IF s > 0 THEN -ee ELSE ee
         m2 == Cross(CV(w), a2)
         At(num) == LET hf == NMul(NQ(num, 8), Ang(TRUE, -8))  dl == NQ(e2 * num, 16) IN    \* num / 4 of the way
                    CwS(Dua([i \in 1..8 |-> IF i = 1 THEN NOp("cos", <<hf>>)
                              ELSE IF i <= 4 THEN NMul(NOp("sin", <<hf>>), NQ(a2[i - 1], L))
                              ELSE IF i = 5 THEN NMul(NQ(-1, 2), NMul(dl, NOp("sin", <<hf>>)))
                              ELSE NAdd(NMul(NOp("sin", <<hf>>), NQ(m2[i - 5], L)), N3(NMul(NQ(1, 2), dl), NQ(a2[i - 5], L), NOp("cos", <<hf>>)))]), Eps, 30) IN
     << Exp(Ev("screw_lerp", <<Dua(DOne8), R(0), Scl(NQ(1, 2))>>), PM(At(2))), Exp(Ev("screw_lerp", <<Dua(VNegD(DOne8)), R(0), Scl(NQ(1, 4))>>), PM(At(1))),
        Exp(Ev("screw_lerp", <<Dua(DOne8), R(0), Scl(NQ(3, 4))>>), PM(At(3))) >>
     ELSE
     << Exp(Ev("pow", <<R(0), Scl(NQ(1, 2))>>), D(4 * s)), Exp(Ev("pow", <<R(0), Scl(2)>>), D(16 * s)), Exp(Ev("pow", <<R(0), Scl(-1)>>), D(-T8)),
        Exp(Ev("pow", <<R(0), Scl(NQ(3, 8))>>), D(3 * s)),
        To(Ev("id", <<D(-T8)>>), 1),
        Exp(Ev("screw_lerp", <<R(1), R(0), Scl(NQ(1, 2))>>), PM(CwS(Dua(DOne8), Eps, 30))),
        Exp(Ev("screw_lerp", <<R(1), R(0), Scl(NQ(7, 8))>>), PM(D(6 * s))),
        Exp(Ev("screw_lerp", <<R(0), R(1), Scl(1)>>), PM(D(-T8))) >>)

\* ---- rigid motions with a translation that has tiny components too
SumN(f) == NOp("+", f)
RigidT(h, w, L, e) ==
  LET Ro == Rn(h, T8, w, L)
      t == IF e = 0 THEN <<Eps, NQ(3, 1), NMul(-1, Eps)>> ELSE IF e = 1 THEN <<0, Eps, 0>> ELSE <<NAdd(1, Eps), -2, NQ(1, 4)>>
      p == <<NSub(2, Eps), Eps, -1>>
      H == CwS(Mat([i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 1>> ELSE <<Ro[i][1], Ro[i][2], Ro[i][3], t[i]>>]), Eps, 4)
      Rt(v, i) == SumN([j \in 1..3 |-> NMul(Ro[j][i], v[j])])             \* R^T v
      Rv(v, i) == SumN([j \in 1..3 |-> NMul(Ro[i][j], v[j])])
      Hi == CwS(Mat([i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 1>> ELSE <<Ro[1][i], Ro[2][i], Ro[3][i], Neg(Rt(t, i))>>]), Eps, 4)
      d == [i \in 1..3 |-> NSub(p[i], t[i])]
      Tx == << <<0, Neg(t[3]), t[2]>>, <<t[3], 0, Neg(t[1])>>, <<Neg(t[2]), t[1], 0>> >>
      TR(i, j) == SumN([c \in 1..3 |-> NMul(Tx[i][c], Ro[c][j])])
      A6 == CwS(Mat([i \in 1..6 |-> [j \in 1..6 |-> IF i <= 3 /\ j <= 3 THEN Ro[i][j] ELSE IF i >= 4 /\ j >= 4 THEN Ro[i - 3][j - 3]
                 ELSE IF i >= 4 THEN TR(i - 3, j) ELSE 0]]), Eps, 4)
      q == QV(h, T8, w, L)  r == RV(h, T8, w, L)  T == Cw(Vec(t), Eps) IN
  << To(Exp(Ev("id", <<H>>), H), 0), To(Ev("id", <<q>>), 1), To(Ev("id", <<r>>), 2), To(Ev("id", <<Vec(t)>>), 3),
     Exp(Ev("h_from_rotation", <<R(2), R(3)>>), H), Exp(Ev("h_from_quaternion", <<R(1), R(3)>>), H),
     Exp(Ev("get_parts_raw", <<R(0)>>), Tup(<<r, T>>)), Exp(Ev("get_parts", <<R(0)>>), Tup(<<PM(q), T>>)),
     To(Exp(Ev("h_inverse", <<R(0)>>), Hi), 4), Exp(Ev("h_inverse", <<R(4)>>), H),
     Exp(Ev("mul", <<R(0), R(4)>>), CwS(Mat([i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN 1 ELSE 0]]), Eps, 4)),
     Exp(Ev("h_inverse_transform", <<R(0), Vec(p)>>), CwS(Vec([i \in 1..3 |-> Rt(d, i)]), Eps, 4)),
     Exp(Ev("mul", <<R(0), Vec(<<p[1], p[2], p[3], 1>>)>>), CwS(Vec([i \in 1..4 |-> IF i = 4 THEN 1 ELSE NAdd(Rv(p, i), t[i])]), Eps, 4)),
     Exp(Ev("adjoint", <<R(0)>>), A6),
     To(Exp(Ev("se3_from_parts", <<R(2), R(3)>>), CwS(Mat([i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 0>> ELSE <<Ro[i][1], Ro[i][2], Ro[i][3], t[i]>>]), Eps, 4)), 5),
     Exp(Ev("se3_get_parts", <<R(5)>>), Tup(<<r, T>>)),
     Exp(Ev("translation_3d", <<Scl(t[1]), Scl(t[2]), Scl(t[3])>>), CwS(Mat([i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN 1 ELSE IF j = 4 THEN t[i] ELSE 0]]), Eps, 4)),
     Exp(Ev("ksi", <<Scl(Ang(h, T8)), Scl(t[1]), Scl(t[2])>>),
         LET M == Rn(h, T8, <<0, 0, 1>>, 1) IN CwS(Mat(<< <<M[1][1], M[1][2], t[1]>>, <<M[2][1], M[2][2], t[2]>>, <<0, 0, 1>> >>), Eps, 4)),
     Exp(Ev("translation_2d", <<Scl(t[1]), Scl(t[2])>>), CwS(Mat(<< <<1, 0, t[1]>>, <<0, 1, t[2]>>, <<0, 0, 1>> >>), Eps, 4)) >>

Obs(kd, h, w, L) ==
  CASE kd = "aa" -> AxisAngle(h, w, L)
    [] kd = "conv" -> Conv(h, w, L)
    [] kd = "euler" -> IF h THEN <<>> ELSE Euler(w, L)
    [] kd = "slerp" -> SlerpT(h, w, L)
    [] kd = "qfn" -> IF s > 0 THEN QFn(h, w, L) ELSE <<>>
    [] kd = "explog" -> ExpLog(h, w, L, 0) \o ExpLog(h, w, L, 3)
    [] kd = "dual" -> DualT(h, w, L, 0) \o DualT(h, w, L, 5)
    [] kd = "rigid" -> RigidT(h, w, L, 0) \o RigidT(h, w, L, 1) \o RigidT(h, w, L, 2)
    [] OTHER -> ScrewT(h, w, L, 0) \o ScrewT(h, w, L, -3)
Types == IF k <= 16 THEN Floats ELSE <<"f64">>
Init == /\ step = 0 /\ kind \in KINDS /\ k \in KS /\ s \in {-1, 1} /\ ax \in 1..10
        /\ \E h \in {FALSE, TRUE} : out = <<EvNew(0, Types)>> \o Obs(kind, h, Axes[ax], LenOf[ax])
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the axes are unit vectors
Laws == LET w == Axes[ax] IN w[1] * w[1] + w[2] * w[2] + w[3] * w[3] = LenOf[ax] * LenOf[ax]
=============================================================================
