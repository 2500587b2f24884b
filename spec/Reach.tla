--------------------------------- MODULE Reach ---------------------------------
(* Arguments of any size and with full mantissas. Angles, exponents and          *)
(* fractions are dyadic numbers n / 2^m (exact in both scalar types), so that     *)
(* what is expected is a closed expression in their sines, cosines and            *)
(* exponentials. Rotations turn several times, powers are large, small and        *)
(* fractional, interpolation goes arbitrarily close to its end points.            *)
EXTENDS Quat, Machine

CONSTANTS KIND, US

VARIABLES u
vars == <<step, out, u>>

Axes == << <<1, 0, 0>>, <<0, -1, 0>>, <<0, 3, 4>>, <<1, 2, -2>>, <<2, -3, 6>>, <<-4, 0, 3>>, <<0, 0, 1>>, <<-2, -1, 2>>, <<4, 4, -7>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>> >>
LenOf == << 1, 1, 5, 3, 7, 5, 1, 3, 9, 1, 1, 1 >>

Cs(x) == NOp("cos", <<x>>)
Sn(x) == NOp("sin", <<x>>)
P(e) == Tol(e, 11, 5)
CP(e, c) == Cond(e, NMul(NQ(1, 10), c))
N3(x, y, z) == NOp("*", <<x, y, z>>)
Ng(x) == NMul(-1, x)
Sum(s) == NOp("+", s)
\* half of n / 2^m
Dy(n, m) == NP2(n, -m)
Fl(x) == Max2(1, x)
\* |n| / 2^m, rounded up
Big(n, m) == Fl(1 + (Abs(n) \div PowI(2, m)))

\* ---- the quaternion and the matrix of a turn by n / 2^m about w / L
QT(n, m, w, L) == << Cs(Dy(n, m + 1)), N3(Sn(Dy(n, m + 1)), w[1], NQ(1, L)), N3(Sn(Dy(n, m + 1)), w[2], NQ(1, L)), N3(Sn(Dy(n, m + 1)), w[3], NQ(1, L)) >>
QTV(n, m, w, L) == Qua(QT(n, m, w, L))
MT(n, m, w, L) ==
  LET H == Hat(w)  c == Cs(Dy(n, m))  s == Sn(Dy(n, m))
      vc == N3(2, Sn(Dy(n, m + 1)), Sn(Dy(n, m + 1))) IN
  TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> Sum(<< IF i = j THEN c ELSE 0, NMul(vc, NQ(w[i] * w[j], L * L)), NMul(s, NQ(H[i][j], L)) >>)])])
MTV(n, m, w, L) == Mat(MT(n, m, w, L))
NV3(x, y, z) == <<x, y, z>>
QMq(p, q) == << Sum(<<NMul(p[1], q[1]), Ng(NMul(p[2], q[2])), Ng(NMul(p[3], q[3])), Ng(NMul(p[4], q[4]))>>),
                Sum(<<NMul(p[1], q[2]), NMul(p[2], q[1]), NMul(p[3], q[4]), Ng(NMul(p[4], q[3]))>>),
                Sum(<<NMul(p[1], q[3]), Ng(NMul(p[2], q[4])), NMul(p[3], q[1]), NMul(p[4], q[2])>>),
                Sum(<<NMul(p[1], q[4]), NMul(p[2], q[3]), Ng(NMul(p[3], q[2])), NMul(p[4], q[1])>>) >>

\* ---- C11: n1, n2 angles; m the scale; w any axis
Angles(n1, n2, m, w, L, sc) ==
  LET th == Scl(Dy(n1, m))  ph == Scl(Dy(n2, m))
      E3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
      enc == Vec([i \in 1..3 |-> NMul(Dy(n1, m), NQ(w[i], L))])
      c == Cs(Dy(n1, m))  s == Sn(Dy(n1, m))
      \* read back: the angle in (0, 2 pi)
      pos == n1 > 0 /\ n1 \div PowI(2, m) < 6 /\ n1 * 16 > PowI(2, m) IN
  << To(P(Exp(Ev("rotation", <<th, Vec([i \in 1..3 |-> sc * w[i]])>>), QTV(n1, m, w, L))), 0), P(Exp(Ev("norm2", <<R(0)>>), Scl(1))),
     P(Exp(Ev("to_rotation", <<R(0)>>), MTV(n1, m, w, L))),
     To(CP(Exp(Ev("rotation_ne", <<enc>>), QTV(n1, m, w, L)), Big(n1, m)), 1), P(Exp(Ev("norm2", <<R(1)>>), Scl(1))),
     To(P(Exp(Ev("rotation_from_axis_angle", <<Over(Vec(w), L), th>>), MTV(n1, m, w, L))), 2),
     To(P(Exp(Ev("rotation_from_axis_angle", <<Over(Vec(w), L), ph>>), MTV(n2, m, w, L))), 3),
     P(Exp(Ev("mul", <<R(2), R(3)>>), MTV(n1 + n2, m, w, L))),
     To(P(Exp(Ev("rotation", <<ph, Vec(w)>>), QTV(n2, m, w, L))), 3), P(Exp(Ev("mul", <<R(0), R(3)>>), QTV(n1 + n2, m, w, L))),
     P(Exp(Ev("rotation", <<ph, Vec([i \in 1..3 |-> -sc * w[i]])>>), QTV(-n2, m, w, L))),
     P(Exp(Ev("rotx", <<th>>), MTV(n1, m, E3[1], 1))), P(Exp(Ev("roty", <<th>>), MTV(n1, m, E3[2], 1))), P(Exp(Ev("rotz", <<th>>), MTV(n1, m, E3[3], 1))),
     P(Exp(Ev("rotx", <<ph>>), MTV(n2, m, E3[1], 1))), P(Exp(Ev("roty", <<ph>>), MTV(n2, m, E3[2], 1))), P(Exp(Ev("rotz", <<ph>>), MTV(n2, m, E3[3], 1))),
     P(Exp(Ev("rot2", <<th>>), Mat(<< <<c, Ng(s)>>, <<s, c>> >>))) >>
  \o (IF ~pos THEN <<>> ELSE
     << P(Exp(Ev("get_angle", <<R(0)>>), th)), P(Exp(Ev("get_axis", <<R(0)>>), Over(Vec(w), L))), P(Exp(Ev("axis_angle", <<R(1)>>), Tup(<<Over(Vec(w), L), th>>))),
        To(Ev("muls", <<R(0), Scl(NQ(Abs(sc), 4))>>), 4), P(Exp(Ev("axis_angle", <<R(4)>>), Tup(<<Over(Vec(w), L), th>>))),
        To(Ev("neg", <<R(4)>>), 5), P(Exp(Ev("axis_angle", <<R(5)>>), Tup(<<Over(Vec([i \in 1..3 |-> -w[i]]), L), Scl(NSub(NPi(2, 1), Dy(n1, m)))>>))) >>)
  \o << P(Exp(Ev("rotation", <<Scl(Dy(-n1, m)), Vec(w)>>), QTV(-n1, m, w, L))), P(Exp(Ev("rotx", <<Scl(Dy(-n1, m))>>), MTV(-n1, m, E3[1], 1))),
        P(Exp(Ev("roty", <<Scl(Dy(-n1, m))>>), MTV(-n1, m, E3[2], 1))), P(Exp(Ev("rotz", <<Scl(Dy(-n1, m))>>), MTV(-n1, m, E3[3], 1))) >>

\* ---- C12: products of three elementary rotations as sums of trigonometric monomials with integer coefficients.
\* An elementary rotation is Z + cos th C + sin th S for integer matrices Z, C, S.
EZ(c) == IF c = "X" THEN << <<1, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>> >> ELSE IF c = "Y" THEN << <<0, 0, 0>>, <<0, 1, 0>>, <<0, 0, 0>> >> ELSE << <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 1>> >>
EC(c) == MSub(MId(3), EZ(c))
ES(c) == IF c = "X" THEN Hat(<<1, 0, 0>>) ELSE IF c = "Y" THEN Hat(<<0, 1, 0>>) ELSE Hat(<<0, 0, 1>>)
Part(c, k) == IF k = 0 THEN EZ(c) ELSE IF k = 1 THEN EC(c) ELSE ES(c)
Fac(x, k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<Cs(x)>> ELSE <<Sn(x)>>
EuSeqs == <<"XYX", "XYZ", "XZX", "XZY", "YXY", "YXZ", "YZX", "YZY", "ZXY", "ZXZ", "none">>
EuAxes == [XYX |-> <<"X", "Y", "X">>, XYZ |-> <<"X", "Y", "Z">>, XZX |-> <<"X", "Z", "X">>, XZY |-> <<"X", "Z", "Y">>,
         YXY |-> <<"Y", "X", "Y">>, YXZ |-> <<"Y", "X", "Z">>, YZX |-> <<"Y", "Z", "X">>, YZY |-> <<"Y", "Z", "Y">>,
         ZXY |-> <<"Z", "X", "Y">>, ZXZ |-> <<"Z", "X", "Z">>, none |-> <<"Z", "Y", "X">>]
Terms27 == [i \in 1..27 |-> <<(i - 1) \div 9, ((i - 1) \div 3) % 3, (i - 1) % 3>>]
\* integer matrix of each monomial
Coef(s) == TLCEval([i \in 1..27 |-> LET t == Terms27[i]  a == EuAxes[s] IN MMul(MMul(Part(a[1], t[1]), Part(a[2], t[2])), Part(a[3], t[3]))])
CoefAll == TLCEval([s \in {EuSeqs[i] : i \in 1..11} |-> Coef(s)])
RECURSIVE Pick27(_, _, _, _, _)
Pick27(K, i, j, x, t) == IF t = 0 THEN <<>> ELSE LET r == Pick27(K, i, j, x, t - 1)  c == K[t][i][j] IN
                       IF c = 0 THEN r ELSE Append(r, NOp("*", <<c>> \o Fac(x[1], Terms27[t][1]) \o Fac(x[2], Terms27[t][2]) \o Fac(x[3], Terms27[t][3])))
EuM(s, x) == LET K == CoefAll[s] IN Mat([i \in 1..3 |-> [j \in 1..3 |-> LET t == Pick27(K, i, j, x, 27) IN IF t = <<>> THEN 0 ELSE Sum(t)]])
\* yaw, pitch, roll = n / 2^m
Eulers(n, m, si) ==
  LET x == <<Dy(n[1], m[1]), Dy(n[2], m[2]), Dy(n[3], m[3])>>
      a == <<Scl(x[1]), Scl(x[2]), Scl(x[3])>>
      D == EuM("none", x)
      hz(i) == Dy(n[i], m[i] + 1)
      q == QMq(QMq(<<Cs(hz(1)), 0, 0, Sn(hz(1))>>, <<Cs(hz(2)), 0, Sn(hz(2)), 0>>), <<Cs(hz(3)), Sn(hz(3)), 0, 0>>)
      \* |pitch| <= 3/2, |yaw|, |roll| <= 3
      reg == 2 * Abs(n[2]) <= 3 * PowI(2, m[2]) /\ Abs(n[1]) <= 3 * PowI(2, m[1]) /\ Abs(n[3]) <= 3 * PowI(2, m[3])
      Hm == [i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 1>> ELSE D.v[i] \o <<n[i] % 7>>] IN
  << To(P(Exp(Ev("euler_to_rotation", a \o <<Str("none")>>), D)), 0),
     To(P(Exp(Ev("from_euler", a), Qua(q))), 1), P(Exp(Ev("norm2", <<R(1)>>), Scl(1))), P(Exp(Ev("to_rotation", <<R(1)>>), D)),
     CP(Exp(Ev("euler_rebuild", <<R(0)>>), D), 10), CP(Exp(Ev("euler_rebuild", <<D>>), D), 10), CP(Exp(Ev("euler_rebuild", <<R(1)>>), PM(Qua(q))), 10),
     P(Exp(Ev("get_parts", <<Mat(Hm)>>), Tup(<<PM(Qua(q)), SkipV>>))) >>
  \o [i \in 1..3 |-> LET s == EuSeqs[1 + ((si + 4 * i) % 11)] IN P(Exp(Ev("euler_to_rotation", a \o <<Str(s)>>), EuM(s, x)))]
  \o (IF ~reg THEN <<>> ELSE
     << CP(Exp(Ev("rotation_to_euler", <<D>>), Tup(a)), 50), CP(Exp(Ev("rotation_to_euler", <<R(0)>>), Tup(a)), 50), CP(Exp(Ev("to_euler", <<R(1)>>), Tup(a)), 50) >>)

\* ---- C13: end points 2 al apart on the sphere (al = n / 2^m < pi/2), the fraction t / 2^20
Slerps(a, w, L, n, m, t, sg) ==
  LET A == [i \in 1..4 |-> NRt(a[i], 1, QN(a))]
      pt(z) == QMq(A, << Cs(z), N3(Sn(z), w[1], NQ(1, L)), N3(Sn(z), w[2], NQ(1, L)), N3(Sn(z), w[3], NQ(1, L)) >>)
      al == Dy(n, m)
      B == pt(al)
      C(e) == CP(e, 1 + (PowI(2, m - 22) * 10000000) \div n)
      f(s) == Scl(NP2(s, -20)) IN
  << To(Ev("id", <<Qua(A)>>), 0), To(Ev("id", <<Qua([i \in 1..4 |-> NMul(sg, B[i])])>>), 1) >>
  \o [i \in 1..Len(t) |-> C(Exp(Ev("slerp", <<R(0), R(1), f(t[i])>>), Qua(pt(NMul(NP2(t[i], -20), al)))))]
  \o [i \in 1..Len(t) |-> C(Exp(Ev("slerp", <<R(1), R(0), f(t[i])>>), LET y == pt(NMul(NP2(1048576 - t[i], -20), al)) IN Qua([j \in 1..4 |-> NMul(sg, y[j])])))]
  \o << P(Exp(Ev("slerp", <<R(0), R(0), f(t[1])>>), Qua(A))) >>

\* ---- C14: x = a / d; c = n / 2^m a real exponent, and one parallel to the imaginary part
Along(p, q, v) == LET nn == Dot(v, v) IN Qua(<<p, NMul(q, NRt(v[1], 1, nn)), NMul(q, NRt(v[2], 1, nn)), NMul(q, NRt(v[3], 1, nn))>>)
Powers(a, d, n, m, g) ==
  LET v == Imag(a)  nn == Dot(v, v)
      ln == NSub(NMul(NQ(1, 2), NOp("ln", <<QN(a)>>)), NOp("ln", <<d>>))
      arg == NAt(NRt(1, nn, 1), a[1])
      c == Dy(n, m)  b == Big(n, m)
      mod(y, z) == NOp("exp", <<NSub(NMul(y, ln), NMul(z, arg))>>)        \* exponent y + z u
      ang(y, z) == NAdd(NMul(y, arg), NMul(z, ln))
      val(y, z) == CwS(Along(NMul(mod(y, z), Cs(ang(y, z))), NMul(mod(y, z), Sn(ang(y, z))), v), 0, NMul(16 * b, mod(y, z)))
      g1 == NQ(g, 8)
      par(y, z) == Qua(<<y, NMul(z, NRt(v[1], 1, nn)), NMul(z, NRt(v[2], 1, nn)), NMul(z, NRt(v[3], 1, nn))>>)
      X == Over(Qua(a), d) IN
  IF nn = 0 /\ a[1] <= 0 THEN <<>>
  ELSE IF nn = 0 THEN << To(Ev("id", <<X>>), 0),
        P(Exp(Ev("pow", <<R(0), Qua(<<c, 0, 0, 0>>)>>), LET e == NOp("exp", <<NMul(c, ln)>>) IN CwS(Qua(<<e, 0, 0, 0>>), 0, NMul(16 * b, e)))) >>
  ELSE << To(Ev("id", <<X>>), 0),
     P(Exp(Ev("pow", <<R(0), Qua(<<c, 0, 0, 0>>)>>), val(c, 0))),
     P(Exp(Ev("pow", <<R(0), par(c, g1)>>), val(c, g1))),
     P(Exp(Ev("pow", <<R(0), par(0, g1)>>), val(0, g1))) >>
\* a real part up to 30, an imaginary part up to 12 n / 2^m
Funs(a, n, m, w, L) ==
  LET r == NQ(a, 4)  z == Dy(n, m)
      al(p, q) == Qua(<<p, N3(q, w[1], NQ(1, L)), N3(q, w[2], NQ(1, L)), N3(q, w[3], NQ(1, L))>>)
      ex == NOp("exp", <<r>>)
      ch == NOp("cosh", <<z>>)  sh == NOp("sinh", <<z>>)
      b == 16 * Big(n, m) IN
  << To(Ev("id", <<al(r, z)>>), 0),
     P(Exp(Ev("exp", <<R(0)>>), CwS(al(NMul(ex, Cs(z)), NMul(ex, Sn(z))), 0, NMul(b, ex)))),
     Tol(Exp(Ev("sin", <<R(0)>>), CwS(al(NMul(Sn(r), ch), NMul(Cs(r), sh)), 0, NMul(16, ch))), 10, 4),
     Tol(Exp(Ev("cos", <<R(0)>>), CwS(al(NMul(Cs(r), ch), Ng(NMul(Sn(r), sh))), 0, NMul(16, ch))), 10, 4) >>

\* ---- C17, C20: the screw about w / L through c, by the angle n / 2^m, displaced by g / 2^h; everything in units of 2^u
Un(x) == IF u = 0 THEN x ELSE NMul(x, NP2(1, u))
Mom(w, L, c) == LET x == Cross(c, w) IN [i \in 1..3 |-> NQ(x[i], L)]
\* the dual quaternion, angle and displacement given as numbers
DQ(th, ds, w, L, c) ==
  LET hf == NMul(NQ(1, 2), th)  co == Cs(hf)  si == Sn(hf)  mm == Mom(w, L, c)  hd == NMul(NQ(1, 2), ds) IN
  << co, N3(si, w[1], NQ(1, L)), N3(si, w[2], NQ(1, L)), N3(si, w[3], NQ(1, L)),
     Un(Ng(NMul(hd, si))), Un(Sum(<<NMul(si, mm[1]), N3(hd, co, NQ(w[1], L))>>)), Un(Sum(<<NMul(si, mm[2]), N3(hd, co, NQ(w[2], L))>>)), Un(Sum(<<NMul(si, mm[3]), N3(hd, co, NQ(w[3], L))>>)) >>
DqMul(x, y) == LET a == SubSeq(x, 1, 4)  b == SubSeq(x, 5, 8)  c == SubSeq(y, 1, 4)  d == SubSeq(y, 5, 8)
                   e == QMq(a, d)  f == QMq(b, c) IN QMq(a, c) \o [i \in 1..4 |-> NAdd(e[i], f[i])]
DV(x) == Tl(Dua(x), u)
Screws(w, L, c, n, m, g, h, tn, tm, b) ==
  LET th == Dy(n, m)  ds == Dy(g, h)  ta == Dy(tn, tm)
      mm == Mom(w, L, c)
      X == DQ(th, ds, w, L, c)
      pw(k) == DQ(NMul(k, th), NMul(k, ds), w, L, c)
      lv == Over(Vec(w), L)  mv == Tl(Vec([i \in 1..3 |-> Un(mm[i])]), u)
      dv == Tl(Scl(Un(ds)), u)
      sz == 4 * (4 + (Abs(g) \div PowI(2, h))) * Big(tn, tm)
      prm == Tup(<<lv, mv, Scl(th), dv>>)
      lg == Tl(Dua([i \in 1..8 |-> IF i \in {1, 5} THEN 0 ELSE IF i <= 4 THEN N3(NQ(1, 2), th, NQ(w[i - 1], L))
                  ELSE Un(NMul(NQ(1, 2), NAdd(NMul(th, mm[i - 5]), NMul(ds, NQ(w[i - 5], L)))))]), u)
      \* b: an integer rotation with its translation v
      Bq == [i \in 1..4 |-> NRt(b[i], 1, QN(SubSeq(b, 1, 4)))]
      Bt == QMul(<<0, b[5], b[6], b[7]>>, SubSeq(b, 1, 4))
      B == Bq \o [i \in 1..4 |-> Un(NRt(Bt[i], 4, 16 * QN(SubSeq(b, 1, 4))))]
      t1 == NP2(Abs(tn) % 1048577, -20)
      at(k) == DqMul(B, pw(k)) IN
  << To(CP(Exp(Ev("d_from_screw", <<lv, mv, Scl(th), dv>>), DV(X)), sz), 0), To(Ev("id", <<DV(X)>>), 1),
     CP(Exp(Ev("screw_params", <<R(0)>>), prm), 8 * sz), CP(Exp(Ev("screw_params", <<R(1)>>), prm), 8 * sz),
     CP(Exp(Ev("screw_rebuild", <<R(0)>>), DV(X)), 8 * sz),
     To(Ev("normalize", <<R(1)>>), 5), CP(Exp(Ev("log", <<R(5)>>), lg), 8 * sz),
     CP(Exp(Ev("pow", <<R(0), Scl(ta)>>), DV(pw(ta))), 8 * sz), CP(Exp(Ev("pow", <<R(1), Scl(ta)>>), DV(pw(ta))), 8 * sz),
     CP(Exp(Ev("pow", <<R(0), Scl(t1)>>), DV(pw(t1))), 8 * sz) >>
  \* less than half a turn: interpolation between b and +-b X
  \o (IF n > 3 * PowI(2, m) THEN <<>> ELSE
     << To(Ev("id", <<DV(B)>>), 2), To(CP(Exp(Ev("mul", <<R(2), R(1)>>), DV(at(1))), 8 * sz), 3), To(Ev("neg", <<R(3)>>), 4),
        CP(Exp(Ev("screw_lerp", <<R(2), R(3), Scl(t1)>>), PM(DV(at(t1)))), 32 * sz),
        CP(Exp(Ev("screw_lerp", <<R(2), R(4), Scl(t1)>>), PM(DV(at(t1)))), 32 * sz),
        CP(Exp(Ev("screw_lerp", <<R(3), R(2), Scl(t1)>>), PM(DV(at(NSub(1, t1))))), 32 * sz) >>)
\* the same screw in se(3), any number of turns
Twists(w, L, c, n, m, g, h) ==
  LET th == Dy(n, m)  ds == Dy(g, h)
      mm == Mom(w, L, c)
      Ro == MT(n, m, w, L)
      sz == 4 * (4 + (Abs(g) \div PowI(2, h))) * Big(n, m)
      \* translation (I - R) c + d l
      t == [i \in 1..3 |-> Un(Sum(<< c[i], Ng(NMul(Ro[i][1], c[1])), Ng(NMul(Ro[i][2], c[2])), Ng(NMul(Ro[i][3], c[3])), NMul(ds, NQ(w[i], L)) >>))]
      Hm == Tl(Mat([i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 1>> ELSE Ro[i] \o <<t[i]>>]), u)
      om == [i \in 1..3 |-> NMul(th, NQ(w[i], L))]
      ve == [i \in 1..3 |-> Un(NAdd(NMul(th, mm[i]), NMul(ds, NQ(w[i], L))))]
      So == Mat(<< <<0, Ng(om[3]), om[2]>>, <<om[3], 0, Ng(om[1])>>, <<Ng(om[2]), om[1], 0>> >>)
      Tw == Tl(Mat(<< <<0, Ng(om[3]), om[2], ve[1]>>, <<om[3], 0, Ng(om[1]), ve[2]>>, <<Ng(om[2]), om[1], 0, ve[3]>>, <<0, 0, 0, 0>> >>), u)
      \* below half a turn by a margin the logarithm is the twist itself
      lo == n > 0 /\ n <= 3 * PowI(2, m) IN
  << To(CP(Exp(Ev("mexp", <<So>>), Mat(Ro)), Big(n, m)), 0), To(CP(Exp(Ev("mexp6", <<Tw>>), Hm), 8 * sz), 1),
     P(Exp(Ev("mexplog", <<Mat(Ro)>>), SkipV)), CP(Exp(Ev("twist_to_se3", <<Tl(Vec(om \o ve), u)>>), Tw), 2) >>
  \o (IF n = 0 THEN <<>> ELSE << P(Exp(Ev("exp_axis_angle", <<Vec(om)>>), Tup(<<Over(Vec(IF n > 0 THEN w ELSE VNeg(w)), L), Scl(Dy(Abs(n), m))>>))) >>)
  \o (IF ~lo THEN <<>> ELSE
     << CP(Exp(Ev("mlog", <<Mat(Ro)>>), So), 64), CP(Exp(Ev("mlog", <<R(0)>>), So), 64), CP(Exp(Ev("mexplog", <<R(0)>>), Mat(Ro)), 64),
        CP(Exp(Ev("mlog6", <<Hm>>), Tw), 64 * sz), CP(Exp(Ev("mlog6", <<R(1)>>), Tw), 64 * sz), CP(Exp(Ev("mexplog6", <<R(1)>>), Hm), 64 * sz) >>)

\* ---- C16: planar motions by any angle
Planar(n, m, v, d, n2, w) ==
  LET K(nn, x) == Tl(Mat(<< <<Cs(Dy(nn, m)), Ng(Sn(Dy(nn, m))), Un(NQ(x[1], d))>>, <<Sn(Dy(nn, m)), Cs(Dy(nn, m)), Un(NQ(x[2], d))>>, <<0, 0, 1>> >>), u)
      E(nn, x) == Ev("ksi", <<Scl(Dy(nn, m)), Scl(Un(NQ(x[1], d))), Scl(Un(NQ(x[2], d)))>>)
      c == Cs(Dy(n, m))  s == Sn(Dy(n, m))
      tr == << Sum(<<NQ(v[1], d), NMul(c, NQ(w[1], d)), Ng(NMul(s, NQ(w[2], d)))>>), Sum(<<NQ(v[2], d), NMul(s, NQ(w[1], d)), NMul(c, NQ(w[2], d))>>) >> IN
  << To(P(Exp(E(n, v), K(n, v))), 0), To(P(Exp(E(n2, w), K(n2, w))), 1), P(Exp(E(-n, w), K(-n, w))),
     CP(Exp(Ev("mul", <<R(0), R(1)>>), Tl(Mat(<< <<Cs(Dy(n + n2, m)), Ng(Sn(Dy(n + n2, m))), Un(tr[1])>>, <<Sn(Dy(n + n2, m)), Cs(Dy(n + n2, m)), Un(tr[2])>>, <<0, 0, 1>> >>), u)), 16) >>

M22 == 4000000
Nz(x) == IF x = 0 THEN 77777 ELSE x
Nzq(q) == IF q = QZero THEN <<2, -1, 1, 3>> ELSE q
Act ==
  IF KIND = "aa" THEN
     \E n \in {RandV(2, -M22, M22)} : \E m \in Pick({12, 14, 16, 18, 19, 20, 21, 22, 24}) : \E i \in Pick(1..12) : \E s \in Pick({1, 2, 3, 7, 50}) :
     out' = Angles(Nz(n[1]), n[2], m, Axes[i], LenOf[i], s)
  ELSE IF KIND = "euler" THEN
     \E n \in {RandV(3, -M22, M22)} : \E h \in Pick(0..4) : \E m \in {RandV(3, 15, 24)} : \E i \in Pick(0..10) :
     out' = Eulers(<<Nz(n[1]), Nz(n[2]), Nz(n[3])>>, IF h = 0 THEN m ELSE IF h = 1 THEN <<21, 22, 21>> ELSE TLCEval([j \in 1..3 |-> Min2(24, (IF j = 2 THEN 22 ELSE 21) + (m[j] % 3))]), i)
  ELSE IF KIND = "slerp" THEN
     \E a \in {RandV(4, -9, 9)} : \E i \in Pick(1..12) : \E n \in Pick(100000..6000000) : \E m \in Pick({22, 22, 23, 24}) : \E t \in {RandV(2, 0, 1048576)} : \E s \in Pick({-1, 1}) : \E h \in Pick(0..10) :
     LET e == TLCEval(PowI(2, 2 * h)) IN
     out' = Slerps(Nzq(a), Axes[i], LenOf[i], n, m, <<t[1], e, 1048576 - e, t[2]>>, s)
  ELSE IF KIND = "qfn" THEN
     \E a \in {RandV(4, -12, 12)} : \E d \in Pick({1, 2, 3, 5, 8}) : \E h \in Pick(0..3) : \E n \in {RandV(2, -M22, M22)} : \E m \in Pick({19, 20, 21, 22, 24, 28}) : \E g \in Pick(-12..12) :
     \E i \in Pick(1..12) : \E r \in Pick(-120..120) : \E mm \in Pick({19, 20, 21, 22, 23}) : \E kp \in Pick(-24..24) : \E kh \in Pick(0..5) :
     \* whole and half exponents too
     out' = Powers(IF h = 0 THEN <<a[1], 0, 0, 0>> ELSE IF h = 1 THEN [a EXCEPT ![3] = 0, ![4] = 0] ELSE a, d, IF kh < 3 /\ kp # 0 THEN kp ELSE Nz(n[1]), IF kh < 2 /\ kp # 0 THEN 0 ELSE IF kh < 3 /\ kp # 0 THEN 1 ELSE m, g) \o Funs(r, Nz(n[2]), mm, Axes[i], LenOf[i])
  ELSE IF KIND = "se3" THEN
     \E i \in Pick(1..12) : \E c \in {RandV(3, -4, 4)} : \E n \in Pick((-M22)..M22) : \E m \in Pick({16, 18, 20, 21, 21, 22, 23}) : \E g \in Pick((-M22)..M22) : \E h \in Pick({20, 22, 24}) :
     out' = Twists(Axes[i], LenOf[i], c, Nz(n), m, g, h)
  ELSE IF KIND = "screw" THEN
     \E i \in Pick(1..12) : \E c \in {RandV(3, -4, 4)} : \E n \in Pick(400000..6000000) : \E m \in Pick({20, 20, 21, 21, 22}) : \E g \in Pick((-M22)..M22) : \E h \in Pick({20, 22, 24}) :
     \E tn \in Pick((-M22)..M22) : \E tm \in Pick({19, 20, 21, 22, 26}) : \E b \in {RandV(7, -4, 4)} : \E kp \in Pick(-24..24) : \E kh \in Pick(0..5) :
     out' = Screws(Axes[i], LenOf[i], c, n, m, g, h, IF kh < 3 THEN kp ELSE Nz(tn), IF kh < 2 THEN 0 ELSE IF kh < 3 THEN 1 ELSE tm, IF SubSeq(b, 1, 4) = QZero THEN <<1, -2, 0, 2, b[5], b[6], b[7]>> ELSE b)
  ELSE \E n \in {RandV(2, -M22, M22)} : \E m \in Pick({12, 14, 16, 18, 20, 22, 24}) : \E v \in {RandV(2, -99, 99)} : \E w \in {RandV(2, -99, 99)} : \E d \in Pick({1, 2, 8, 7}) :
     out' = Planar(n[1], m, v, d, n[2], w)

Init == step = 0 /\ out = <<EvNew(0, Floats)>> /\ u \in {<<0, -14, 20>>[i] : i \in US}
Next == step' = step + 1 /\ UNCHANGED u /\ Act
Spec == Init /\ [][Next]_vars
\* the monomials of each sequence: at angle 0 the product is the identity; at a quarter turn about each axis, a signed permutation
Laws == step # 1 \/ \A i \in 1..11 : LET K == CoefAll[EuSeqs[i]]
             at(f) == LET w(t) == (IF t = 0 THEN 1 ELSE IF t = f THEN 1 ELSE 0)
                          T(j) == MScale(K[j], w(Terms27[j][1]) * w(Terms27[j][2]) * w(Terms27[j][3])) IN
                      [a \in 1..3 |-> [b \in 1..3 |-> SumTo([j \in 1..27 |-> T(j)[a][b]], 27)]] IN
        at(1) = MId(3) /\ MMul(at(2), Transpose(at(2))) = MId(3) /\ Det(at(2)) = 1
=============================================================================
