-------------------------------- MODULE Screw --------------------------------
(* Screw motions: half-angle direction z = (z1, z2), z2 > 0 (angle 2 atan2 in   *)
(* (0, 2 pi)), axis w / L (L = |w|, an integer) through the point c,            *)
(* displacement e / f. The model knows every power exactly as a rigid motion.    *)
(* Lengths are in units of 2^s.                                                *)
EXTENDS Pose, Machine

CONSTANTS LIM        \* exhaustive: |z1|, z2 <= LIM

VARIABLES z, B
vars == <<step, out, z, B>>

Axes == << <<1, 0, 0>>, <<0, -1, 0>>, <<0, 3, 4>>, <<1, 2, -2>>, <<2, -3, 6>>, <<-4, 0, 3>>, <<0, 0, 1>>, <<-2, -1, 2>>, <<4, 4, -7>>, <<-1, 0, 0>> >>
LenOf == << 1, 1, 5, 3, 7, 5, 1, 3, 9, 1 >>

RECURSIVE ZPow(_, _)
ZPow(x, k) == IF k = 0 THEN <<1, 0>> ELSE LET y == ZPow(x, k - 1) IN <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Up(x, n) == MaxAbs(x) <= 30 /\ \A k \in 1..n : ZPow(x, k)[2] > 0
Quad(x, n) == MaxAbs(x) <= 30 /\ \A k \in 1..n : ZPow(x, k)[1] > 0 /\ ZPow(x, k)[2] > 0
NegZ(x) == <<x[1], -x[2]>>
LV(w, L) == Over(Vec(w), L)
MV(w, L, c, s) == LET m == Cross(c, w) IN Tl(Vec([i \in 1..3 |-> Tn(m[i], L, s)]), s)
Ln(e, f, s) == Tl(Scl(Tn(e, f, s)), s)                    \* a length
TVv(v, d, s) == Tl(Vec([i \in 1..3 |-> Tn(v[i], d, s)]), s)
U(x, s) == IF s = 0 THEN x ELSE NMul(x, NP2(1, s))
Half(x) == Over(x, 2)
ThN(x, k) == NMul(2 * k, NAt(x[2], x[1]))                 \* k times the angle of x

\* dual quaternion of the k-th power / its pose
S(x, w, L, c, e, f, k) == ScPow(x, w, L, c, e, f, k)
Sz(x) == LET r == Abs(x[1]) \div Max2(1, Abs(x[2])) IN 1 + r

\* the logarithm: (theta l, theta m + d l) / 2
LogX(x, w, L, c, e, f, s) ==
  LET th == ThN(x, 1)  mm == Cross(c, w) IN
  Tl(Dua([i \in 1..8 |-> IF i = 1 \/ i = 5 THEN 0
        ELSE IF i <= 4 THEN NMul(NQ(w[i - 1], 2 * L), th)
        ELSE U(NAdd(NMul(NQ(mm[i - 5], 2 * L), th), NQ(w[i - 5] * e, 2 * L * f)), s)]), s)

Obs(x, w, L, c, e, f, s) ==
  LET P1 == S(x, w, L, c, e, f, 1)
      \* the single power, moved by -1 sign the angle is 2 pi - theta about the opposite axis
      th == ThN(x, 1)
      prm == Tup(<< LV(w, L), MV(w, L, c, s), Scl(th), Ln(e, f, s) >>) IN
  << To(Exp(Ev("id", <<DP(P1, s)>>), DP(P1, s)), 0),
     To(Exp(Ev("d_from_rt", <<UQ(P1.q), TV(P1, s)>>), DP(P1, s)), 1),
     Exp(Ev("d_from_screw", <<LV(w, L), MV(w, L, c, s), Scl(th), Ln(e, f, s)>>), DP(P1, s)),
     \* the same motion the other way round
     Exp(Ev("d_from_screw", <<LV(VNeg(w), L), MV(VNeg(w), L, c, s), Scl(NMul(-1, th)), Ln(-e, f, s)>>), DP(P1, s)),
     Cond(Exp(Ev("screw_params", <<R(0)>>), prm), Sz(x) * Sz(x)),
     Cond(Exp(Ev("screw_params", <<R(1)>>), prm), Sz(x) * Sz(x)),
     \* the opposite representation
     Cond(Exp(Ev("screw_params", <<DP(PNeg(P1), s)>>), Tup(<< LV(VNeg(w), L), MV(VNeg(w), L, c, s), Scl(NSub(NPi(2, 1), th)), Ln(-e, f, s) >>)), Sz(x) * Sz(x)),
     Cond(Exp(Ev("screw_rebuild", <<R(0)>>), DP(P1, s)), Sz(x)),
     Cond(Exp(Ev("screw_rebuild", <<DP(PNeg(P1), s)>>), DP(PNeg(P1), s)), Sz(x)),
     Cond(Exp(Ev("log", <<R(1)>>), LogX(x, w, L, c, e, f, s)), Sz(x) * Sz(x)),
     Exp(Ev("log", <<R(0)>>), OneOf(<<NoneV, LogX(x, w, L, c, e, f, s)>>)),
     Exp(Ev("pow", <<R(0), Scl(0)>>), Tl(Dua(DOne), s)),
     Cond(Exp(Ev("pow", <<R(0), Scl(1)>>), DP(P1, s)), Sz(x)),
     Cond(Exp(Ev("pow", <<R(1), Scl(-1)>>), DP(S(x, w, L, c, e, f, -1), s)), Sz(x)) >>
Pw(x, w, L, c, e, f, k, s) ==
     Cond(Exp(Ev("pow", <<R(0), Scl(k)>>), DP(S(x, w, L, c, e, f, k), s)), Abs(k) * Sz(x))
\* x^n to the power j / n
Roots(x, w, L, c, e, f, n, s) ==
  << To(Ev("id", <<DP(S(x, w, L, c, e, f, n), s)>>), 2) >> \o
  [j \in 1..(n + 1) |-> Cond(Exp(Ev("pow", <<R(2), Scl(NQ(j, n))>>), DP(S(x, w, L, c, e, f, j), s)), 2 * Sz(x) * n)] \o
  << Cond(Exp(Ev("pow", <<R(2), Scl(NQ(-1, n))>>), DP(S(x, w, L, c, e, f, -1), s)), 2 * Sz(x) * n) >>
\* interpolation from b to +-b x^n: the points b x^k
Lerp(b, x, w, L, c, e, f, n, sg, s) ==
  LET E == PMul(b, S(x, w, L, c, e, f, n))
      big == 4 + MaxAbs(b.v) \div b.d + MaxAbs(E.v) \div E.d IN
  << To(Ev("d_from_rt", <<UQ(b.q), TV(b, s)>>), 3), To(Ev("id", <<IF sg > 0 THEN DP(E, s) ELSE DP(PNeg(E), s)>>), 4) >> \o
  [j \in 1..(n + 1) |-> LET k == j - 1 IN
     Cond(Exp(Ev("screw_lerp", <<R(3), R(4), Scl(NQ(k, n))>>), PM(DP(PMul(b, S(x, w, L, c, e, f, k)), s))), big * Sz(x))]
  \* and back
  \o << Cond(Exp(Ev("screw_lerp", <<R(4), R(3), Scl(NQ(1, n))>>), PM(DP(PMul(b, S(x, w, L, c, e, f, n - 1)), s))), big * Sz(x)) >>
\* ---- pure translations v / d
Trans(b, v, d, s) ==
  LET T(p, q) == RedV(QOne, VScale(v, p), d * q)
      E == PMul(b, T(1, 1))  big == 4 + MaxAbs(b.v) \div b.d + MaxAbs(v)
      half == Tl(Dua([i \in 1..8 |-> IF i <= 5 THEN 0 ELSE Tn(v[i - 5], 2 * d, s)]), s)
      \* -1 is also the full turn about the direction of the translation
      full == Tl(Dua([i \in 1..8 |-> IF i \in {1, 5} THEN 0 ELSE IF i < 5 THEN NMul(NPi(1, 1), NRt(v[i - 1], 1, Max2(1, Dot(v, v)))) ELSE Tn(v[i - 5], 2 * d, s)]), s)
      len == Tl(Scl(U(NRt(1, Dot(v, v), d * d), s)), s)
      \* a translation within rounding of zero has no direction
      axis == IF v = <<0, 0, 0>> THEN Vec(v) ELSE IF s <= -20 THEN SkipV ELSE Dir(Vec(v)) IN
  << To(Exp(Ev("d_from_translation", <<TVv(v, d, s)>>), DP(T(1, 1), s)), 5),
     To(Ev("id", <<DP(T(1, 1), s)>>), 6),
     Exp(Ev("pow", <<R(5), Scl(3)>>), DP(T(3, 1), s)), Exp(Ev("pow", <<R(6), Scl(NQ(1, 2))>>), DP(T(1, 2), s)),
     Exp(Ev("pow", <<R(6), Scl(-1)>>), DP(T(-1, 1), s)), Exp(Ev("pow", <<R(5), Scl(0)>>), Tl(Dua(DOne), s)),
     To(Ev("neg", <<R(5)>>), 8),
     Exp(Ev("log", <<R(5)>>), half), Exp(Ev("log", <<R(8)>>), OneOf(<<NoneV, half, full>>)),
     Exp(Ev("screw_params", <<R(5)>>), Tup(<< axis, SkipV, Scl(0), len >>)),
     \* the opposite representation: no turn, or a full one
     Exp(Ev("screw_params", <<DP(PNeg(T(1, 1)), s)>>), Tup(<< axis, SkipV, OneOf(<<Scl(0), Scl(NPi(2, 1))>>), len >>)) >>
  \o (IF ~MulSafe(b, T(3, 4)) THEN <<>> ELSE
     << To(Ev("id", <<DP(b, s)>>), 3), To(Ev("id", <<DP(E, s)>>), 4), To(Ev("id", <<DP(PNeg(E), s)>>), 7),
        Cond(Exp(Ev("screw_lerp", <<R(3), R(4), Scl(0)>>), PM(DP(b, s))), big), Cond(Exp(Ev("screw_lerp", <<R(3), R(4), Scl(1)>>), PM(DP(E, s))), big),
        Tol(Exp(Ev("screw_lerp", <<R(3), R(4), Scl(NQ(3, 4))>>), PM(DP(PMul(b, T(3, 4)), s))), 6, 2),
        Tol(Exp(Ev("screw_lerp", <<R(3), R(7), Scl(NQ(1, 4))>>), PM(DP(PMul(b, T(1, 4)), s))), 6, 2) >>)

Nz(q) == IF q = QZero THEN <<1, 1, 0, 0>> ELSE q
\* within machine integers
RECURSIVE PowLe(_, _, _)
PowLe(x, k, lim) == IF k = 0 THEN TRUE ELSE IF x > lim THEN FALSE ELSE PowLe(x, k - 1, lim \div x)
PowOk(x, w, L, k) == PowLe(QN(QRed(ScQ(x, w, L))), k, 30000)
Reach(b, x, w, L, c, e, f, n) == IF ~PowOk(x, w, L, n) THEN FALSE ELSE
  \A k \in 1..n : LET y == S(x, w, L, c, e, f, k) IN IF MulSafe(b, y) THEN DSafe(PMul(b, y)) ELSE FALSE
\* everything for one screw, as far as the numbers stay small
Full(x, ax, c, e, f, b, n, sg, k, s) ==
  LET w == Axes[ax]  L == LenOf[ax] IN
  Obs(x, w, L, c, e, f, s)
  \o (IF PowOk(x, w, L, Abs(k)) THEN << Pw(x, w, L, c, e, f, k, s) >> ELSE <<>>)
  \o (IF PowOk(x, w, L, n + 1) /\ Up(x, n) THEN Roots(x, w, L, c, e, f, n, s) ELSE <<>>)
  \o (IF Quad(x, n) /\ Reach(b, x, w, L, c, e, f, n) THEN Lerp(b, x, w, L, c, e, f, n, sg, s) ELSE <<>>)
  \o (IF Quad(x, 1) /\ Reach(b, x, w, L, c, e, f, 1) THEN Lerp(b, x, w, L, c, e, f, 1, sg, s) ELSE <<>>)

InitS == SIM /\ z = <<1, 1>> /\ B = PId /\ step = 0 /\ out = <<>>
InitX == /\ ~SIM /\ step = 0 /\ B \in {PId, RedV(<<1, -1, 2, 1>>, <<1, -2, 3>>, 2)} /\ z \in ((-LIM)..LIM) \X (1..LIM)
         /\ \E ax \in {2, 4, 7} : \E e \in {0, -3} : \E c \in {<<0, 0, 0>>, <<2, -1, 3>>} :
            out = <<EvNew(0, Floats)>> \o Full(z, ax, c, e, 2, B, 2, IF e = 0 THEN 1 ELSE -1, 2, IF z[1] < 0 THEN 20 ELSE 0)
Init == InitS \/ InitX
DrawQ(h) == IF h = 0 THEN RandV(4, -1, 1) ELSE IF h = 1 THEN RandV(4, -3, 3) ELSE IF h = 2 THEN TLCEval(Pure(RandV(3, -5, 5))) ELSE RandV(4, -7, 7)
DrawZ(h) == IF h <= 3 THEN TLCEval(<<RandomElement(-3..3), RandomElement(1..3)>>) ELSE IF h <= 5 THEN TLCEval(<<RandomElement(1..4), RandomElement(1..2)>>)
            ELSE IF h = 6 THEN TLCEval(<<RandomElement({-20, -10, 10, 20}), 1>>) ELSE IF h = 7 THEN TLCEval(<<RandomElement({-1, 0, 1}), 20>>)
            ELSE TLCEval(<<RandomElement(-9..9), RandomElement(1..9)>>)
Next == /\ SIM /\ step' = step + 1
        /\ IF step = 0 THEN UNCHANGED <<z, B>> /\ out' = <<EvNew(0, Floats), Exp(Ev("pow", <<Dua(DOne), Scl(3)>>), Dua(DOne))>>
           ELSE \E h \in Pick(0..8) : \E x \in {DrawZ(h)} : \E g \in Pick(0..3) : \E q \in {DrawQ(g)} : \E v \in {RandV(3, -5, 5)} :
                \E d \in Pick({1, 2}) : \E zc \in Pick(0..2) : \E ze \in Pick(0..2) : \E c \in {IF zc = 0 THEN <<0, 0, 0>> ELSE RandV(3, -4, 4)} : \E e \in {IF ze = 0 THEN 0 ELSE RandomElement(-5..5)} : \E f \in Pick({1, 2, 3}) : \E ax \in Pick(1..10) :
                \E n \in Pick(2..3) : \E sg \in Pick({-1, 1}) : \E k \in Pick({-5, -4, -3, -2, 2, 3, 4, 4, 5, 6, 8}) : \E s \in Pick({0, -14, -30, 20, 33}) :
                LET b == RedV(IF zc + ze = 3 THEN <<z[1], z[2] * Axes[ax][1], z[2] * Axes[ax][2], z[2] * Axes[ax][3]>> ELSE Nz(q), v, d) IN
                z' = x /\ B' = b /\ out' = IF step % 6 = 5 THEN Trans(b, c, f, s) ELSE Full(x, ax, c, e, f, b, n, sg, k, s)
Spec == Init /\ [][Next]_vars
\* powers of a screw add up
Laws == MaxAbs(z) > 3 \/ LET w == Axes[4]  A(k) == S(z, w, 3, <<1, -2, 1>>, 5, 2, k) IN
        /\ PMul(A(1), A(1)) = A(2)
        /\ PMul(A(2), A(-1)) = A(1)
=============================================================================
