-------------------------------- MODULE Rigid --------------------------------
(* Homogeneous transforms. A chain of rigid motions is carried as one 4x4      *)
(* matrix (register 0) and as the 6x6 adjoint map (register 5), a chain of      *)
(* planar motions as one 3x3 matrix (register 6); the model keeps the exact     *)
(* motion.                                                                    *)
EXTENDS Pose, Machine

VARIABLES s, P, K
vars == <<step, out, s, P, K>>

Ad(a) == LET Ro == RotN(a.q)  n == QN(a.q)  T == MMul(Hat(a.v), Ro)
             e(i, j) == IF i <= 3 /\ j <= 3 THEN NQ(Ro[i][j], n)
                        ELSE IF i >= 4 /\ j >= 4 THEN NQ(Ro[i - 3][j - 3], n)
                        ELSE IF i >= 4 THEN Tn(T[i - 3][j], n * a.d, s) ELSE 0 IN
         Tl(Mat([i \in 1..6 |-> [j \in 1..6 |-> e(i, j)]]), s)
AdSafe(a) == Le(2 * QN(a.q), MaxAbs(a.v), 400000000) /\ Le(QN(a.q), a.d, 400000000)
V4(v, k) == Tl(Vec(<<Tn(v[1], 1, s), Tn(v[2], 1, s), Tn(v[3], 1, s), k>>), s)
Out4(x, k) == Tl(Vec(<<Tn(x.v[1], x.d, s), Tn(x.v[2], x.d, s), Tn(x.v[3], x.d, s), k>>), s)

Sz(a) == 2 + MaxAbs(a.v) \div a.d
\* everything that relates the parts of one motion a; p is a point
Parts(a, p, M) ==
  LET H == HM(a, s)  n == QN(a.q) IN
  << To(Exp(Ev("id", <<H>>), H), 0), To(Ev("id", <<UQ(a.q)>>), 1), To(Ev("id", <<RM(a.q)>>), 2), To(Ev("id", <<TV(a, s)>>), 3),
     Exp(Ev("h_from_rotation", <<R(2), R(3)>>), H),
     Exp(Ev("h_from_quaternion", <<R(1), R(3)>>), H),
     Exp(Ev("get_parts_raw", <<R(0)>>), Tup(<<RM(a.q), TV(a, s)>>)),
     Exp(Ev("get_parts", <<R(0)>>), Tup(<<PM(UQ(a.q)), TV(a, s)>>)),
     To(Exp(Ev("h_inverse", <<R(0)>>), HM(PInv(a), s)), 4),
     Cond(Exp(Ev("mul", <<R(0), R(4)>>), HM(PId, s)), Sz(a)),
     Cond(Exp(Ev("mul", <<R(4), R(0)>>), HM(PId, s)), Sz(a)),
     Exp(Ev("h_inverse", <<R(4)>>), H),
     Exp(Ev("h_inverse_transform", <<R(0), NV([v |-> p, d |-> 1], s)>>), NV(PBack(a, p), s)),
     Exp(Ev("mul", <<R(0), V4(p, 1)>>), Out4(PApp(a, p), 1)),
     Exp(Ev("mul", <<R(0), V4(p, 0)>>), Out4([v |-> RotV(a.q, p), d |-> n], 0)),
     To(Exp(Ev("adjoint", <<R(0)>>), Ad(a)), 5),
     Exp(Ev("adjoint", <<R(4)>>), Ad(PInv(a))),
     Exp(Ev("translation_3d", <<Scl(Tn(a.v[1], a.d, s)), Scl(Tn(a.v[2], a.d, s)), Scl(Tn(a.v[3], a.d, s))>>), HM([a EXCEPT !.q = QOne], s)),
     \* se(3) assembled from an arbitrary 3x3 block
     To(Exp(Ev("se3_from_parts", <<Mat(M), R(3)>>),
            Tl(Mat([i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 0>> ELSE <<M[i][1], M[i][2], M[i][3], Tn(a.v[i], a.d, s)>>]), s)), 7),
     Exp(Ev("se3_get_parts", <<R(7)>>), Tup(<<Mat(M), TV(a, s)>>)) >>

\* ---- the plane: rotation by 2 atan2(z[2], z[1]), translation v / d
ZMul(a, b) == LET z == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>> IN VDivI(z, Max2(1, Gcd(z[1], z[2])))
KTr(v, d) == <<Tn(v[1], d, s), Tn(v[2], d, s)>>
KM(a) == LET z == a.z  D == DZ(z[1], z[2])  c == CosN(z[1], z[2])  sn == SinN(z[1], z[2])  t == KTr(a.v, a.d) IN
         Tl(Mat(<< <<NQ(c, D), NQ(-sn, D), t[1]>>, <<NQ(sn, D), NQ(c, D), t[2]>>, <<0, 0, 1>> >>), s)
KMul(a, b) == LET D == DZ(a.z[1], a.z[2])  c == CosN(a.z[1], a.z[2])  sn == SinN(a.z[1], a.z[2])
                  w == <<c * b.v[1] - sn * b.v[2], sn * b.v[1] + c * b.v[2]>>
                  v == VAdd(VScale(a.v, D * b.d), VScale(w, a.d))  d == a.d * D * b.d  g == Max2(1, Gcd(d, GcdSeq(v))) IN
              [z |-> ZMul(a.z, b.z), v |-> VDivI(v, g), d |-> d \div g]
KId == [z |-> <<1, 0>>, v |-> <<0, 0>>, d |-> 1]
KSafe(a, b) == LET D == DZ(a.z[1], a.z[2]) IN D <= 20000 /\ Le(D, b.d, 1000000) /\ Le(D * b.d, a.d, 1000000)
               /\ Le(D * b.d, MaxAbs(a.v), 400000000) /\ Le(2 * D, MaxAbs(b.v), 1000000) /\ Le(2 * D * MaxAbs(b.v), a.d, 400000000)
KEv(a) == Ev("ksi", <<Scl(Th(a.z[1], a.z[2])), Scl(Tn(a.v[1], a.d, s)), Scl(Tn(a.v[2], a.d, s))>>)

\* ---- steps
Init == s \in {0, -12, 8, -40, 30} /\ step = 0 /\ out = <<>> /\ P = PId /\ K = KId
Load(a, p, M) == P' = a /\ out' = Parts(a, p, M)
Ident == << To(Exp(Ev("id", <<HM(PId, s)>>), HM(PId, s)), 0), To(Exp(Ev("adjoint", <<R(0)>>), Mat(MId(6))), 5) >>
LoadK(k) == K' = k /\ out' = << To(Exp(KEv(k), KM(k)), 6),
                  Exp(Ev("translation_2d", <<Scl(Tn(k.v[1], k.d, s)), Scl(Tn(k.v[2], k.d, s))>>), KM([k EXCEPT !.z = <<1, 0>>])) >>

Do(o, g, k, p, M) ==
  \/ (o = "load" /\ Load(g, p, M) /\ UNCHANGED K)
  \/ (o = "see" /\ MulSafe(P, P) /\ AdSafe(P) /\ AdSafe(PInv(P)) /\ Load(P, p, M) /\ UNCHANGED K)
  \/ (o = "right" /\ MulSafe(P, g) /\ LET x == PMul(P, g) IN AdSafe(x) /\ P' = x /\ UNCHANGED K /\
       out' = << To(Ev("h_from_quaternion", <<UQ(g.q), TV(g, s)>>), 8), To(Exp(Ev("adjoint", <<R(8)>>), Ad(g)), 9),
                 To(Exp(Ev("mul", <<R(0), R(8)>>), HM(x, s)), 0), To(Exp(Ev("mul", <<R(5), R(9)>>), Ad(x)), 5),
                 Exp(Ev("adjoint", <<R(0)>>), Ad(x)) >>)
  \/ (o = "left" /\ MulSafe(g, P) /\ LET x == PMul(g, P) IN AdSafe(x) /\ P' = x /\ UNCHANGED K /\
       out' = << To(Ev("h_from_rotation", <<RM(g.q), TV(g, s)>>), 8), To(Exp(Ev("adjoint", <<R(8)>>), Ad(g)), 9),
                 To(Exp(Ev("mul", <<R(8), R(0)>>), HM(x, s)), 0), To(Exp(Ev("mul", <<R(9), R(5)>>), Ad(x)), 5),
                 Exp(Ev("adjoint", <<R(0)>>), Ad(x)) >>)
  \/ (o = "inv" /\ MulSafe(P, P) /\ LET x == PInv(P) IN AdSafe(x) /\ P' = x /\ UNCHANGED K /\
       out' = << To(Exp(Ev("h_inverse", <<R(0)>>), HM(x, s)), 0), To(IF s > 0 \/ s < -12 THEN Exp(Ev("adjoint", <<R(0)>>), Ad(x)) ELSE Exp(Ev("inverse", <<R(5)>>), [t |-> "m", v |-> Ad(x).v]), 5) >>)
  \/ (o = "ginv" /\ MulSafe(P, P) /\ LET x == PInv(P) IN AdSafe(x) /\ P' = x /\ UNCHANGED K /\
       out' = << To(IF s > 0 \/ s < -12 THEN Exp(Ev("h_inverse", <<R(0)>>), HM(x, s)) ELSE Exp(Ev("inverse", <<R(0)>>), HM(x, s)), 0), To(Exp(Ev("adjoint", <<R(0)>>), Ad(x)), 5) >>)
  \* take apart and put together again
  \/ (o = "split" /\ P' = P /\ UNCHANGED K /\ MulSafe(P, P) /\
       out' = << Exp(Ev("get_parts_raw", <<R(0)>>), Tup(<<RM(P.q), TV(P, s)>>)),
                 Exp(Ev("get_parts", <<R(0)>>), Tup(<<PM(UQ(P.q)), TV(P, s)>>)),
                 Exp(Ev("h_inverse_transform", <<R(0), NV([v |-> p, d |-> 1], s)>>), NV(PBack(P, p), s)),
                 Exp(Ev("mul", <<R(0), V4(p, 1)>>), Out4(PApp(P, p), 1)) >>)
  \/ (o = "kload" /\ LoadK(k) /\ UNCHANGED P)
  \/ (o = "kmul" /\ UNCHANGED P /\ KSafe(K, k) /\ LET x == KMul(K, k) IN K' = x /\
       out' = << To(Exp(KEv(k), KM(k)), 10), To(Exp(Ev("mul", <<R(6), R(10)>>), KM(x)), 6) >>)
  \/ (o = "klmul" /\ UNCHANGED P /\ KSafe(k, K) /\ LET x == KMul(k, K) IN K' = x /\
       out' = << To(Exp(KEv(k), KM(k)), 10), To(Exp(Ev("mul", <<R(10), R(6)>>), KM(x)), 6) >>)
  \* a pose is a translation followed by a rotation
  \/ (o = "ksplit" /\ UNCHANGED <<P, K>> /\
       out' = << To(Ev("translation_2d", <<Scl(Tn(k.v[1], k.d, s)), Scl(Tn(k.v[2], k.d, s))>>), 10),
                 To(Ev("ksi", <<Scl(Th(k.z[1], k.z[2])), Scl(0), Scl(0)>>), 11),
                 Exp(Ev("mul", <<R(10), R(11)>>), KM(k)) >>)
Ops == {"load", "see", "right", "left", "inv", "ginv", "split", "kload", "kmul", "klmul", "ksplit", "right", "left"}
DrawQ(h) == IF h = 0 THEN RandV(4, -1, 1) ELSE IF h = 1 THEN RandV(4, -3, 3) ELSE IF h = 2 THEN RandV(4, -9, 9)
            ELSE IF h = 3 THEN TLCEval(Pure(RandV(3, -5, 5))) ELSE TLCEval([RandV(4, -1, 1) EXCEPT ![RandomElement(1..4)] = 60])
Nz(q) == IF q = QZero THEN <<1, 1, 0, 0>> ELSE q
Next == /\ step' = step + 1 /\ UNCHANGED s
        /\ IF step = 0 THEN out' = <<EvNew(0, Floats)>> \o Ident \o << To(Exp(KEv(KId), KM(KId)), 6) >> /\ UNCHANGED <<P, K>>
           ELSE \E o \in Pick(Ops) : \E f \in Pick({"load", "kload"}) : \E h \in Pick(0..4) : \E q \in {DrawQ(h)} : \E v \in {RandV(3, -9, 9)} :
                \E d \in Pick({1, 1, 2, 3}) : \E z \in {RandV(2, -4, 4)} : \E w \in {RandV(2, -9, 9)} : \E p \in {RandV(3, -9, 9)} : \E M \in {RandM(3, -9, 9)} :
                LET g == RedV(Nz(q), v, d)
                    zz == IF z = <<0, 0>> THEN <<1, 1>> ELSE z
                    k == [z |-> zz, v |-> w, d |-> d]
                    ok == ENABLED Do(o, g, k, p, M) IN
                IF ok THEN Do(o, g, k, p, M) ELSE Do(f, g, k, p, M)
Spec == Init /\ [][Next]_vars

\* the motion and its inverse cancel
Laws == (~MulSafe(P, P)) \/ ~MulSafe(P, PInv(P)) \/ LET x == PMul(P, PInv(P)) IN x.v = <<0, 0, 0>> /\ Abs(x.q[1]) = 1
=============================================================================
