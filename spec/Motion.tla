-------------------------------- MODULE Motion --------------------------------
(* A chain of rigid motions carried as one dual quaternion (register 0) and as  *)
(* one homogeneous matrix (register 1) of the code; the model keeps the exact   *)
(* motion, up to the sign of the dual quaternion once a matrix was in between.  *)
EXTENDS Pose, Machine

VARIABLES s, P, amb
vars == <<step, out, s, P, amb>>

W(b, x) == IF b THEN PM(x) ELSE x
Pt(p) == NV([v |-> p, d |-> 1], s)
\* the released transform_point drops the translation: a listed finding, nothing else is accepted
TP(a, p) == LET good == NV(PApp(a, p), s)  bad == NV([v |-> RotV(a.q, p), d |-> QN(a.q)], s) IN
            IF a.v = <<0, 0, 0>> THEN good ELSE OneOf(<<good, Known("transform_point_ignores_translation", bad)>>)

\* everything that can be read from the dual quaternion in register r, standing for a
See(r, a, b, p) ==
  << Exp(Ev("d_to_h", <<R(r)>>), HM(a, s)),
     Exp(Ev("d_to_rt", <<R(r)>>), Tup(<<RM(a.q), TV(a, s)>>)),
     Exp(Ev("d_to_qt", <<R(r)>>), Tup(<<W(b, UQ(a.q)), TV(a, s)>>)),
     Exp(Ev("d_translation", <<R(r)>>), TV(a, s)),
     Exp(Ev("dreal", <<R(r)>>), W(b, UQ(a.q))),
     Exp(Ev("transform_point", <<R(r), Pt(p)>>), TP(a, p)) >>
\* a new motion, made in way c; k: a non-unit multiple for the constructors that normalise
Make(c, a, k, p) ==
  LET q0 == a.q  T == [a EXCEPT !.q = QOne]  Ro == [a EXCEPT !.v = <<0, 0, 0>>, !.d = 1]
      H == HM(a, s)
      e(x) == Tn(x, a.d, s)
      arr == [t |-> "a", v |-> << NRt(q0[1], 1, QN(q0)), NRt(q0[2], 1, QN(q0)), NRt(q0[3], 1, QN(q0)), NRt(q0[4], 1, QN(q0)), e(a.v[1]), e(a.v[2]), e(a.v[3]) >>] IN
  CASE c = 1 -> [e |-> Ev("d_from_rt", <<UQ(q0), TV(a, s)>>), a |-> a, b |-> FALSE]
    [] c = 2 -> [e |-> Ev("d_from_rt", <<Qua(VScale(q0, k)), TV(a, s)>>), a |-> a, b |-> FALSE]
    [] c = 3 -> [e |-> Ev("d_from_array", <<arr>>), a |-> a, b |-> FALSE]
    [] c = 4 -> [e |-> Ev("d_from_h", <<H>>), a |-> a, b |-> TRUE]
    [] c = 5 -> [e |-> Ev("d_from_translation", <<TV(a, s)>>), a |-> T, b |-> FALSE]
    [] c = 6 -> [e |-> Ev("d_from_rotation", <<UQ(q0)>>), a |-> Ro, b |-> FALSE]
    [] c = 7 -> [e |-> Ev("d_from_rotation_matrix", <<RM(q0)>>), a |-> Ro, b |-> TRUE]
    [] c = 8 -> [e |-> Ev("id", <<DP(a, s)>>), a |-> a, b |-> FALSE]
    [] OTHER -> [e |-> Ev("d_from_rt", <<UQ(q0), TV(a, s)>>), a |-> a, b |-> FALSE]

Init == s \in {0, -12, 8, -40, 30} /\ step = 0 /\ out = <<>> /\ P = PId /\ amb = FALSE
Ok(a) == DSafe(a) /\ MulSafe(a, PId)
Start == out' = << EvNew(0, Floats), To(Exp(Ev("one", <<Dua(DOne)>>), Dua(DOne)), 0),
                   To(Ev("id", <<Mat(MId(4))>>), 1) >> /\ UNCHANGED <<P, amb>>
Load(c, g, k, p) == LET m == Make(c, g, k, p) IN
  P' = m.a /\ amb' = m.b /\ out' = << To(Exp(m.e, W(m.b, DP(m.a, s))), 0), To(Exp(Ev("id", <<HM(m.a, s)>>), HM(m.a, s)), 1) >> \o See(0, m.a, m.b, p)

Do(o, c, g, k, p) ==
  LET m == Make(c, g, k, p) IN
  \/ (o = "load" /\ Load(c, g, k, p))
  \/ (o = "right" /\ MulSafe(P, m.a) /\ LET x == PMul(P, m.a) IN Ok(x) /\ P' = x /\ amb' = (amb \/ m.b) /\
       out' = << To(Exp(m.e, W(m.b, DP(m.a, s))), 2), To(Exp(Ev("d_to_h", <<R(2)>>), HM(m.a, s)), 3),
                 To(Exp(Ev("mul", <<R(0), R(2)>>), W(amb', DP(x, s))), 0), To(Exp(Ev("mul", <<R(1), R(3)>>), HM(x, s)), 1),
                 Exp(Ev("d_to_h", <<R(0)>>), HM(x, s)), Exp(Ev("transform_point", <<R(0), Pt(p)>>), TP(x, p)) >>)
  \/ (o = "left" /\ MulSafe(m.a, P) /\ LET x == PMul(m.a, P) IN Ok(x) /\ P' = x /\ amb' = (amb \/ m.b) /\
       out' = << To(Exp(m.e, W(m.b, DP(m.a, s))), 2), To(Exp(Ev("d_to_h", <<R(2)>>), HM(m.a, s)), 3),
                 To(Exp(Ev("mul", <<R(2), R(0)>>), W(amb', DP(x, s))), 0), To(Exp(Ev("mul", <<R(3), R(1)>>), HM(x, s)), 1),
                 Exp(Ev("d_to_rt", <<R(0)>>), Tup(<<RM(x.q), TV(x, s)>>)) >>)
  \/ (o = "inv" /\ MulSafe(P, P) /\ LET x == PInv(P) IN Ok(x) /\ P' = x /\ UNCHANGED amb /\
       out' = << To(Exp(Ev("inverse", <<R(0)>>), W(amb, DP(x, s))), 0), To(Exp(Ev("h_inverse", <<R(1)>>), HM(x, s)), 1) >>)
  \/ (o = "conj" /\ MulSafe(P, P) /\ LET x == PInv(P) IN Ok(x) /\ P' = x /\ UNCHANGED amb /\
       out' = << To(Exp(Ev("conj", <<R(0)>>), W(amb, DP(x, s))), 0), To(IF s > 0 \/ s < -12 THEN Exp(Ev("h_inverse", <<R(1)>>), HM(x, s)) ELSE Exp(Ev("inverse", <<R(1)>>), HM(x, s)), 1) >>)
  \/ (o = "neg" /\ P' = PNeg(P) /\ UNCHANGED amb /\
       out' = << To(Exp(Ev("neg", <<R(0)>>), W(amb, DP(P', s))), 0) >> \o See(0, P', amb, p))
  \/ (o = "normalize" /\ UNCHANGED <<P, amb>> /\ out' = << To(Exp(Ev("normalize", <<R(0)>>), W(amb, DP(P, s))), 0) >>)
  \* a motion scaled by a real number, normalised again
  \/ (o = "scaled" /\ UNCHANGED <<P, amb>> /\ out' = << To(Ev("muls", <<R(0), Scl(k)>>), 4), To(Exp(Ev("normalize", <<R(4)>>), W(amb, IF k < 0 THEN DP(PNeg(P), s) ELSE DP(P, s))), 5),
                 Exp(Ev("d_to_h", <<R(5)>>), HM(P, s)) >>)
  \* through the matrix and back
  \/ (o = "through" /\ UNCHANGED P /\ amb' = TRUE /\
       out' = << To(Exp(Ev("d_to_h", <<R(0)>>), HM(P, s)), 1), To(Exp(Ev("d_from_h", <<R(1)>>), PM(DP(P, s))), 0) >> \o See(0, P, TRUE, p))
  \/ (o = "parts" /\ UNCHANGED <<P, amb>> /\
       out' = << To(Exp(Ev("dreal", <<R(0)>>), W(amb, UQ(P.q))), 6), To(Exp(Ev("d_translation", <<R(0)>>), TV(P, s)), 7),
                 To(Exp(Ev("d_from_rt", <<R(6), R(7)>>), W(amb, DP(P, s))), 0) >>)
  \/ (o = "see" /\ UNCHANGED <<P, amb>> /\ out' = See(0, P, amb, p))
  \* points: q p q* of the real part agrees with the matrix
  \/ (o = "unit" /\ UNCHANGED <<P, amb>> /\ MaxAbs(P.v) <= 1000 * P.d /\
       out' = << To(Ev("inverse", <<R(0)>>), 8), Cond(Exp(Ev("mul", <<R(0), R(8)>>), Tl(Dua(DOne), s)), 3 + MaxAbs(P.v) \div P.d), Cond(Exp(Ev("mul", <<R(8), R(0)>>), Tl(Dua(DOne), s)), 3 + MaxAbs(P.v) \div P.d),
                 Cond(Exp(Ev("dnorm", <<R(0)>>), Tl(Dua(DOne), s)), 3 + MaxAbs(P.v) \div P.d) >>)
Ops == {"load", "right", "left", "right", "left", "inv", "conj", "neg", "normalize", "scaled", "through", "parts", "see", "unit"}
DrawQ(h) == IF h = 0 THEN RandV(4, -1, 1) ELSE IF h = 1 THEN RandV(4, -3, 3) ELSE IF h = 2 THEN RandV(4, -9, 9)
            ELSE IF h = 3 THEN TLCEval(Pure(RandV(3, -5, 5))) ELSE TLCEval([RandV(4, -1, 1) EXCEPT ![RandomElement(1..4)] = 60])
Nz(q) == IF q = QZero THEN <<1, 1, 0, 0>> ELSE q
Next == /\ step' = step + 1 /\ UNCHANGED s
        /\ IF step = 0 THEN Start
           ELSE \E o \in Pick(Ops) : \E h \in Pick(0..4) : \E q \in {DrawQ(h)} : \E v \in {RandV(3, -9, 9)} : \E z \in Pick(0..5) :
                \E d \in Pick({1, 1, 2, 3}) : \E c \in Pick(1..9) : \E k \in Pick({-3, -2, 2, 5}) : \E p \in {RandV(3, -9, 9)} :
                LET g == RedV(Nz(q), IF z = 0 THEN <<0, 0, 0>> ELSE v, d)
                    kk == IF c = 2 THEN Abs(k) ELSE k
                    ok == ENABLED Do(o, c, g, kk, p) IN
                IF ok THEN Do(o, c, g, kk, p) ELSE Load(c, g, Abs(k), p)
Spec == Init /\ [][Next]_vars
\* the dual part of a motion is orthogonal to the real part, and the sandwich moves points
Laws == (~DSafe(P)) \/ Dot(P.q, QMul(Pure(P.v), P.q)) = 0
=============================================================================
