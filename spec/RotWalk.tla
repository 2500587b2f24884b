------------------------------- MODULE RotWalk -------------------------------
(* A rotation carried along in three representations of the library at once:  *)
(* a unit quaternion (register 0), a rotation matrix (register 1) and the      *)
(* quaternion recovered from that matrix (register 2). The model keeps an      *)
(* integer quaternion r; the rotation is r / |r|.                             *)
EXTENDS Quat, Machine

CONSTANTS LIM       \* exhaustive mode: all integer quaternions with entries -LIM..LIM

VARIABLES r
vars == <<step, out, r>>

Cap == 9000000       \* of |r|^2
UQ(q) == OverRt(Qua(q), QN(q))
RM(q) == Over(Mat(RotN(q)), QN(q))
UV(q, v) == Over(Vec(RotV(q, v)), QN(q))

LitQ(q) == To(Exp(Ev("id", <<UQ(q)>>), UQ(q)), 0)
LitM(q) == To(Exp(Ev("id", <<RM(q)>>), RM(q)), 1)

\* everything that must hold between the representations of q
Obs(q, v) ==
  << LitQ(q), LitM(q),
     Exp(Ev("to_rotation", <<R(0)>>), RM(q)),
     Exp(Ev("mul", <<R(0), Vec(v)>>), UV(q, v)),
     Exp(Ev("mul", <<R(1), Vec(v)>>), UV(q, v)),
     To(Exp(Ev("from_rotation", <<R(1)>>), PM(UQ(q))), 2),
     Exp(Ev("norm2", <<R(2)>>), Scl(1)),
     Exp(Ev("to_rotation", <<R(2)>>), RM(q)),
     Exp(Ev("mul", <<R(2), Vec(v)>>), UV(q, v)),
     To(Exp(Ev("neg", <<R(0)>>), UQ(VNeg(q))), 4),
     Exp(Ev("to_rotation", <<R(4)>>), RM(q)),
     To(Exp(Ev("conj", <<R(0)>>), UQ(QConj(q))), 5),
     Exp(Ev("to_rotation", <<R(5)>>), RM(QConj(q))) >>

Draw(h) == IF h = 0 THEN RandV(4, -1, 1) ELSE IF h = 1 THEN RandV(4, -3, 3) ELSE IF h = 2 THEN RandV(4, -20, 20)
           ELSE IF h = 6 THEN RandV(4, -700, 700)
           ELSE IF h = 3 THEN TLCEval(Pure(RandV(3, -20, 20)))            \* half turns
           ELSE IF h = 4 THEN TLCEval([RandV(4, -3, 3) EXCEPT ![1] = 300])   \* nearly the identity
           ELSE TLCEval([RandV(4, -2, 2) EXCEPT ![RandomElement(2..4)] = 300]) \* nearly a half turn about an axis
Val == {RandV(3, -9, 9)}

InitS == SIM /\ step = 0 /\ out = <<>> /\ r = QOne
InitX == ~SIM /\ step = 0 /\ r \in [1..4 -> (-LIM)..LIM] /\ r # QZero
         /\ out = <<EvNew(0, Floats)>> \o Obs(r, <<3, -5, 7>>)
Init == InitS \/ InitX

Fresh == \E h \in Pick(0..6) : \E q \in {Draw(h)} : \E v \in Val :
         IF q = QZero THEN r' = QOne /\ out' = Obs(QOne, v) ELSE r' = q /\ out' = Obs(q, v)
Go(q, evs) == IF QN(QRed(q)) > Cap THEN Fresh ELSE r' = QRed(q) /\ out' = evs
\* compose with g in both representations, by the code's own products
Right == \E h \in Pick(0..1) : \E g \in {Draw(h)} : \E v \in Val :
  IF g = QZero THEN Fresh ELSE
  LET p == QRed(QMul(r, g)) IN
  Go(p, << To(Exp(Ev("mul", <<R(0), UQ(g)>>), UQ(p)), 0), To(Exp(Ev("mul", <<R(1), RM(g)>>), RM(p)), 1),
           Exp(Ev("to_rotation", <<R(0)>>), RM(p)), To(Exp(Ev("from_rotation", <<R(1)>>), PM(UQ(p))), 2),
           Exp(Ev("mul", <<R(0), Vec(v)>>), UV(p, v)) >>)
Left == \E h \in Pick(0..1) : \E g \in {Draw(h)} : \E v \in Val :
  IF g = QZero THEN Fresh ELSE
  LET p == QRed(QMul(g, r)) IN
  Go(p, << To(Exp(Ev("mul", <<UQ(g), R(0)>>), UQ(p)), 0), To(Exp(Ev("mul", <<RM(g), R(1)>>), RM(p)), 1),
           Exp(Ev("to_rotation", <<R(0)>>), RM(p)), To(Exp(Ev("from_rotation", <<R(1)>>), PM(UQ(p))), 2),
           Exp(Ev("mul", <<R(1), Vec(v)>>), UV(p, v)) >>)
Conj == r' = QConj(r) /\ out' = << To(Exp(Ev("conj", <<R(0)>>), UQ(QConj(r))), 0),
                                   To(Exp(Ev("transpose", <<R(1)>>), RM(QConj(r))), 1) >>
Inv == r' = QConj(r) /\ out' = << To(Exp(Ev("inverse", <<R(0)>>), UQ(QConj(r))), 0),
                                  To(Exp(Ev("inverse", <<R(1)>>), RM(QConj(r))), 1),
                                  Exp(Ev("rotation_inverse", <<R(1)>>), RM(r)) >>
Neg == r' = VNeg(r) /\ out' = << To(Exp(Ev("neg", <<R(0)>>), UQ(VNeg(r))), 0) >>
\* carry on with the matrix rebuilt from the quaternion, or the other way round
ToR == r' = r /\ out' = << To(Exp(Ev("to_rotation", <<R(0)>>), RM(r)), 1), Exp(Ev("det", <<R(1)>>), Scl(1)) >>
\* q v q^-1, with the code's own inverse and products
Sandwich == r' = r /\ \E v \in Val :
  out' = << To(Exp(Ev("inverse", <<R(0)>>), UQ(QConj(r))), 6),
            To(Ev("mul", <<R(0), Qua(Pure(v))>>), 7),
            Exp(Ev("mul", <<R(7), R(6)>>), Over(Qua(Pure(RotV(r, v))), QN(r))) >>

Do(o) == \/ (o = "fresh" /\ Fresh)
         \/ (o = "right" /\ Right)
         \/ (o = "left" /\ Left)
         \/ (o = "conj" /\ Conj)
         \/ (o = "inv" /\ Inv)
         \/ (o = "neg" /\ Neg)
         \/ (o = "tor" /\ ToR)
         \/ (o = "sandwich" /\ Sandwich)
Next == /\ SIM /\ step' = step + 1
        /\ IF step = 0 THEN r' = QOne /\ out' = <<EvNew(0, Floats)>> \o Obs(QOne, <<1, 2, 3>>)
           ELSE \E o \in Pick({"fresh", "right", "left", "conj", "inv", "neg", "tor", "sandwich"}) : Do(o)
Spec == Init /\ [][Next]_vars

\* the rotation matrix is orthogonal with determinant 1
Laws == QN(r) > 40 \/
  ( /\ MMul(RotN(r), Transpose(RotN(r))) = MScale(MId(3), QN(r) * QN(r))
    /\ Det(RotN(r)) = QN(r) * QN(r) * QN(r) )
=============================================================================
