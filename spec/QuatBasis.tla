------------------------------ MODULE QuatBasis ------------------------------
(* Exhaustive: all pairs of quaternions with entries -1, 0, 1.                *)
EXTENDS Quat, Machine
VARIABLES a, b
vars == <<step, out, a, b>>
S == [1..4 -> {-1, 0, 1}]
Init == a \in S /\ b \in S /\ step = 0
  /\ out = << EvNew(0, AllT), Exp(Ev("mul", <<Qua(a), Qua(b)>>), Qua(QMul(a, b))) >>
           \o (IF b = QZero THEN <<>> ELSE << For(Exp(Ev("div", <<Qua(a), Qua(b)>>), Over(Qua(QMul(a, QConj(b))), QN(b))), Floats) >>)
           \o (IF a # b THEN <<>> ELSE
               << For(Exp(Ev("inverse", <<Qua(a)>>), IF a = QZero THEN NoneV ELSE Over(Qua(QConj(a)), QN(a))), Floats) >>)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Laws == QN(QMul(a, b)) = QN(a) * QN(b) /\ QConj(QMul(a, b)) = QMul(QConj(b), QConj(a))
=============================================================================
