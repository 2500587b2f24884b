------------------------------ MODULE DualBasis ------------------------------
(* Exhaustive: products of all pairs of basis elements (with small multiples)  *)
(* and of all dual quaternions with at most two non-zero entries.              *)
EXTENDS Quat, Machine
VARIABLES a, b
vars == <<step, out, a, b>>
E2 == {[k \in 1..8 |-> IF k = p[1] THEN p[3] ELSE IF k = p[2] THEN p[4] ELSE 0] : p \in (1..8) \X (1..8) \X {1, -2} \X {0, 1}}
InvN(v) == LET n == QN(DR(v))  c == QConj(DR(v)) IN VScale(c, n) \o VNeg(QMul(QMul(c, DD(v)), c))
Init == a \in E2 /\ b \in E2 /\ step = 0
  /\ out = << EvNew(0, AllT), Exp(Ev("mul", <<Dua(a), Dua(b)>>), Dua(DMul(a, b))) >>
           \o (IF DR(b) = QZero THEN <<>> ELSE
               << For(Exp(Ev("div", <<Dua(a), Dua(b)>>), Over(Dua(DMul(a, InvN(b))), QN(DR(b)) * QN(DR(b)))), Floats) >>)
           \o (IF a # b \/ DR(a) = QZero THEN <<>> ELSE
               << For(Exp(Ev("inverse", <<Dua(a)>>), Over(Dua(InvN(a)), QN(DR(a)) * QN(DR(a)))), Floats),
                  Exp(Ev("dnorm", <<Dua(a)>>), Dua(DMul(a, DConj(a)))) >>)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Laws == DConj(DMul(a, b)) = DMul(DConj(b), DConj(a))
=============================================================================
