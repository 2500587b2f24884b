------------------------------- MODULE QuatAlg -------------------------------
(* Register machine over quaternions (registers 0..2), with dimensions.       *)
EXTENDS Quat, Machine

CONSTANTS HI

VARIABLES u, Q
vars == <<step, out, u, Q>>

Bound == 1000000
Val(v, d) == [v |-> v, deg |-> d]
X(x) == Deg(Qua(x.v), x.deg)
RQ(i) == R(i - 1)

Init == /\ u \in {0, -7, 9, -60, 60} /\ step = 0 /\ out = <<>>
        /\ Q = [i \in 1..3 |-> Val(QZero, 1)]
Start == out' = <<EvNew(u, IF u = 0 THEN AllT ELSE IF Abs(u) > 20 THEN <<"f64">> ELSE Floats)>> /\ UNCHANGED Q

See(e) == out' = <<e>> /\ UNCHANGED Q
SeeF(e) == See(For(e, Floats))
Assign(op, args, v, dg, d) ==
  /\ MaxAbs(v) <= Bound /\ Q' = [Q EXCEPT ![d] = Val(v, dg)]
  /\ out' = << To(Exp(Ev(op, args), Deg(Qua(v), dg)), d - 1) >>
Load(d) == \E y \in {RandV(4, -HI, HI)} : \E z \in {RandV(4, 0, 3)} :
           LET v == TLCEval([k \in 1..4 |-> IF z[k] = 0 THEN 0 ELSE y[k]]) IN Assign("id", <<Deg(Qua(v), 1)>>, v, 1, d)
\* the constructors
Ctor(c, d) == \E v \in {RandV(4, -HI, HI)} :
  LET s(i) == Deg(Scl(v[i]), 1)  im == Deg(Vec(<<v[2], v[3], v[4]>>), 1) IN
  \/ (c = 1 /\ Assign("q_new", <<s(1), im>>, v, 1, d))
  \/ (c = 2 /\ Assign("q_new_from", <<s(1), s(2), s(3), s(4)>>, v, 1, d))
  \/ (c = 3 /\ Assign("q_new_real", <<s(1)>>, <<v[1], 0, 0, 0>>, 1, d))
  \/ (c = 4 /\ Assign("q_new_imag", <<im>>, <<0, v[2], v[3], v[4]>>, 1, d))
  \/ (c = 5 /\ Assign("q_from_vec", <<Deg(Vec(v), 1)>>, v, 1, d))
  \/ (c = 6 /\ Assign("q_from_arr", <<Deg(Vec(v), 1)>>, v, 1, d))
  \/ (c = 7 /\ Assign("zero", <<RQ(d)>>, QZero, 1, d))
  \/ (c = 8 /\ Assign("zero_t", <<RQ(d)>>, QZero, 1, d))
  \/ (c = 9 /\ Assign("one", <<RQ(d)>>, QOne, 0, d))
  \/ (c = 10 /\ Assign("one_t", <<RQ(d)>>, QOne, 0, d))

N(i) == QN(Q[i].v)
Small(i) == MaxAbs(Q[i].v) <= 2000
BelowBy(x, i) == [f64 |-> IF Below(N(i), 2 * u * Q[i].deg, 52) THEN NoneV ELSE x,
                  f32 |-> IF Below(N(i), 2 * u * Q[i].deg, 23) THEN NoneV ELSE x]
\* clear of the threshold by a factor of two
Clear(i) == \A t \in {23, 52} : Below(N(i), 2 * u * Q[i].deg, t) = Below(2 * N(i), 2 * u * Q[i].deg, t)
Solid(i) == \A t \in {23, 52} : N(i) > 0 /\ ~Below(N(i), 2 * u * Q[i].deg, t)
InvX(i) == Deg(Over(Qua(QConj(Q[i].v)), Max2(1, N(i))), -Q[i].deg)

Do(o, i, j, d, s, t, c) ==
  \/ (o = "load" /\ Load(d))
  \/ (o = "ctor" /\ Ctor(c, d))
  \/ (o = "add" /\ Q[i].deg = Q[j].deg /\ Assign("add", <<RQ(i), RQ(j)>>, VAdd(Q[i].v, Q[j].v), Q[i].deg, d))
  \/ (o = "sub" /\ Q[i].deg = Q[j].deg /\ Assign("sub", <<RQ(i), RQ(j)>>, VSub(Q[i].v, Q[j].v), Q[i].deg, d))
  \/ (o = "neg" /\ Assign("neg", <<RQ(i)>>, VNeg(Q[i].v), Q[i].deg, d))
  \/ (o = "conj" /\ Assign("conj", <<RQ(i)>>, QConj(Q[i].v), Q[i].deg, d))
  \/ (o = "muls" /\ MaxAbs(Q[i].v) * Abs(s) <= Bound /\ Assign("muls", <<RQ(i), Scl(s)>>, VScale(Q[i].v, s), Q[i].deg, d))
  \/ (o = "mulsu" /\ Q[i].deg < 2 /\ MaxAbs(Q[i].v) * Abs(s) <= Bound
                  /\ Assign("muls", <<RQ(i), Deg(Scl(s), 1)>>, VScale(Q[i].v, s), Q[i].deg + 1, d))
  \/ (o = "divs" /\ GcdSeq(Q[i].v) % Abs(t) = 0 /\ Assign("divs", <<RQ(i), Scl(t)>>, VDivI(Q[i].v, t), Q[i].deg, d))
  \/ (o = "mul" /\ Q[i].deg + Q[j].deg <= 3 /\ MaxAbs(Q[i].v) * MaxAbs(Q[j].v) <= 2 * Bound
                /\ Assign("mul", <<RQ(i), RQ(j)>>, QMul(Q[i].v, Q[j].v), Q[i].deg + Q[j].deg, d))
  \/ (o = "dot" /\ MaxAbs(Q[i].v) * MaxAbs(Q[j].v) <= 2 * Bound
                /\ See(Exp(Ev("dot", <<RQ(i), RQ(j)>>), Deg(Scl(Dot(Q[i].v, Q[j].v)), Q[i].deg + Q[j].deg))))
  \/ (o = "abs2" /\ Small(i) /\ See(Exp(Ev("abs2", <<RQ(i)>>), Deg(Scl(N(i)), 2 * Q[i].deg))))
  \/ (o = "norm2" /\ Small(i) /\ SeeF(Exp(Ev("norm2", <<RQ(i)>>), Deg(Scl(NRt(1, N(i), 1)), Q[i].deg))))
  \/ (o = "parts" /\ UNCHANGED Q /\ out' = << Exp(Ev("qreal", <<RQ(i)>>), Deg(Scl(Q[i].v[1]), Q[i].deg)),
                                              Exp(Ev("qimag", <<RQ(i)>>), Deg(Vec(Imag(Q[i].v)), Q[i].deg)),
                                              Exp(Ev("is_zero", <<RQ(i)>>), Boo(Q[i].v = QZero)) >>)
  \/ (o = "absimag" /\ Small(i) /\ SeeF(Exp(Ev("abs_imag", <<RQ(i)>>), Deg(Scl(NRt(1, N(i) - Q[i].v[1] * Q[i].v[1], 1)), Q[i].deg))))
  \/ (o = "read" /\ See(Exp(Ev("id", <<RQ(i)>>), X(Q[i]))))
  \/ (o = "inverse" /\ Small(i) /\ Clear(i) /\ SeeF(Exp(Ev("inverse", <<RQ(i)>>), BelowBy(InvX(i), i))))
  \* q * q^-1 = q^-1 * q = 1, and the inverse of the inverse
  \/ (o = "unit" /\ Small(i) /\ Solid(i) /\ UNCHANGED Q /\ u = 0
       /\ out' = << For(To(Exp(Ev("inverse", <<RQ(i)>>), InvX(i)), 5), Floats),
                    For(Exp(Ev("mul", <<RQ(i), R(5)>>), Qua(QOne)), Floats),
                    For(Exp(Ev("mul", <<R(5), RQ(i)>>), Qua(QOne)), Floats) >>
                  \o IF N(i) <= 10000 THEN << For(Exp(Ev("inverse", <<R(5)>>), X(Q[i])), Floats) >> ELSE <<>>)
  \/ (o = "div" /\ Small(i) /\ Small(j) /\ Solid(j)
       /\ SeeF(Exp(Ev("div", <<RQ(i), RQ(j)>>), Deg(Over(Qua(QMul(Q[i].v, QConj(Q[j].v))), N(j)), Q[i].deg - Q[j].deg))))
  \/ (o = "deriv" /\ MaxAbs(Q[i].v) <= 100000
       /\ \E w \in {RandV(3, -9, 9)} : SeeF(Exp(Ev("derivative", <<RQ(i), Deg(Vec(w), 1)>>),
                                               Deg(Over(Qua(QMul(Pure(w), Q[i].v)), 2), Q[i].deg + 1))))

Ops == {"load", "ctor", "add", "sub", "neg", "conj", "muls", "mulsu", "divs", "mul", "dot", "abs2", "norm2", "parts",
        "absimag", "read", "inverse", "unit", "div", "deriv"}
Step == \E o \in Pick(Ops) : \E i \in Pick(1..3) : \E j \in Pick(1..3) : \E d \in Pick(1..3) :
        \E s \in Pick({-3, -2, -1, 0, 1, 2, 5}) : \E t \in Pick({-3, -2, 2, 3, 5}) : \E c \in Pick(1..10) :
        IF ENABLED Do(o, i, j, d, s, t, c) THEN Do(o, i, j, d, s, t, c) ELSE Load(d)
Next == /\ step' = step + 1 /\ UNCHANGED u
        /\ IF step = 0 THEN Start ELSE IF step <= 3 THEN Load(step) ELSE Step
Spec == Init /\ [][Next]_vars

Laws == step # 4 \/
  LET a == Q[1].v  b == Q[2].v  c == Q[3].v IN
  /\ QMul(QMul(a, b), c) = QMul(a, QMul(b, c))
  /\ QMul(a, VAdd(b, c)) = VAdd(QMul(a, b), QMul(a, c))
  /\ QConj(QMul(a, b)) = QMul(QConj(b), QConj(a))
  /\ QN(QMul(a, b)) = QN(a) * QN(b)
  /\ QMul(a, QConj(a)) = VScale(QOne, QN(a))
=============================================================================
