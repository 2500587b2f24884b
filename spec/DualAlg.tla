------------------------------- MODULE DualAlg -------------------------------
(* Register machine over dual quaternions (registers 0..2): the algebra of     *)
(* r + e d with e^2 = 0, over the integers, with dimensions.                   *)
EXTENDS Quat, Machine

CONSTANTS HI

VARIABLES u, Q
vars == <<step, out, u, Q>>

Bound == 1000000
Val(v, d) == [v |-> v, deg |-> d]
X(x) == Deg(Dua(x.v), x.deg)
RQ(i) == R(i - 1)
DZero == <<0, 0, 0, 0, 0, 0, 0, 0>>

Init == /\ u \in {0, -7, 9, -60, 60} /\ step = 0 /\ out = <<>>
        /\ Q = [i \in 1..3 |-> Val(DZero, 1)]
Start == out' = <<EvNew(u, IF u = 0 THEN AllT ELSE IF Abs(u) > 20 THEN <<"f64">> ELSE Floats)>> /\ UNCHANGED Q

See(e) == out' = <<e>> /\ UNCHANGED Q
SeeF(e) == See(For(e, Floats))
Assign(op, args, v, dg, d) ==
  /\ MaxAbs(v) <= Bound /\ Q' = [Q EXCEPT ![d] = Val(v, dg)]
  /\ out' = << To(Exp(Ev(op, args), Deg(Dua(v), dg)), d - 1) >>
Load(d) == \E y \in {RandV(8, -HI, HI)} : \E z \in {RandV(8, 0, 3)} :
           LET v == TLCEval([k \in 1..8 |-> IF z[k] = 0 THEN 0 ELSE y[k]]) IN Assign("id", <<Deg(Dua(v), 1)>>, v, 1, d)
Ctor(c, d) == \E v \in {RandV(8, -HI, HI)} :
  LET r == SubSeq(v, 1, 4)  e == SubSeq(v, 5, 8) IN
  \/ (c = 1 /\ Assign("d_new", <<Deg(Qua(r), 1), Deg(Qua(e), 1)>>, v, 1, d))
  \/ (c = 2 /\ Assign("d_from_vecs", <<Deg(Vec(r), 1), Deg(Vec(e), 1)>>, v, 1, d))
  \/ (c = 3 /\ Assign("zero", <<RQ(d)>>, DZero, 1, d))
  \/ (c = 4 /\ Assign("zero_t", <<RQ(d)>>, DZero, 1, d))
  \/ (c = 5 /\ Assign("one", <<RQ(d)>>, DOne, 0, d))
  \/ (c = 6 /\ Assign("one_t", <<RQ(d)>>, DOne, 0, d))
  \* 1 + e p
  \/ (c = 7 /\ Assign("d_from_point", <<Vec(<<v[1], v[2], v[3]>>)>>, <<1, 0, 0, 0, 0, v[1], v[2], v[3]>>, 0, d))

Rl(i) == DR(Q[i].v)
N(i) == QN(Rl(i))
Small(i) == MaxAbs(Q[i].v) <= 300
Solid(i) == \A t \in {23, 52} : N(i) > 0 /\ ~Below(N(i), 2 * u * Q[i].deg, t)
InvN(v) == LET n == QN(DR(v))  c == QConj(DR(v)) IN VScale(c, n) \o VNeg(QMul(QMul(c, DD(v)), c))    \* over n^2
N2(n) == NMul(n, n)
InvX(i) == [t |-> "d", v |-> LET w == InvN(Q[i].v)  n == N(i) IN TLCEval([k \in 1..8 |-> NDiv(w[k], N2(n))]), deg |-> -Q[i].deg]
DivX(i, j) == [t |-> "d", v |-> LET w == DMul(Q[i].v, InvN(Q[j].v))  n == N(j) IN TLCEval([k \in 1..8 |-> NDiv(w[k], N2(n))]), deg |-> Q[i].deg - Q[j].deg]
\* size of inverse(d), relative
Cn(i) == LET n == N(i) IN 4 + (100 * MaxAbs(Q[i].v)) \div n + MaxAbs(Q[i].v)

Do(o, i, j, d, s, t, c) ==
  \/ (o = "load" /\ Load(d))
  \/ (o = "ctor" /\ Ctor(c, d))
  \/ (o = "add" /\ Q[i].deg = Q[j].deg /\ Assign("add", <<RQ(i), RQ(j)>>, VAdd(Q[i].v, Q[j].v), Q[i].deg, d))
  \/ (o = "sub" /\ Q[i].deg = Q[j].deg /\ Assign("sub", <<RQ(i), RQ(j)>>, VSub(Q[i].v, Q[j].v), Q[i].deg, d))
  \/ (o = "neg" /\ Assign("neg", <<RQ(i)>>, VNeg(Q[i].v), Q[i].deg, d))
  \/ (o = "conj" /\ Assign("conj", <<RQ(i)>>, DConj(Q[i].v), Q[i].deg, d))
  \/ (o = "conjd" /\ Assign("conj_dual", <<RQ(i)>>, DDualConj(Q[i].v), Q[i].deg, d))
  \/ (o = "conjc" /\ Assign("conj_comb", <<RQ(i)>>, DCombConj(Q[i].v), Q[i].deg, d))
  \/ (o = "muls" /\ MaxAbs(Q[i].v) * Abs(s) <= Bound /\ Assign("muls", <<RQ(i), Scl(s)>>, VScale(Q[i].v, s), Q[i].deg, d))
  \/ (o = "mulsu" /\ Q[i].deg < 2 /\ MaxAbs(Q[i].v) * Abs(s) <= Bound
                  /\ Assign("muls", <<RQ(i), Deg(Scl(s), 1)>>, VScale(Q[i].v, s), Q[i].deg + 1, d))
  \/ (o = "mul" /\ Q[i].deg + Q[j].deg <= 3 /\ MaxAbs(Q[i].v) * MaxAbs(Q[j].v) <= 2 * Bound
                /\ Assign("mul", <<RQ(i), RQ(j)>>, DMul(Q[i].v, Q[j].v), Q[i].deg + Q[j].deg, d))
  \/ (o = "dnorm" /\ Q[i].deg <= 1 /\ MaxAbs(Q[i].v) <= 1000 /\ Assign("dnorm", <<RQ(i)>>, DMul(Q[i].v, DConj(Q[i].v)), 2 * Q[i].deg, d))
  \/ (o = "parts" /\ UNCHANGED Q /\ out' = << Exp(Ev("dreal", <<RQ(i)>>), Deg(Qua(DR(Q[i].v)), Q[i].deg)),
                                              Exp(Ev("ddual", <<RQ(i)>>), Deg(Qua(DD(Q[i].v)), Q[i].deg)),
                                              Exp(Ev("is_zero", <<RQ(i)>>), Boo(Q[i].v = DZero)) >>)
  \/ (o = "read" /\ See(Exp(Ev("id", <<RQ(i)>>), X(Q[i]))))
  \/ (o = "inverse" /\ Small(i) /\ Solid(i) /\ SeeF(Exp(Ev("inverse", <<RQ(i)>>), InvX(i))))
  \* d * d^-1 = d^-1 * d = 1
  \/ (o = "unit" /\ Small(i) /\ Solid(i) /\ u = 0 /\ UNCHANGED Q
       /\ out' = << For(To(Exp(Ev("inverse", <<RQ(i)>>), InvX(i)), 5), Floats),
                    Cond(For(Exp(Ev("mul", <<RQ(i), R(5)>>), Dua(DOne)), Floats), Cn(i)),
                    Cond(For(Exp(Ev("mul", <<R(5), RQ(i)>>), Dua(DOne)), Floats), Cn(i)) >>)
  \/ (o = "div" /\ MaxAbs(Q[i].v) <= 60 /\ MaxAbs(Q[j].v) <= 60 /\ Solid(j)
       /\ SeeF(Exp(Ev("div", <<RQ(i), RQ(j)>>), DivX(i, j))))
  \/ (o = "divmul" /\ u = 0 /\ MaxAbs(Q[i].v) <= 60 /\ MaxAbs(Q[j].v) <= 60 /\ Solid(j) /\ UNCHANGED Q
       /\ out' = << For(To(Exp(Ev("div", <<RQ(i), RQ(j)>>), DivX(i, j)), 5), Floats),
                    Cond(For(Exp(Ev("mul", <<R(5), RQ(j)>>), X(Q[i])), Floats), Cn(j)) >>)

Ops == {"load", "ctor", "add", "sub", "neg", "conj", "conjd", "conjc", "muls", "mulsu", "mul", "mul", "dnorm", "parts",
        "read", "inverse", "unit", "div", "divmul"}
Step == \E o \in Pick(Ops) : \E i \in Pick(1..3) : \E j \in Pick(1..3) : \E d \in Pick(1..3) :
        \E s \in Pick({-3, -2, -1, 0, 1, 2, 5}) : \E t \in Pick({-3, -2, 2, 3, 5}) : \E c \in Pick(1..7) :
        IF ENABLED Do(o, i, j, d, s, t, c) THEN Do(o, i, j, d, s, t, c) ELSE Load(d)
Next == /\ step' = step + 1 /\ UNCHANGED u
        /\ IF step = 0 THEN Start ELSE IF step <= 3 THEN Load(step) ELSE Step
Spec == Init /\ [][Next]_vars

Laws == step # 4 \/
  LET a == Q[1].v  b == Q[2].v  c == Q[3].v  n == QN(DR(a)) IN
  /\ DMul(DMul(a, b), c) = DMul(a, DMul(b, c))
  /\ DMul(a, VAdd(b, c)) = VAdd(DMul(a, b), DMul(a, c))
  /\ DConj(DMul(a, b)) = DMul(DConj(b), DConj(a))
  /\ DCombConj(DMul(a, b)) = DMul(DCombConj(b), DCombConj(a))
  /\ DDualConj(DMul(a, b)) = DMul(DDualConj(a), DDualConj(b))
  /\ DMul(a, DOne) = a /\ DMul(DOne, a) = a
  /\ DMul(a, InvN(a)) = VScale(DOne, n * n)
=============================================================================
