--------------------------------- MODULE Vec ---------------------------------
(* Metrics of vectors (sizes 2..6) and slices (lengths 1..40): dot and cross    *)
(* products, the three norms, extreme elements with their first position,      *)
(* projection coefficient and normalisation.                                  *)
EXTENDS Lin, Machine

CONSTANTS LIM      \* exhaustive: entries in -LIM..LIM

VARIABLES u, a, b
vars == <<step, out, u, a, b>>

RECURSIVE First(_, _, _)
First(s, x, i) == IF s[i] = x THEN i ELSE First(s, x, i + 1)
MaxOf(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= x
MinOf(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] >= x
Extr(s) == LET p == MaxOf(s)  q == MinOf(s) IN
           Tup(<< Deg(Scl(p), 1), Idx(First(s, p, 1) - 1), Deg(Scl(q), 1), Idx(First(s, q, 1) - 1) >>)

N2(s) == Deg(Scl(NRt(1, Dot(s, s), 1)), 1)
D1(x) == Deg(x, 1)

Slice(x, y) ==
  LET X == D1(Arr(x))  Y == D1(Arr(y))  zy == Dot(y, y) = 0  zx == Dot(x, x) = 0 IN
  << Exp(Ev("sl_dot", <<X, Y>>), Deg(Scl(Dot(x, y)), 2)),
     Exp(Ev("sl_norm_inf", <<X>>), D1(Scl(MaxAbs(x)))),
     Exp(Ev("sl_norm_l", <<X>>), D1(Scl(Norm1(x)))),
     Exp(Ev("sl_max_min", <<X>>), Extr(x)),
     For(Exp(Ev("sl_norm2", <<X>>), N2(x)), Floats) >>
  \o (IF zx THEN <<>> ELSE << For(Exp(Ev("sl_normalize", <<X>>), Dir(Arr(x))), Floats) >>)
  \o (IF zy THEN <<>> ELSE << For(Exp(Ev("sl_project", <<X, Y>>), Scl(NQ(Dot(x, y), Dot(y, y)))), Floats) >>)

Vector(x, y) ==
  LET X == D1(Vec(x))  Y == D1(Vec(y)) IN
  << To(Exp(Ev("id", <<X>>), X), 0), To(Exp(Ev("id", <<Y>>), Y), 1),
     Exp(Ev("mul", <<R(0), R(1)>>), Deg(Scl(Dot(x, y)), 2)),
     Exp(Ev("norm_inf", <<R(0)>>), D1(Scl(MaxAbs(x)))),
     Exp(Ev("norm_l", <<R(0)>>), D1(Scl(Norm1(x)))),
     Exp(Ev("max_min", <<R(0)>>), Extr(x)),
     Exp(Ev("max_min", <<R(1)>>), Extr(y)),
     For(Exp(Ev("norm2", <<R(0)>>), N2(x)), Floats),
     For(Exp(Ev("normalize", <<R(0)>>), IF Dot(x, x) = 0 THEN Tup(<<ErrV, X>>) ELSE Tup(<<Dir(Vec(x)), X>>)), Floats) >>
  \o (IF Len(x) # 3 THEN <<>> ELSE
     LET c == Cross(x, y) IN
     << To(Exp(Ev("cross", <<R(0), R(1)>>), Deg(Vec(c), 2)), 2),
        Exp(Ev("cross", <<R(1), R(0)>>), Deg(Vec(VNeg(c)), 2)),
        Exp(Ev("mul", <<R(2), R(0)>>), Deg(Scl(0), 3)),
        Exp(Ev("mul", <<R(1), R(2)>>), Deg(Scl(0), 3)) >>
     \o (IF MaxAbs(x) * MaxAbs(y) > 5000 THEN <<>> ELSE
        << Exp(Ev("mul", <<R(2), R(2)>>), Deg(Scl(Dot(x, x) * Dot(y, y) - Dot(x, y) * Dot(x, y)), 4)) >>))

\* an infinite component, s its sign; a second one at j
Infinite(x, i, j, s) ==
  LET m == Len(x)  inf == IF s > 0 THEN NInf ELSE NNegInf
      X == Arr([k \in 1..m |-> IF k = i \/ k = j THEN inf ELSE x[k]])  first == Min2(i, j) - 1
      fin == {x[k] : k \in (1..m) \ {i, j}}
      other == IF fin = {} THEN inf ELSE IF s > 0 THEN CHOOSE p \in fin : \A r \in fin : p <= r ELSE CHOOSE p \in fin : \A r \in fin : p >= r
      at == IF fin = {} THEN first ELSE (CHOOSE k \in 1..m : k # i /\ k # j /\ x[k] = other /\ \A l \in 1..(k - 1) : l = i \/ l = j \/ x[l] # other) - 1 IN
  << For(Exp(Ev("sl_norm_inf", <<X>>), Scl(NInf)), Floats), For(Exp(Ev("sl_norm_l", <<X>>), Scl(NInf)), Floats), For(Exp(Ev("sl_norm2", <<X>>), Scl(NInf)), Floats),
     For(Exp(Ev("sl_max_min", <<X>>), IF s > 0 THEN Tup(<<Scl(NInf), Idx(first), Scl(other), Idx(at)>>) ELSE Tup(<<Scl(other), Idx(at), Scl(NNegInf), Idx(first)>>)), Floats) >>
\* slices of different length have no dot product
Ragged(x, y) == << Exp(Ev("sl_dot", <<Arr(x), Arr(Append(y, 1))>>), PanicV), Exp(Ev("sl_dot", <<Arr(Append(x, 0)), Arr(y)>>), PanicV) >>

Obs(x, y) == Slice(x, y) \o (IF Len(x) \in 2..6 THEN Vector(x, y) ELSE <<>>)
Types(w) == IF w = 0 THEN AllT ELSE IF Abs(w) > 60 THEN <<"f64">> ELSE Floats

InitS == SIM /\ u \in {0, -9, 11, -24, 24, 200, -200} /\ step = 0 /\ out = <<>> /\ a = <<1>> /\ b = <<1>>
InitX == /\ ~SIM /\ u = 0 /\ step = 0 /\ \E m \in 1..6 :
            \/ m <= 3 /\ a \in [1..m -> (-LIM)..LIM] /\ b \in [1..m -> {-2, 0, 1}]
            \/ m >= 4 /\ a \in [1..m -> -1..1] /\ b = [i \in 1..m |-> (i * i) - 7]
         /\ out = <<EvNew(0, AllT)>> \o Obs(a, b)
Init == InitS \/ InitX
Set(x, y) == a' = x /\ b' = y /\ out' = Obs(x, y)
Drw(h, m, z) == IF h = 0 THEN RandV(m, -1, 1)
                ELSE IF h = 1 THEN RandV(m, -3, 3)
                ELSE IF h = 2 THEN LET x == RandV(m, -99, 99) IN TLCEval([i \in 1..m |-> IF z[i] = 0 THEN 0 ELSE x[i]])
                ELSE IF h = 3 THEN RandV(m, -60, -40)                \* all negative, ties likely
                ELSE IF h = 4 THEN RandV(m, 40, 60)
                ELSE RandV(m, -99, 99)
Next == /\ SIM /\ step' = step + 1 /\ UNCHANGED u
        /\ IF step = 0 THEN UNCHANGED <<a, b>> /\ out' = <<EvNew(u, Types(u))>>
           ELSE \E ml \in Pick({9, 10, 12, 15, 16, 17, 19, 24, 31, 33, 40}) : \E ms \in Pick(1..8) : \E i \in Pick(1..8) : \E j \in Pick(1..8) :
                LET m == IF step % 5 = 4 THEN ml ELSE ms IN \E h \in Pick(0..5) : \E k \in Pick(0..5) : \E z \in {RandV(m, 0, 1)} :
                \E x \in {Drw(h, m, z)} : \E y \in {Drw(k, m, z)} :
                IF step % 17 = 8 THEN UNCHANGED <<a, b>> /\ out' = Infinite(x, Min2(i, m), Min2(j, m), IF h % 2 = 0 THEN 1 ELSE -1) \o Ragged(x, y)
                ELSE Set(x, IF step % 11 = 7 THEN VScale(x, 2) ELSE IF step % 11 = 3 THEN VNeg(x) ELSE y)
Spec == Init /\ [][Next]_vars

\* Cauchy-Schwarz, and the relation between the norms
Laws == \/ MaxAbs(a) > 50 \/ MaxAbs(b) > 50
        \/ /\ Dot(a, b) * Dot(a, b) <= Dot(a, a) * Dot(b, b)
           /\ MaxAbs(a) * MaxAbs(a) <= Dot(a, a)
           /\ Dot(a, a) <= Norm1(a) * Norm1(a)
           /\ Len(a) # 3 \/ (Dot(Cross(a, b), a) = 0 /\ Dot(Cross(a, b), b) = 0)
=============================================================================
