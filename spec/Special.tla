-------------------------------- MODULE Special --------------------------------
(* Determinant, inverse, QR and product on matrices with structure (Shapes).     *)
(* The exact adjugate gives the inverse; the leading minors of the Gram matrix    *)
(* give R exactly, and Q by its defining identities.                             *)
EXTENDS Shapes, Machine

CONSTANTS NS, KIND

VARIABLES n, u
vars == <<step, out, n, u>>

RECURSIVE RowProd(_, _)
RowProd(M, k) == IF k = 0 THEN 1 ELSE LET r == RowProd(M, k - 1) IN
                 IF r > 8000000 THEN r ELSE r * Max2(1, Norm1(M[k]))
Ok(M) == /\ \A k \in 1..n : Norm1(M[k]) <= 250
         /\ RowProd(M, n) <= 8000000
DP(d) == PowI(d, n)
A(S) == Deg(Over(Mat(S.m), S.d), 1)
Lit(S) == To(Exp(Ev("id", <<A(S)>>), A(S)), 0)
\* |det| = D / d^n * 2^(u n): is it clearly below or above epsilon?
Side(D, S, t) == LET e == u * n IN
  IF D = 0 THEN 0 ELSE IF Below(Abs(D) \div DP(S.d) + 1, e, t) THEN 1 ELSE IF Below(Abs(D) \div DP(S.d), e, t) THEN 2 ELSE 3
\* outcome x unless |det| is (below, too close to) epsilon
ByDet(x, D, S) == [f64 |-> LET g == Side(D, S, 52) IN IF g <= 1 THEN NoneV ELSE IF g = 2 THEN OneOf(<<NoneV, x>>) ELSE x,
                   f32 |-> LET g == Side(D, S, 23) IN IF g <= 1 THEN NoneV ELSE IF g = 2 THEN OneOf(<<NoneV, x>>) ELSE x]
Exactly(S) == S.d \in {1, 2, 4}           \* entries and all partial sums are exact

DetOf(S) ==
  LET D == Det(S.m)  M == S.m IN
  << Lit(S), Exp(Ev("det", <<R(0)>>), Deg(Over(Scl(D), DP(S.d)), n)),
     Exp(Ev("trace", <<R(0)>>), Deg(Over(Scl(Trace(M)), S.d), 1)),
     Exp(Ev("norm2", <<R(0)>>), Deg(Over(Scl(NRt(1, Frob2(M), 1)), S.d), 1)),
     To(Exp(Ev("transpose", <<R(0)>>), Deg(Over(Mat(Transpose(M)), S.d), 1)), 1),
     Exp(Ev("det", <<R(1)>>), Deg(Over(Scl(D), DP(S.d)), n)) >>
\* singular: the determinant is zero up to rounding, unless everything is exact
InvOf(S) ==
  LET M == S.m  D == Det(M)
      B == IF D = 0 THEN M ELSE MScale(Adj(M), Sgn(D) * S.d)
      x == Deg(Over(Mat(B), Abs(D)), -1)
      cn == n * MMaxAbs(M) * (1 + (MMaxAbs(B) \div Max2(1, S.d * Abs(D)))) IN
  IF D = 0 THEN (IF Exactly(S) THEN << Exp(Ev("inverse", <<A(S)>>), NoneV) >> ELSE <<>>)
  ELSE << Lit(S), To(Cond(Exp(Ev("inverse", <<R(0)>>), ByDet(x, D, S)), cn), 1) >>
       \o (IF u # 0 \/ Side(D, S, 23) # 3 THEN <<>> ELSE
           << Cond(Exp(Ev("mul", <<R(0), R(1)>>), Mat(MId(n))), cn), Cond(Exp(Ev("mul", <<R(1), R(0)>>), Mat(MId(n))), cn),
              Cond(Exp(Ev("inverse", <<R(1)>>), IF cn > 300 \/ Abs(D) \div DP(S.d) > 1000 THEN SkipV ELSE Over(Mat(M), S.d)), cn * cn) >>)
\* Bareiss elimination of the Gram matrix: row k holds the bordered minors of order k
RECURSIVE Gram(_, _, _)
Gram(G, k, prev) == IF k = n THEN G ELSE
  Gram(TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i <= k \/ j <= k THEN G[i][j] ELSE (G[i][j] * G[k][k] - G[i][k] * G[k][j]) \div prev])]), k + 1, G[k][k])
RECURSIVE ColProd(_, _)
ColProd(M, k) == IF k = 0 THEN 1 ELSE LET r == ColProd(M, k - 1) IN IF r > 100000 THEN r ELSE r * Max2(1, Dot(Col(M, k), Col(M, k)))
QrOf(S) ==
  LET M == S.m  D == Det(M) IN
  IF D = 0 THEN (IF Exactly(S) THEN << Exp(Ev("qr", <<A(S)>>), NoneV) >> ELSE <<>>)
  ELSE IF ColProd(M, n) > 30000 THEN <<>>
  ELSE LET G == Gram(MMul(Transpose(M), M), 1, 1)
           Dk(k) == IF k = 0 THEN 1 ELSE G[k][k]
           Rx == Deg(Over(Mat([i \in 1..n |-> [j \in 1..n |-> IF i > j THEN 0 ELSE IF G[i][j] = 0 THEN 0 ELSE NDiv(G[i][j], NOp("sqrt", <<NMul(G[i][i], Dk(i - 1))>>))]]), S.d), 1)
           cn == (n * ColProd(M, n)) \div Max2(1, Abs(D)) IN
       << Lit(S), To(Cond(Exp(Ev("qr_r", <<R(0)>>), ByDet(Rx, D, S)), cn), 2) >>
       \o (IF Side(D, S, 23) # 3 THEN <<>> ELSE
           << To(Ev("qr_q", <<R(0)>>), 1), To(Ev("transpose", <<R(1)>>), 3),
              Cond(Exp(Ev("mul", <<R(3), R(1)>>), Mat(MId(n))), cn), Cond(Exp(Ev("mul", <<R(1), R(2)>>), A(S)), cn) >>)
ProdOf(S, T, v) ==
  LET d == S.d * T.d IN
  << Lit(S), To(Exp(Ev("id", <<A(T)>>), A(T)), 1),
     Exp(Ev("mul", <<R(0), R(1)>>), Deg(Over(Mat(MMul(S.m, T.m)), d), 2)), Exp(Ev("mul", <<R(1), R(0)>>), Deg(Over(Mat(MMul(T.m, S.m)), d), 2)),
     Exp(Ev("mul", <<R(0), R(0)>>), Deg(Over(Mat(MMul(S.m, S.m)), S.d * S.d), 2)),
     Exp(Ev("mul", <<R(0), Vec(v)>>), Deg(Over(Vec(MVec(S.m, v)), S.d), 1)) >>
  \o (IF n = 5 THEN <<>> ELSE << Exp(Ev("mul", <<Vec(v), R(0)>>), Deg(Over(Vec(VMat(v, S.m)), S.d), 1)) >>)

Init == n \in NS /\ u \in (IF KIND = "prod" THEN {0, -14, 20} ELSE {0, 0, 3, -4, 11}) /\ step = 0 /\ out = <<>>
Next == /\ step' = step + 1 /\ UNCHANGED <<n, u>>
        /\ IF step = 0 THEN out' = <<EvNew(u, Floats)>> ELSE
           \E h \in Pick(0..NShapes) : \E g \in Pick(0..NShapes) : \E b \in Pick(1..3) : \E M \in {RandM(n, -b, b)} : \E N \in {RandM(n, -1, 1)} : \E x \in {RandV(n, 1, 36)} : \E v \in {RandV(n, -1, 1)} : \E s \in Pick(1..n) :
           LET S == Shape(n, h, M, N, x, v, s)  T == Shape(n, g, N, M, x, v, s) IN
           out' = IF ~Ok(S.m) THEN <<>>
                  ELSE IF KIND = "det" THEN DetOf(S) ELSE IF KIND = "inv" THEN InvOf(S) ELSE IF KIND = "qr" THEN QrOf(S) ELSE ProdOf(S, T, M[1])
Spec == Init /\ [][Next]_vars
\* every shape is n by n; the rows of shape 0 and the columns of shape 1 have length 5
Laws == step # 1 \/ \A h \in {0, 1} : \A M \in {RandM(n, -2, 2)} : \A x \in {RandV(n, 1, 36)} :
          LET S == Shape(n, h, M, M, x, M[1], 1)  B == IF h = 0 THEN S.m ELSE Transpose(S.m) IN \A i \in 1..n : Dot(B[i], B[i]) = 25
=============================================================================
