------------------------------- MODULE MatDet -------------------------------
(* A matrix under elementary row and column operations, transposition and     *)
(* products, with its determinant as a ghost variable that only the laws of   *)
(* determinants update. Register 0 holds the matrix.                          *)
EXTENDS Lin, Machine

CONSTANTS NS, HI

VARIABLES n, u, A, d
vars == <<step, out, n, u, A, d>>

\* product of the row 1-norms bounds every partial sum of every expansion: exact in f32
RECURSIVE RowProd(_, _)
RowProd(M, k) == IF k = 0 THEN 1 ELSE LET r == RowProd(M, k - 1) IN
                 IF r > 8000000 THEN r ELSE r * Max2(1, Norm1(M[k]))
Ok(M) == /\ \A k \in 1..n : Norm1(M[k]) <= 250
         /\ RowProd(M, n) <= 8000000
Lim == IF n = 6 THEN Min2(HI, 3) ELSE IF n = 5 THEN Min2(HI, 5) ELSE IF n = 4 THEN Min2(HI, 11) ELSE IF n = 3 THEN Min2(HI, 40) ELSE HI

Obs(M, dd) ==
  << Exp(Ev("det", <<R(0)>>), Deg(Scl(dd), n)),
     Exp(Ev("trace", <<R(0)>>), Deg(Scl(Trace(M)), 1)),
     Exp(Ev("norm2", <<R(0)>>), Deg(Scl(NRt(1, Frob2(M), 1)), 1)) >>
Lit(M) == To(Exp(Ev("id", <<Deg(Mat(M), 1)>>), Deg(Mat(M), 1)), 0)

Set(M, dd) == /\ Ok(M) /\ A' = M /\ d' = dd /\ out' = <<Lit(M)>> \o Obs(M, dd)

Init == /\ n \in NS /\ u \in {0, -9, 11, -60, 60} /\ step = 0 /\ A = MId(n) /\ d = 1 /\ out = <<>>
Start == A' = MId(n) /\ d' = 1 /\ out' = <<EvNew(u, IF Abs(u) > 20 THEN <<"f64">> ELSE Floats)>> \o <<Lit(MId(n))>> \o Obs(MId(n), 1)

\* a fresh dense matrix, determinant by Laplace
Fresh == \E M \in {RandM(n, -Lim, Lim)} : Set(M, Det(M))
\* a fresh sparse matrix
Sparse == \E M \in {RandM(n, -Lim, Lim)} : \E Z \in {RandM(n, 0, 2)} :
          LET S == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF Z[i][j] = 0 THEN M[i][j] ELSE 0])]) IN Set(S, Det(S))
Swap == \E i \in Pick(1..n) : \E j \in Pick(1..n) : i # j /\ Set(SwapRows(A, i, j), -d)
SwapC == \E i \in Pick(1..n) : \E j \in Pick(1..n) : i # j /\ Set(SwapCols(A, i, j), -d)
Scale == \E i \in Pick(1..n) : \E s \in Pick({-3, -2, -1, 2, 3}) : Set(ScaleRow(A, i, s), s * d)
Add == \E i \in Pick(1..n) : \E j \in Pick(1..n) : \E s \in Pick({-2, -1, 1, 2}) : i # j /\ Set(AddRow(A, i, j, s), d)
AddC == \E i \in Pick(1..n) : \E j \in Pick(1..n) : \E s \in Pick({-2, -1, 1, 2}) :
        i # j /\ Set(Transpose(AddRow(Transpose(A), i, j, s)), d)
Depend == \E i \in Pick(1..n) : \E j \in Pick(1..n) : \E k \in Pick(1..n) : \E s \in Pick({-1, 0, 1, 2}) :
          i # j /\ i # k /\ Set(TLCEval([A EXCEPT ![i] = VAdd(A[j], VScale(A[k], s))]), 0)
Transp == /\ A' = Transpose(A) /\ d' = d /\ Ok(Transpose(A))
          /\ out' = << Lit(A), To(Exp(Ev("transpose", <<R(0)>>), Deg(Mat(Transpose(A)), 1)), 0) >> \o Obs(Transpose(A), d)
\* product with a unitriangular or permutation factor computed by the code itself
Prod == \E B \in {RandM(n, -1, 1)} :
        LET T == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN 1 + Abs(B[i][i]) ELSE IF i < j THEN B[i][j] ELSE 0])])
            M == MMul(A, T) IN
        /\ Ok(M) /\ A' = M /\ d' = d * ProdTo(Diag(T), n)
        /\ out' = << Lit(A), To(Exp(Ev("mul", <<R(0), Mat(T)>>), Deg(Mat(M), 1)), 0) >> \o Obs(M, d')

Do(o) == \/ (o = "fresh" /\ Fresh) \/ (o = "sparse" /\ Sparse) \/ (o = "swap" /\ Swap) \/ (o = "swapc" /\ SwapC)
         \/ (o = "scale" /\ Scale) \/ (o = "add" /\ Add) \/ (o = "addc" /\ AddC) \/ (o = "depend" /\ Depend)
         \/ (o = "transp" /\ Transp) \/ (o = "prod" /\ Prod)
Ops == {"fresh", "sparse", "swap", "swapc", "scale", "add", "addc", "depend", "transp", "prod"}

Idle == A' = A /\ d' = d /\ out' = <<>>
Next == /\ step' = step + 1 /\ UNCHANGED <<n, u>>
        /\ IF step = 0 THEN Start
           ELSE \E o \in Pick(Ops) : \E p \in Pick(Ops) : (Do(o) \/ Do(p) \/ Idle)
Spec == Init /\ [][Next]_vars

\* the ghost variable is the determinant
Laws == step % 5 # 3 \/ d = Det(A)
=============================================================================
