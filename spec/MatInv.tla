------------------------------- MODULE MatInv -------------------------------
(* A matrix and its exact inverse, kept in step: A is a product of elementary *)
(* matrices, and B/L = A^-1 follows every factor (A' = E A, B' = B E^-1).     *)
EXTENDS Lin, Machine

CONSTANTS NS

VARIABLES n, u, A, B, L, dt     \* A * B = L * I, dt = det A
vars == <<step, out, n, u, A, B, L, dt>>

RECURSIVE RowProd(_, _)
RowProd(M, k) == IF k = 0 THEN 1 ELSE LET r == RowProd(M, k - 1) IN
                 IF r > 8000000 THEN r ELSE r * Max2(1, Norm1(M[k]))
Ok(M) == /\ \A k \in 1..n : Norm1(M[k]) <= 250
         /\ RowProd(M, n) <= 8000000

LitA(M) == To(Exp(Ev("id", <<Deg(Mat(M), 1)>>), Deg(Mat(M), 1)), 0)
\* None exactly when |det| * unit^n is below the epsilon of the type
ByDet(x, D, e) == [f64 |-> IF Below(Abs(D), e, 52) THEN NoneV ELSE x,
                   f32 |-> IF Below(Abs(D), e, 23) THEN NoneV ELSE x]
Edge(D, e) == AtEdge(Abs(D), e, 52) \/ AtEdge(Abs(D), e, 23)
InvEv(x, y, l, D) == Exp(Ev("inverse", <<x>>), ByDet(Deg(Over(Mat(y), l), -1), D, u * n))

Init == /\ n \in NS /\ u \in {0, -2, -9, 11, 60, -(48 \div n), -(36 \div n), -(20 \div n)} /\ step = 0 /\ out = <<>>
        /\ A = MId(n) /\ B = MId(n) /\ L = 1 /\ dt = 1
Start == /\ UNCHANGED <<A, B, L, dt>> /\ out' = <<EvNew(u, IF Abs(u) > 20 THEN <<"f64">> ELSE Floats), Exp(Ev("one", <<Mat(A)>>), Mat(A))>>

\* reduce B / L
Set(a, b, l, D) ==
  LET g == Max2(1, Gcd(l, MGcd(b))) IN
  /\ Ok(a) /\ A' = a /\ B' = MDivI(b, g) /\ L' = l \div g /\ dt' = D /\ Abs(D) <= 100000
  /\ out' = IF Edge(D, u * n) THEN <<>> ELSE <<LitA(a), InvEv(R(0), B', L', D)>>

Swap == \E i \in Pick(1..n) : \E j \in Pick(1..n) : i # j /\ Set(SwapRows(A, i, j), SwapCols(B, i, j), L, -dt)
Scale == \E i \in Pick(1..n) : \E s \in Pick({-3, -2, -1, 2, 3}) :
         \* column i of B is divided by s
         Abs(L * s) <= 2000 /\ Set(ScaleRow(A, i, s),
           Transpose([ [k \in 1..n |-> VScale(Col(B, k), s)] EXCEPT ![i] = Col(B, i)]), L * s, dt * s)
Add == \E i \in Pick(1..n) : \E j \in Pick(1..n) : \E s \in Pick({-2, -1, 1, 2}) :
       i # j /\ Set(AddRow(A, i, j, s), Transpose(AddRow(Transpose(B), j, i, -s)), L, dt)
AddC == \E i \in Pick(1..n) : \E j \in Pick(1..n) : \E s \in Pick({-2, -1, 1, 2}) :
       i # j /\ Set(Transpose(AddRow(Transpose(A), i, j, s)), AddRow(B, j, i, -s), L, dt)
\* a fresh dense matrix, inverse by the adjugate
Fresh == n <= 4 /\ \E M \in {RandM(n, IF n = 4 THEN -7 ELSE -30, IF n = 4 THEN 7 ELSE 30)} : LET D == Det(M) IN
         D # 0 /\ Set(M, MScale(Adj(M), Sgn(D)), Abs(D), D)

\* ---- observations on the current matrix (register 0)
Stay == UNCHANGED <<A, B, L, dt>>
Cn == n * MMaxAbs(A) * (1 + (MMaxAbs(B) \div Abs(L)))
Good == u = 0 /\ Cn <= 60000
\* A * A^-1 and A^-1 * A by the code's own product
Unit == /\ Good /\ Stay
        /\ out' = << LitA(A), To(InvEv(R(0), B, L, dt), 1),
                     Cond(Exp(Ev("mul", <<R(0), R(1)>>), Mat(MId(n))), Cn),
                     Cond(Exp(Ev("mul", <<R(1), R(0)>>), Mat(MId(n))), Cn) >>
\* inverting twice
Twice == /\ Good /\ Cn <= 400 /\ Abs(dt) <= 50 /\ Stay
         /\ out' = << LitA(A), To(InvEv(R(0), B, L, dt), 1),
                      Cond(Exp(Ev("inverse", <<R(1)>>), Mat(A)), 10 * Cn) >>
\* inverse of the transpose
Trans == /\ Stay /\ ~Edge(dt, u * n)
         /\ out' = << LitA(A), To(Exp(Ev("transpose", <<R(0)>>), Deg(Mat(Transpose(A)), 1)), 2),
                      InvEv(R(2), Transpose(B), L, dt) >>
\* inverse(A*T) = inverse(T) * inverse(A), T a unitriangular integer matrix
Prod == \E X \in {RandM(n, -1, 1)} :
        LET T == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN 1 ELSE IF i < j THEN X[i][j] ELSE 0])])
            Ti == Adj(T)
            M == MMul(A, T)
            Mi == MMul(Ti, B) IN
        /\ u = 0 /\ n <= 4 /\ Ok(M) /\ Stay
        /\ out' = << LitA(A), To(Exp(Ev("mul", <<R(0), Mat(T)>>), Mat(M)), 3),
                     InvEv(R(3), Mi, L, dt),
                     To(InvEv(R(0), B, L, dt), 1), To(Exp(Ev("inverse", <<Mat(T)>>), Mat(Ti)), 4),
                     Cond(Exp(Ev("mul", <<R(4), R(1)>>), Over(Mat(Mi), L)), 20) >>
\* a singular neighbour: one row replaced by a combination of others
Singular == \E i \in Pick(1..n) : \E j \in Pick(1..n) : \E k \in Pick(1..n) : \E s \in Pick({-1, 0, 1, 2}) : \E c \in Pick({0, 1}) :
            LET M == TLCEval([A EXCEPT ![i] = VScale(VAdd(A[j], VScale(A[k], s)), c)])
                Mt == IF step % 2 = 0 THEN M ELSE Transpose(M) IN
            /\ i # j /\ i # k /\ Ok(M) /\ Ok(Mt) /\ Stay
            /\ out' = << Exp(Ev("inverse", <<Deg(Mat(Mt), 1)>>), NoneV) >>

Do(o) == \/ (o = "swap" /\ Swap) \/ (o = "scale" /\ Scale) \/ (o = "add" /\ Add) \/ (o = "addc" /\ AddC) \/ (o = "fresh" /\ Fresh)
         \/ (o = "unit" /\ Unit) \/ (o = "twice" /\ Twice) \/ (o = "trans" /\ Trans) \/ (o = "prod" /\ Prod) \/ (o = "singular" /\ Singular)
\* grow the matrix first, then mix
Ops == IF step < 8 THEN {"swap", "scale", "add", "addc"} ELSE
       {"swap", "scale", "add", "addc", "add", "fresh", "unit", "twice", "trans", "prod", "singular"}

Idle == Stay /\ out' = <<>>
Next == /\ step' = step + 1 /\ UNCHANGED <<n, u>>
        /\ IF step = 0 THEN Start
           ELSE \E o \in Pick(Ops) : \E p \in Pick(Ops) : (Do(o) \/ Do(p) \/ Idle)
Spec == Init /\ [][Next]_vars

Laws == /\ MMul(A, B) = MScale(MId(n), L)
        /\ MMul(B, A) = MScale(MId(n), L)
        /\ (step % 6 # 5 \/ dt = Det(A))
=============================================================================
