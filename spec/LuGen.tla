-------------------------------- MODULE LuGen --------------------------------
(* Non-singular integer matrices to be factored (phase 1 of C06). The code's   *)
(* factorisations are recorded and checked by LuCheck.                        *)
EXTENDS Shapes, Machine
CONSTANTS NS
VARIABLES n, u, A
vars == <<step, out, n, u, A>>

\* determinant by fraction-free elimination with row search (Bareiss)
RECURSIVE PivotRow(_, _, _)
PivotRow(M, k, i) == IF i > Len(M) THEN 0 ELSE IF M[i][k] # 0 THEN i ELSE PivotRow(M, k, i + 1)
RECURSIVE Bareiss(_, _, _, _)
Bareiss(M, k, prev, sg) ==
  LET m == Len(M) IN
  IF k = m THEN sg * M[m][m]
  ELSE LET p == PivotRow(M, k, k) IN
       IF p = 0 THEN 0 ELSE
       LET S == IF p = k THEN M ELSE SwapRows(M, p, k)
           E == TLCEval([i \in 1..m |-> TLCEval([j \in 1..m |-> IF i <= k \/ j <= k THEN S[i][j]
                  ELSE (S[i][j] * S[k][k] - S[i][k] * S[k][j]) \div prev])])
       IN Bareiss(E, k + 1, S[k][k], IF p = k THEN sg ELSE -sg)
FDet(M) == Bareiss(M, 1, 1, 1)

\* no minor is larger than the product of the row lengths
RECURSIVE RowSq(_, _)
RowSq(M, k) == IF k = 0 THEN 1 ELSE LET r == RowSq(M, k - 1) IN IF r > 400000 THEN 2000000000 ELSE r * Min2(4000, Max2(1, Dot(M[k], M[k])))
Tame(M) == RowSq(M, n) <= 400000000
Init == n \in NS /\ u \in {0, -9, 11, -60, 60} /\ step = 0 /\ A = MId(n) /\ out = <<>>
H == IF n <= 3 THEN 20 ELSE IF n = 4 THEN 9 ELSE 3
Drw(h) == IF h = 0 THEN RandM(n, -H, H)
          ELSE IF h = 1 THEN LET M == RandM(n, -H, H)  Z == RandM(n, 0, 2) IN        \* sparse
               TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF Z[i][j] = 0 THEN M[i][j] ELSE 0])])
          ELSE IF h = 2 THEN RandM(n, -1, 1)
          ELSE LET M == RandM(n, -2, 2)  S == RandV(n, 0, 2) IN                     \* rows of very different size
               TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF S[i] = 0 THEN (IF n <= 3 THEN 16 ELSE IF n = 4 THEN 4 ELSE 1) * M[i][j] ELSE M[i][j]])])
PermDraw == LET x == RandV(n, 1, n) IN
            TLCEval([i \in 1..n |-> LET free == {j \in 1..n : TRUE} IN VUnit(n, 1 + ((i * x[1] + x[2]) % n))])
Set(M) == A' = M /\ out' = IF FDet(M) = 0 THEN <<>> ELSE << Ev("lu_parts", << Deg(Mat(M), 1) >>) >>
Next == /\ step' = step + 1 /\ UNCHANGED <<n, u>>
        /\ IF step = 0 THEN UNCHANGED A /\ out' = <<EvNew(u, IF Abs(u) > 20 THEN <<"f64">> ELSE Floats)>>
           ELSE \E h \in Pick(0..7) : \E g \in Pick(0..NShapes) : \E X \in {RandM(n, -1, 1)} : \E N \in {RandM(n, -1, 1)} :
                \E x \in {RandV(n, 1, 36)} : \E z \in {RandV(n, -1, 1)} : \E s \in Pick(1..n) :
                \E S \in {Shape(n, g, X, N, x, z, s).m} :
                \E M \in {IF h >= 5 THEN (IF Tame(S) THEN S ELSE MId(n)) ELSE IF h = 4 THEN PermDraw ELSE Drw(h)} : Set(M)
Spec == Init /\ [][Next]_vars
Laws == n > 4 \/ step % 3 # 1 \/ FDet(A) = Det(A)
=============================================================================
