-------------------------------- MODULE Lin --------------------------------
(* Linear algebra over the integers: the mathematics the matrix and vector   *)
(* types of the library are meant to implement, written by definition and    *)
(* independently of the hand-unrolled code.                                  *)
EXTENDS Arith

\* ---- vectors: sequences of integers
Dot(a, b) == SumTo([k \in 1..Len(a) |-> a[k] * b[k]], Len(a))
VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
VSub(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])
VScale(a, s) == TLCEval([i \in 1..Len(a) |-> s * a[i]])
VNeg(a) == VScale(a, -1)
VDivI(a, s) == TLCEval([i \in 1..Len(a) |-> Sgn(s) * Sgn(a[i]) * (Abs(a[i]) \div Abs(s))])
VZero(n) == [i \in 1..n |-> 0]
VUnit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
Cross(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
Norm1(a) == SumTo([k \in 1..Len(a) |-> Abs(a[k])], Len(a))

\* ---- square matrices: sequences of rows
Dim(A) == Len(A)
MMap2(A, B, Op(_, _)) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> Op(A[i][j], B[i][j])])])
MAdd(A, B) == MMap2(A, B, LAMBDA x, y : x + y)
MSub(A, B) == MMap2(A, B, LAMBDA x, y : x - y)
MScale(A, s) == TLCEval([i \in 1..Len(A) |-> VScale(A[i], s)])
MNeg(A) == MScale(A, -1)
MDivI(A, s) == TLCEval([i \in 1..Len(A) |-> VDivI(A[i], s)])
MZero(n) == [i \in 1..n |-> VZero(n)]
MId(n) == [i \in 1..n |-> VUnit(n, i)]
Col(A, j) == [i \in 1..Len(A) |-> A[i][j]]
Transpose(A) == TLCEval([j \in 1..Len(A) |-> TLCEval(Col(A, j))])
MMul(A, B) == LET Bt == Transpose(B) IN
              TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |-> Dot(A[i], Bt[j])])])
MVec(A, v) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], v)])
VMat(v, A) == TLCEval([j \in 1..Len(A) |-> Dot(v, Col(A, j))])
Trace(A) == SumTo([i \in 1..Len(A) |-> A[i][i]], Len(A))
Frob2(A) == SumTo([i \in 1..Len(A) |-> Dot(A[i], A[i])], Len(A))
Flat(A) == [k \in 1..(Len(A) * Len(A)) |-> A[((k - 1) \div Len(A)) + 1][((k - 1) % Len(A)) + 1]]
MMaxAbs(A) == MaxAbs(Flat(A))
MGcd(A) == GcdSeq(Flat(A))
Diag(A) == [i \in 1..Len(A) |-> A[i][i]]
Outer(a, b) == TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(b) |-> a[i] * b[j]])])

\* entries strictly above / below the diagonal, row by row
RECURSIVE TriFrom(_, _, _, _)
TriFrom(A, i, j, up) ==
  LET n == Len(A) IN
  IF i > n THEN <<>>
  ELSE IF j > n THEN TriFrom(A, i + 1, 1, up)
  ELSE (IF (up /\ i < j) \/ (~up /\ i > j) THEN <<A[i][j]>> ELSE <<>>) \o TriFrom(A, i, j + 1, up)
Upper(A) == TriFrom(A, 1, 1, TRUE)
Lower(A) == TriFrom(A, 1, 1, FALSE)

\* minors, determinant (Laplace along the first row), adjugate
Drop(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
Minor(A, i, j) == TLCEval([r \in 1..(Len(A) - 1) |-> TLCEval(Drop(Drop(A, i)[r], j))])
RECURSIVE Det(_)
Det(A) == IF Len(A) = 1 THEN A[1][1]
          ELSE IF Len(A) = 2 THEN A[1][1] * A[2][2] - A[1][2] * A[2][1]
          ELSE SumTo([j \in 1..Len(A) |->
                 IF A[1][j] = 0 THEN 0
                 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, 1, j))], Len(A))
Adj(A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |->
             (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(A, j, i))])])

\* elementary operations
SwapRows(A, i, j) == TLCEval([A EXCEPT ![i] = A[j], ![j] = A[i]])
ScaleRow(A, i, s) == TLCEval([A EXCEPT ![i] = VScale(A[i], s)])
AddRow(A, i, j, s) == TLCEval([A EXCEPT ![i] = VAdd(A[i], VScale(A[j], s))])
SwapCols(A, i, j) == Transpose(SwapRows(Transpose(A), i, j))

\* permutations as functions 1..n -> 1..n
PermMat(p, w) == [i \in 1..Len(p) |-> [j \in 1..Len(p) |-> IF p[i] = j THEN w[i] ELSE 0]]
Inversions(p) == Cardinality({x \in (1..Len(p)) \X (1..Len(p)) : x[1] < x[2] /\ p[x[1]] > p[x[2]]})
PermSign(p) == IF Inversions(p) % 2 = 0 THEN 1 ELSE -1
RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProdTo(f, n - 1)
=============================================================================
