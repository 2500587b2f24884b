-------------------------------- MODULE Shapes --------------------------------
(* Matrices with structure: those an implementation might treat specially, and  *)
(* those that share some, but not all, of the marks of such a class (unit       *)
(* columns that are not orthogonal, determinant one without orthogonality, a     *)
(* diagonal that is no identity, a Frobenius norm of sqrt n ...).                *)
(* Shape(h, ..) is [m |-> integer matrix, d |-> common denominator].             *)
EXTENDS Lin

LOCAL F(n, f(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> f(i, j)])])
LOCAL W(m, d) == [m |-> m, d |-> d]
RECURSIVE ShufS(_, _, _)
ShufS(n, p, x) == IF x = <<>> THEN p ELSE
  LET i == ((x[1] - 1) % n) + 1  j == ((x[1] \div n) % n) + 1 IN
  ShufS(n, [p EXCEPT ![i] = p[j], ![j] = p[i]], Tail(x))
PermS(n, x) == ShufS(n, [i \in 1..n |-> i], x)
\* rows of length 5, 3 or 2: entries by absolute value
Units5 == << <<5>>, <<3, 4>>, <<4, 3>>, <<1, 2, 2, 4>>, <<2, 4, 2, 1>>, <<3, 4>>, <<4, 2, 1, 2>> >>
Units3 == << <<3>>, <<1, 2, 2>>, <<2, 1, 2>>, <<2, 2, 1>>, <<1, 2, 2>>, <<2, 1, 2>> >>
Units2 == << <<2>>, <<1, 1, 1, 1>>, <<1, 1, 1, 1>>, <<1, 1, 1, 1>> >>
\* the entries a placed at the positions p, with signs z
Place(n, a, p, z) == [j \in 1..n |-> LET k == p[j] IN IF k <= Len(a) THEN (IF z[j] > 0 THEN -a[k] ELSE a[k]) ELSE 0]
UnitRow(n, L, i, x, z) ==
  LET T == IF L = 5 THEN Units5 ELSE IF L = 3 THEN Units3 ELSE Units2
      c == T[1 + ((x[i] + i) % Len(T))]
      a == IF Len(c) <= n THEN c ELSE T[1 + (x[i] % (IF L = 5 THEN 3 ELSE 1))] IN
  TLCEval(Place(n, a, PermS(n, <<x[1 + (i % Len(x))], 1 + ((x[i] * 7 + i) % 36)>>), z))
\* (v.v) I - 2 v v^T
ReflS(n, v) == MSub(MScale(MId(n), Dot(v, v)), MScale(Outer(v, v), 2))
SPermS(n, x, z) == LET p == PermS(n, x) IN F(n, LAMBDA i, j : IF p[i] = j THEN (IF z[i] > 0 THEN -1 ELSE 1) ELSE 0)

NShapes == 34
\* M, N: small random matrices; x: n entries in 1..36; v: small vector; s: 1..n
Shape(n, h, M, N, x, v, s) ==
  LET z == v  nz == IF v = VZero(n) THEN VUnit(n, s) ELSE v
      cut == 1 + (s % (n - 1))                                  \* 1..n-1
      un(a) == IF a = 0 THEN 1 ELSE a
      Qh == ReflS(n, nz)  q == Dot(nz, nz)
      P == SPermS(n, x, z)
      D == F(n, LAMBDA i, j : IF i = j THEN un(M[i][i]) ELSE 0)
      Pm == SPermS(n, x, VZero(n)) IN
  CASE h = 0 -> W(F(n, LAMBDA i, j : UnitRow(n, 5, i, x, M[i])[j]), 5)                     \* unit rows
    [] h = 1 -> W(Transpose(F(n, LAMBDA i, j : UnitRow(n, 5, i, x, M[i])[j])), 5)          \* unit columns
    [] h = 2 -> IF n = 2 THEN W(M, 1) ELSE W(F(n, LAMBDA i, j : UnitRow(n, 3, i, x, M[i])[j]), 3)
    [] h = 3 -> IF n = 2 THEN W(M, 1) ELSE W(Transpose(F(n, LAMBDA i, j : UnitRow(n, 3, i, x, M[i])[j])), 3)
    [] h = 4 -> W(F(n, LAMBDA i, j : UnitRow(n, 2, i, x, M[i])[j]), 2)
    [] h = 5 -> W(MMul(Qh, D), q)                                                        \* orthogonal columns of different length
    [] h = 6 -> W(MMul(D, Qh), q)                                                        \* orthogonal rows of different length
    [] h = 7 -> W(Qh, q)                                                                 \* a reflection: symmetric, orthogonal
    [] h = 8 -> W(MMul(Qh, P), q)                                                        \* orthogonal
    [] h = 9 -> W(F(n, LAMBDA i, j : IF i <= j THEN M[i][j] ELSE M[j][i]), 1)                \* symmetric
    [] h = 10 -> W(F(n, LAMBDA i, j : IF i = j THEN 0 ELSE IF i < j THEN M[i][j] ELSE -M[j][i]), 1)   \* skew
    [] h = 11 -> W(F(n, LAMBDA i, j : M[1 + ((j - i + n) % n)][1]), 1)                     \* circulant
    [] h = 12 -> W(F(n, LAMBDA i, j : IF j >= i THEN M[1][1 + j - i] ELSE M[2][1 + i - j]), 1)       \* Toeplitz
    [] h = 13 -> W(F(n, LAMBDA i, j : IF i + j <= n + 1 THEN M[1][i + j - 1] ELSE M[2][i + j - n]), 1) \* Hankel
    [] h = 14 -> W(F(n, LAMBDA i, j : IF (i <= cut) = (j <= cut) THEN M[i][j] ELSE 0), 1)    \* block diagonal
    [] h = 15 -> W(F(n, LAMBDA i, j : IF i > cut /\ j <= cut THEN 0 ELSE M[i][j]), 1)         \* block triangular
    [] h = 16 -> W(F(n, LAMBDA i, j : IF i <= cut /\ j > cut THEN 0 ELSE M[i][j]), 1)
    [] h = 17 -> W(F(n, LAMBDA i, j : IF (i <= cut) # (j <= cut) THEN M[i][j] ELSE 0), 1)     \* anti-diagonal blocks
    [] h = 18 -> W(MAdd(MId(n), Outer(M[1], N[1])), 1)                                    \* identity plus rank one
    [] h = 19 -> W(F(n, LAMBDA i, j : IF i = j THEN un(M[i][i]) ELSE 0), 1)                   \* diagonal
    [] h = 20 -> W(F(n, LAMBDA i, j : IF i = j THEN (IF v[i] > 0 THEN -1 ELSE 1) ELSE 0), 1)   \* half turns, reflections
    [] h = 21 -> W(F(n, LAMBDA i, j : IF i + j = n + 1 THEN un(M[i][j]) ELSE 0), 1)           \* antidiagonal
    [] h = 22 -> W(F(n, LAMBDA i, j : IF j = i + 1 THEN 1 ELSE IF i = n THEN M[1][j] ELSE 0), 1)      \* companion
    [] h = 23 -> W(F(n, LAMBDA i, j : IF j = i THEN 1 ELSE IF i < j THEN M[i][j] ELSE 0), 1)  \* unit triangular
    [] h = 24 -> W(F(n, LAMBDA i, j : IF j = i THEN 1 ELSE IF i > j THEN M[i][j] ELSE 0), 1)
    [] h = 25 -> W(F(n, LAMBDA i, j : IF i = j THEN (IF i <= cut THEN 1 ELSE -1) ELSE IF i <= cut /\ j > cut THEN M[i][j] ELSE 0), 1)  \* involution
    [] h = 26 -> W(F(n, LAMBDA i, j : IF i = j THEN (IF i <= cut THEN 1 ELSE 0) ELSE IF i <= cut /\ j > cut THEN M[i][j] ELSE 0), 1)   \* projection
    [] h = 27 -> W(F(n, LAMBDA i, j : IF j = n THEN SumTo(M[i], n - 1) * (-1) + (IF s = 1 THEN 0 ELSE 1) ELSE M[i][j]), 1)   \* constant row sums
    [] h = 28 -> W(F(n, LAMBDA i, j : IF i = n THEN (IF j = n THEN un(M[n][n]) * (IF n = 2 THEN 1 ELSE IF q <= 4 THEN q ELSE 1) ELSE 0) ELSE IF j = n THEN N[i][n]
                                      ELSE IF n = 2 \/ q > 4 THEN M[i][j] ELSE Qh[i][j]), IF n = 2 \/ q > 4 THEN 1 ELSE q)   \* affine
    [] h = 29 -> LET p == PermS(n * n, x \o x)                                            \* sum of squares n, not orthogonal
                     a == [k \in 1..(n * n) |-> IF k < n THEN 2 ELSE IF k < n + 4 /\ n > 2 THEN 1 ELSE IF n = 2 /\ k = 2 THEN 2 ELSE 0] IN
                 W(F(n, LAMBDA i, j : (IF N[i][j] > 0 THEN -1 ELSE 1) * a[p[(i - 1) * n + j]]), 2)
    [] h = 30 -> W(F(n, LAMBDA i, j : IF i = j THEN 1 ELSE IF i = s /\ j = 1 + (x[1] % n) THEN M[1][1] ELSE 0), 1)   \* elementary
    [] h = 31 -> W(MMul(F(n, LAMBDA i, j : IF i > j THEN M[i][j] ELSE IF i = j THEN 1 ELSE 0), F(n, LAMBDA i, j : IF i < j THEN N[i][j] ELSE IF i = j THEN 1 ELSE 0)), 1)  \* det one
    [] h = 32 -> W(F(n, LAMBDA i, j : IF i = s THEN (IF j = 1 + (x[1] % n) THEN un(M[1][1]) ELSE 0) ELSE M[i][j]), 1)  \* a row with one entry
    [] h = 33 -> W(F(n, LAMBDA i, j : IF j = s THEN (IF i = 1 + (x[1] % n) THEN un(M[1][1]) ELSE 0) ELSE M[i][j]), 1)  \* a column with one entry
    [] OTHER -> W(MMul(MMul(Pm, F(n, LAMBDA i, j : IF i > cut /\ j <= cut THEN 0 ELSE M[i][j])), Transpose(Pm)), 1)    \* hidden block triangular
=============================================================================
