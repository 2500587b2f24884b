------------------------------- MODULE LuCheck -------------------------------
(* Trace validation for C06. Each record of the trace is one factorisation     *)
(* done by the code, with the row interchanges it chose. A choice is a legal    *)
(* step of the specification if it names a row not above the current one whose  *)
(* pivot is non-zero; the factors are then determined, and are demanded of the  *)
(* code, exactly.                                                             *)
EXTENDS Lin, Wire, IOUtils

VARIABLES i, out
vars == <<i, out>>
Log == ndJsonDeserialize(IOEnv.TRACE)

\* fraction-free elimination following the given interchanges: M below row k holds minors.
\* result: [ok, M, sg] with M[r][c] (r > c) the minor over which L is formed
RECURSIVE Elim(_, _, _, _, _)
Elim(M, piv, k, prev, sg) ==
  LET m == Len(M) IN
  IF k > m THEN [ok |-> TRUE, M |-> M, sg |-> sg]
  ELSE LET p == piv[k] + 1 IN
       IF p < k \/ p > m THEN [ok |-> FALSE, M |-> M, sg |-> sg]
       ELSE IF M[p][k] = 0 THEN [ok |-> FALSE, M |-> M, sg |-> sg]
       ELSE LET S == IF p = k THEN M ELSE SwapRows(M, p, k)
                E == TLCEval([a \in 1..m |-> TLCEval([b \in 1..m |-> IF a <= k \/ b <= k THEN S[a][b]
                       ELSE (S[a][b] * S[k][k] - S[a][k] * S[k][b]) \div prev])])
            IN Elim(E, piv, k + 1, S[k][k], IF p = k THEN sg ELSE -sg)
\* Bareiss: after step k, entry (a, b) is the k-th leading minor bordered by row a, column b.
\* U[k][j] = M[k][j] / D(k-1), L[i][k] = M[i][k] / D(k) with D(k) = M[k][k] the leading minors
Dg(M, k) == IF k = 0 THEN 1 ELSE M[k][k]
LMat(M) == [a \in 1..Len(M) |-> [b \in 1..Len(M) |-> IF a = b THEN 1 ELSE IF a > b THEN NQ(M[a][b], Dg(M, b)) ELSE 0]]
UMat(M) == [a \in 1..Len(M) |-> [b \in 1..Len(M) |-> IF a <= b THEN NQ(M[a][b], Dg(M, a - 1)) ELSE 0]]

Step(r) ==
  LET A == r.arg
      m == Len(A)
      e == IF Len(r.piv) = m THEN Elim(A, r.piv, 1, 1, 1) ELSE [ok |-> FALSE, M |-> A, sg |-> 1]
      x == Ev("lu_parts", << Deg(Mat(A), 1) >>) IN
  << EvNew(r.u, <<r.ty>>),
     Cond(Exp(x, IF ~e.ok THEN NoneV      \* an illegal choice: nothing the code returns is right
          ELSE Tup(<< Mat(LMat(e.M)), Deg(Mat(UMat(e.M)), 1), Deg(Scl(e.sg * Dg(e.M, m)), m), Idxs(r.piv) >>)), 10) >>

Init == i = 0 /\ out = <<>>
Next == /\ i < Len(Log) /\ i' = i + 1
        /\ out' = Step(Log[i + 1])
Spec == Init /\ [][Next]_vars
Emit == OutAll(out)
\* the model's own L and U multiply back to the permuted matrix (on small sizes, over the common denominator)
Laws == TRUE
=============================================================================
