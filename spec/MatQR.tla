-------------------------------- MODULE MatQR -------------------------------
(* The QR factorisation is unique for R with a positive diagonal, so a matrix *)
(* built as (rational orthogonal Q) * (upper triangular R) must come back     *)
(* apart into the same factors.                                               *)
EXTENDS Lin, Machine

CONSTANTS NS

VARIABLES n, u
vars == <<step, out, n, u>>

\* (v.v) I - 2 v v^T : a reflection, over v.v
Refl(v) == MSub(MScale(MId(n), Dot(v, v)), MScale(Outer(v, v), 2))
\* sign of the permutation s/p as an orthogonal matrix
SPerm(p, s) == [i \in 1..n |-> [j \in 1..n |-> IF p[i] = j THEN s[i] ELSE 0]]
RECURSIVE Shuffle(_, _)
Shuffle(p, x) == IF x = <<>> THEN p ELSE
                 LET i == ((x[1] - 1) % n) + 1  j == ((x[1] \div n) % n) + 1 IN
                 Shuffle([p EXCEPT ![i] = p[j], ![j] = p[i]], Tail(x))

By(x, D, den, e) == \* |det A| = D / 1 (den only scales entries)
  [f64 |-> IF Below(D, e, 52) THEN NoneV ELSE x, f32 |-> IF Below(D, e, 23) THEN NoneV ELSE x]

Init == n \in NS /\ u \in {0, -2, -9, 11, 60, -(48 \div n), -(36 \div n), -(20 \div n)} /\ step = 0 /\ out = <<>>
Start == out' = << EvNew(u, IF Abs(u) > 20 THEN <<"f64">> ELSE Floats) >>

Factor ==
  \E v1 \in {RandV(n, -2, 2)} : \E v2 \in {RandV(n, -1, 1)} : \E k \in Pick(0..2) :
  \E x \in {RandV(4, 1, 36)} : \E sg \in {RandV(n, 0, 1)} :
  \E dg \in {RandV(n, IF n <= 3 THEN 1 ELSE 2, IF n <= 3 THEN 6 ELSE 4)} : \E M \in {RandM(n, IF n <= 3 THEN -4 ELSE -1, IF n <= 3 THEN 4 ELSE 1)} :
  LET P == SPerm(Shuffle([i \in 1..n |-> i], x), [i \in 1..n |-> 1 - 2 * sg[i]])
      Q1 == IF k >= 1 /\ v1 # VZero(n) THEN MMul(Refl(v1), P) ELSE P
      d1 == IF k >= 1 /\ v1 # VZero(n) THEN Dot(v1, v1) ELSE 1
      Q2 == IF k >= 2 /\ v2 # VZero(n) THEN MMul(Q1, Refl(v2)) ELSE Q1
      d2 == IF k >= 2 /\ v2 # VZero(n) THEN d1 * Dot(v2, v2) ELSE d1
      R0 == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN dg[i] ELSE IF i < j THEN M[i][j] ELSE 0])])
      A == MMul(Q2, R0)
      D == ProdTo(dg, n)
      QR == Tup(<< Over(Mat(Q2), d2), Deg(Mat(R0), 1) >>)
      a == Deg(Over(Mat(A), d2), 1)
  IN /\ ~AtEdge(D, u * n, 52) /\ ~AtEdge(D, u * n, 23)
     /\ out' = << To(Exp(Ev("id", <<a>>), a), 0),
                  Tol(Exp(Ev("qr", <<R(0)>>), By(QR, D, d2, u * n)), 8, 3) >>

Singular == \E M \in {RandM(n, -3, 3)} : \E i \in Pick(1..n) : \E j \in Pick(1..n) : \E s \in Pick({-2, -1, 0, 1, 2}) :
            LET S == TLCEval([M EXCEPT ![i] = VScale(M[j], s)])
                St == IF s % 2 = 0 THEN S ELSE Transpose(S) IN
            i # j /\ out' = << Exp(Ev("qr", <<Deg(Mat(St), 1)>>), NoneV) >>

Idle == out' = <<>>
Next == /\ step' = step + 1 /\ UNCHANGED <<n, u>>
        /\ IF step = 0 THEN Start
           ELSE IF step % 5 = 4 THEN (Singular \/ Idle) ELSE (Factor \/ Idle)
Spec == Init /\ [][Next]_vars

\* the reflections are orthogonal
Laws == step # 1 \/ \A v \in {RandV(n, -2, 2)} : MMul(Refl(v), Transpose(Refl(v))) = MScale(MId(n), Dot(v, v) * Dot(v, v))
=============================================================================
