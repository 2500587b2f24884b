------------------------------ MODULE MatBasis ------------------------------
(* Exhaustive: every pair of (weighted) basis matrices and basis vectors of   *)
(* every dimension. The element-wise operations are linear and the products   *)
(* bilinear, so these pairs pin down every entry of every formula; and every  *)
(* permutation matrix, which pins down every term of the determinant.         *)
EXTENDS Lin, Machine

CONSTANTS NS, KINDS

VARIABLES n, kind, a, b
vars == <<step, out, n, kind, a, b>>

\* weights that tell the operands apart
E1(i, j) == [r \in 1..n |-> [c \in 1..n |-> IF r = i /\ c = j THEN 3 ELSE 0]]
E2(i, j) == [r \in 1..n |-> [c \in 1..n |-> IF r = i /\ c = j THEN -5 ELSE 0]]
U1(i) == [r \in 1..n |-> IF r = i THEN 7 ELSE 0]
U2(i) == [r \in 1..n |-> IF r = i THEN -2 ELSE 0]
\* dense companions with pairwise different entries
D1 == [r \in 1..n |-> [c \in 1..n |-> (n * (r - 1) + c) * (IF (r + c) % 2 = 0 THEN 1 ELSE -1)]]
DV == [r \in 1..n |-> (2 * r + 1) * (IF r % 2 = 0 THEN 1 ELSE -1)]

LT == IF n = 3 THEN <<"f64", "f32">> ELSE <<"f32">>
Idx2(k) == <<((k - 1) \div n) + 1, ((k - 1) % n) + 1>>

ASpace == IF kind \in {"mm", "elem", "mv", "vm"} THEN 1..(n * n)
          ELSE IF kind = "perm" THEN {p \in [1..n -> 1..n] : \A x, y \in 1..n : x # y => p[x] # p[y]}
          ELSE 1..n
BSpace == IF kind = "mm" THEN 1..(n * n)
          ELSE IF kind \in {"mv", "vm", "vv"} THEN 1..n
          ELSE {0}

A1 == LET x == Idx2(a) IN E1(x[1], x[2])
B1 == LET x == Idx2(b) IN E2(x[1], x[2])

Events ==
  IF kind = "mm" THEN << Exp(Ev("mul", <<Mat(A1), Mat(B1)>>), Mat(MMul(A1, B1))) >>
  ELSE IF kind = "mv" THEN << Exp(Ev("mul", <<Mat(A1), Vec(U1(b))>>), Vec(MVec(A1, U1(b)))) >>
  ELSE IF kind = "vm" THEN << Exp(Ev("mul", <<Vec(U1(b)), Mat(A1)>>), Vec(VMat(U1(b), A1))) >>
  ELSE IF kind = "vv" THEN
    << Exp(Ev("mul", <<Vec(U1(a)), Vec(U2(b))>>), Scl(Dot(U1(a), U2(b)))),
       Exp(Ev("add", <<Vec(U1(a)), Vec(DV)>>), Vec(VAdd(U1(a), DV))),
       Exp(Ev("sub", <<Vec(DV), Vec(U1(a))>>), Vec(VSub(DV, U1(a)))),
       Exp(Ev("addassign", <<Vec(DV), Vec(U1(a))>>), Vec(VAdd(U1(a), DV))),
       Exp(Ev("subassign", <<Vec(U1(a)), Vec(DV)>>), Vec(VSub(U1(a), DV))),
       Exp(Ev("neg", <<Vec(U1(a))>>), Vec(VNeg(U1(a)))),
       Exp(Ev("muls", <<Vec(U1(a)), Scl(-3)>>), Vec(VScale(U1(a), -3))),
       Exp(Ev("divs", <<Vec(U1(a)), Scl(-7)>>), Vec(VDivI(U1(a), -7))),
       For(Exp(Ev("lmuls", <<Scl(4), Vec(U1(a))>>), Vec(VScale(U1(a), 4))), LT),
       Exp(Ev("eq", <<Vec(VAdd(U1(a), DV)), Vec(DV)>>), Boo(FALSE)),
       Exp(Ev("eq", <<Vec(DV), Vec(VAdd(U1(a), DV))>>), Boo(FALSE)),
       Exp(Ev("eq", <<Vec(DV), Vec(DV)>>), Boo(TRUE)),
       Exp(Ev("is_zero", <<Vec(U1(a))>>), Boo(FALSE)),
       Exp(Ev("is_zero", <<Vec(VZero(n))>>), Boo(TRUE)) >>
  ELSE IF kind = "elem" THEN
    << Exp(Ev("add", <<Mat(A1), Mat(D1)>>), Mat(MAdd(A1, D1))),
       Exp(Ev("add", <<Mat(D1), Mat(A1)>>), Mat(MAdd(A1, D1))),
       Exp(Ev("sub", <<Mat(A1), Mat(D1)>>), Mat(MSub(A1, D1))),
       Exp(Ev("sub", <<Mat(D1), Mat(A1)>>), Mat(MSub(D1, A1))),
       Exp(Ev("addassign", <<Mat(D1), Mat(A1)>>), Mat(MAdd(A1, D1))),
       Exp(Ev("subassign", <<Mat(D1), Mat(A1)>>), Mat(MSub(D1, A1))),
       Exp(Ev("neg", <<Mat(MAdd(A1, D1))>>), Mat(MNeg(MAdd(A1, D1)))),
       Exp(Ev("muls", <<Mat(MAdd(A1, D1)), Scl(-3)>>), Mat(MScale(MAdd(A1, D1), -3))),
       Exp(Ev("divs", <<Mat(MScale(MAdd(A1, D1), 6)), Scl(-3)>>), Mat(MScale(MAdd(A1, D1), -2))),
       Exp(Ev("eq", <<Mat(MAdd(A1, D1)), Mat(D1)>>), Boo(FALSE)),
       Exp(Ev("eq", <<Mat(D1), Mat(MAdd(A1, D1))>>), Boo(FALSE)),
       Exp(Ev("eq", <<Mat(D1), Mat(D1)>>), Boo(TRUE)),
       Exp(Ev("is_zero", <<Mat(A1)>>), Boo(FALSE)),
       Exp(Ev("is_zero", <<Mat(MZero(n))>>), Boo(TRUE)) >>
    \o (IF n \in {2, 3} THEN << For(Exp(Ev("lmuls", <<Scl(4), Mat(MAdd(A1, D1))>>), Mat(MScale(MAdd(A1, D1), 4))), LT) >> ELSE <<>>)
  ELSE \* perm: a weighted permutation matrix; determinant, trace, inverse of a single Leibniz term
    LET w == [i \in 1..n |-> (IF i % 2 = 0 THEN -1 ELSE 1) * (IF i \in {1, 4} THEN 2 ELSE IF i = 2 THEN 3 ELSE 1)]
        P == PermMat(a, w)
        d == PermSign(a) * ProdTo(w, n)
        Inv == [i \in 1..n |-> [j \in 1..n |-> IF a[j] = i THEN d \div w[j] ELSE 0]]
    IN << Exp(Ev("det", <<Mat(P)>>), Scl(d)),
          Exp(Ev("trace", <<Mat(P)>>), Scl(Trace(P))),
          Exp(Ev("inverse", <<Mat(P)>>), Over(Mat(Inv), d)) >>

Init == /\ n \in NS /\ kind \in KINDS /\ a = 0 /\ b = 0 /\ step = 0
        /\ out = << EvNew(0, IF kind = "perm" THEN Floats ELSE AllT) >>
Next == /\ step = 0 /\ step' = 1
        /\ a' \in ASpace /\ b' \in BSpace
        /\ UNCHANGED <<n, kind>>
        /\ out' = << EvNew(0, IF kind = "perm" THEN Floats ELSE AllT) >> \o Events'
Spec == Init /\ [][Next]_vars

\* model theorem: the closed form of the determinant of a permutation matrix is Laplace's
Laws == (kind = "perm" /\ step = 1 /\ n <= 5) =>
          LET w == [i \in 1..n |-> i] IN Det(PermMat(a, w)) = PermSign(a) * ProdTo(w, n)
=============================================================================
