--------------------------------- MODULE Near ---------------------------------
(* Values next to the special ones, and values of mixed magnitude. An operand   *)
(* is B + eps N or row/column scaled by powers of two (eps = 2^-k): B special    *)
(* (identity, permutation, singular, unit, nilpotent ...), B and N over the      *)
(* integers, so every outcome is an exact polynomial in eps and whatever is a    *)
(* multiple of eps has to be right to within a fraction of eps.                  *)
EXTENDS Quat, Machine

CONSTANTS KIND, NS, KS

VARIABLES n, k, ty
vars == <<step, out, n, k, ty>>

F32 == ty = "f32"
Bits == EpsBits[ty]
\* close comparison; P: nothing but rounding
P(e) == Tol(e, 12, 5)
Eps == NP2(1, -k)
E(b, c) == IF c = 0 THEN b ELSE IF b = 0 THEN NP2(c, -k) ELSE NAdd(b, NP2(c, -k))
Poly(a, b, c) == NOp("+", <<a, NP2(b, -k), NP2(c, -2 * k)>>)
EV(b, c) == TLCEval([i \in 1..Len(b) |-> E(b[i], c[i])])
EM(B, C) == TLCEval([i \in 1..Len(B) |-> EV(B[i], C[i])])
P2(m, e) == IF m = 0 THEN 0 ELSE NP2(m, e)
SumE(f, m) == NOp("+", [i \in 1..m |-> f[i]])

RECURSIVE RowProd(_, _)
RowProd(M, j) == IF j = 0 THEN 1 ELSE LET r == RowProd(M, j - 1) IN
                 IF r > 8000000 THEN r ELSE r * Max2(1, Norm1(M[j]))
SPerm(p, s) == [i \in 1..n |-> [j \in 1..n |-> IF p[i] = j THEN s[i] ELSE 0]]
RECURSIVE Shuffle(_, _)
Shuffle(p, x) == IF x = <<>> THEN p ELSE
                 LET i == ((x[1] - 1) % n) + 1  j == ((x[1] \div n) % n) + 1 IN
                 Shuffle([p EXCEPT ![i] = p[j], ![j] = p[i]], Tail(x))
Perm(x, z) == SPerm(Shuffle([i \in 1..n |-> i], x), [i \in 1..n |-> 1 - 2 * z[i]])
Base(h, X, x, z) ==
  IF h = 0 THEN MId(n)
  ELSE IF h = 1 THEN Perm(x, z)
  ELSE IF h = 2 THEN [i \in 1..n |-> [j \in 1..n |-> 1]]
  ELSE IF h = 3 THEN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN 1 ELSE IF i < j THEN X[i][j] ELSE 0])])
  ELSE IF h = 4 THEN X
  ELSE IF h = 5 THEN TLCEval([X EXCEPT ![1] = X[n]])
  ELSE TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN X[i][i] ELSE 0])])
Fits(B) == IF F32 THEN k <= 13 /\ RowProd(B, n) <= 2^(14 - k) ELSE RowProd(B, n) <= 2^Min2(22, Max2(0, 40 - k))
Based(h, X, x, z) == LET B == Base(h, X, x, z) IN IF Fits(B) THEN B ELSE IF h > 3 THEN Perm(x, z) ELSE MId(n)

\* ---- C01: entries of mixed magnitude, each right on its own
Mix(M, Ex) == TLCEval([i \in 1..Len(M) |-> TLCEval([j \in 1..Len(M) |-> P2(M[i][j], Ex[i][j])])])
MixV(v, ex) == TLCEval([i \in 1..Len(v) |-> P2(v[i], ex[i])])
Comb(A, B, s) == [i \in 1..n |-> [j \in 1..n |-> NAdd(A[i][j], NMul(s, B[i][j]))]]
CombV(a, b, s) == [i \in 1..n |-> NAdd(a[i], NMul(s, b[i]))]
Elem(M, N, Ex, Ey, s) ==
  LET A == Mix(M, Ex)  B == Mix(N, Ey)
      a == MixV(M[1], Ex[1])  b == MixV(N[1], Ey[2])
      S == NP2(s, -k)
      MulS(x) == [i \in 1..n |-> [j \in 1..n |-> NMul(S, x[i][j])]]
      MulV(x) == [i \in 1..n |-> NMul(S, x[i])]
      DivS(x) == [i \in 1..n |-> [j \in 1..n |-> NDiv(x[i][j], S)]]
      DivV(x) == [i \in 1..n |-> NDiv(x[i], S)]
      Z(x) == [i \in 1..n |-> [j \in 1..n |-> NMul(-1, x[i][j])]] IN
  << To(P(Exp(Ev("id", <<Mat(A)>>), Pc(Mat(A)))), 0), To(Ev("id", <<Mat(B)>>), 1), To(Ev("id", <<Vec(a)>>), 2), To(Ev("id", <<Vec(b)>>), 3),
     P(Exp(Ev("add", <<R(0), R(1)>>), Pc(Mat(Comb(A, B, 1))))), P(Exp(Ev("addassign", <<R(0), R(1)>>), Pc(Mat(Comb(A, B, 1))))),
     P(Exp(Ev("sub", <<R(0), R(1)>>), Pc(Mat(Comb(A, B, -1))))), P(Exp(Ev("subassign", <<R(0), R(1)>>), Pc(Mat(Comb(A, B, -1))))),
     P(Exp(Ev("neg", <<R(0)>>), Pc(Mat(Z(A))))),
     P(Exp(Ev("muls", <<R(0), Scl(S)>>), Pc(Mat(MulS(A))))), P(Exp(Ev("divs", <<R(0), Scl(S)>>), Pc(Mat(DivS(A))))),
     P(Exp(Ev("add", <<R(2), R(3)>>), Pc(Vec(CombV(a, b, 1))))), P(Exp(Ev("addassign", <<R(2), R(3)>>), Pc(Vec(CombV(a, b, 1))))),
     P(Exp(Ev("sub", <<R(2), R(3)>>), Pc(Vec(CombV(a, b, -1))))), P(Exp(Ev("subassign", <<R(2), R(3)>>), Pc(Vec(CombV(a, b, -1))))),
     P(Exp(Ev("muls", <<R(2), Scl(S)>>), Pc(Vec(MulV(a))))), P(Exp(Ev("divs", <<R(2), Scl(S)>>), Pc(Vec(DivV(a))))),
     \* equality and zero are exact: one entry off by its last bits, one entry tiny
     Exp(Ev("eq", <<R(0), R(0)>>), Boo(TRUE)),
     Exp(Ev("eq", <<R(0), Mat([A EXCEPT ![n][1] = IF M[n][1] = 0 THEN NP2(1, Ex[n][1]) ELSE NP2(2 * M[n][1], Ex[n][1])])>>), Boo(FALSE)),
     Exp(Ev("is_zero", <<Mat([i \in 1..n |-> [j \in 1..n |-> IF i = (Abs(s) % n) + 1 /\ j = 2 THEN NP2(s, -3 * k) ELSE 0]])>>), Boo(FALSE)),
     Exp(Ev("is_zero", <<Vec([i \in 1..n |-> IF i = (Abs(s) % n) + 1 THEN NP2(s, -3 * k) ELSE 0])>>), Boo(FALSE)) >>
  \o (IF n = 2 \/ n = 3 \/ F32 THEN << For(P(Exp(Ev("lmuls", <<Scl(S), R(2)>>), Pc(Vec(MulV(a))))), <<IF n = 3 THEN ty ELSE "f32">>) >> ELSE <<>>)

\* ---- C02: rows and columns of very different size; every product term of an entry has the same exponent
Prod(M, N, v, ra, cm, cb) ==
  LET A == [i \in 1..n |-> [j \in 1..n |-> P2(M[i][j], ra[i] + cm[j])]]
      B == [i \in 1..n |-> [j \in 1..n |-> P2(N[i][j], cb[j] - cm[i])]]
      C == MMul(M, N)  w == MVec(M, v)  w2 == VMat(v, N)
      x == [i \in 1..n |-> P2(v[i], -cm[i])]
      y == [i \in 1..n |-> P2(v[i], cm[i])] IN
  << To(Ev("id", <<Mat(A)>>), 0), To(Ev("id", <<Mat(B)>>), 1),
     P(Exp(Ev("mul", <<R(0), R(1)>>), Pc(Mat([i \in 1..n |-> [j \in 1..n |-> P2(C[i][j], ra[i] + cb[j])]])))),
     P(Exp(Ev("mul", <<R(0), Vec(x)>>), Pc(Vec([i \in 1..n |-> P2(w[i], ra[i])])))),
     P(Exp(Ev("mul", <<Vec(x), Vec(y)>>), Pc(Scl(Dot(v, v))))) >>
  \o (IF n = 5 THEN <<>> ELSE << P(Exp(Ev("mul", <<Vec(y), R(1)>>), Pc(Vec([i \in 1..n |-> P2(w2[i], cb[i])])))) >>)

\* ---- C04
Perturbed(B, i, r, m) == \* row i of B is B_i + eps r (m = 0) or eps r (m = 1)
  [a \in 1..n |-> IF a # i THEN B[a] ELSE IF m = 1 THEN [j \in 1..n |-> P2(r[j], -k)] ELSE EV(B[i], r)]
Transp(M) == [a \in 1..n |-> [b \in 1..n |-> M[b][a]]]
RowTo(B, i, r) == TLCEval([B EXCEPT ![i] = r])
Sq(x) == NMul(x, x)
DetN(B, i, r, m) ==
  LET D0 == IF m = 1 THEN 0 ELSE Det(B)  D1 == Det(RowTo(B, i, r))
      A == Perturbed(B, i, r, m)  S == RowProd(B, n)
      SS == IF m = 1 THEN NMul(S * Norm1(r), Eps) ELSE S
      d == CwS(Scl(E(D0, D1)), 0, SS)
      tr == CwS(Scl(SumE([a \in 1..n |-> A[a][a]], n)), 0, n)
      nr == Pc(Scl(NOp("sqrt", << SumE([a \in 1..(n * n) |-> Sq(A[1 + ((a - 1) \div n)][1 + ((a - 1) % n)])], n * n) >>))) IN
  << To(Ev("id", <<Mat(A)>>), 0), P(Exp(Ev("det", <<R(0)>>), d)), P(Exp(Ev("trace", <<R(0)>>), tr)), P(Exp(Ev("norm2", <<R(0)>>), nr)),
     To(P(Exp(Ev("transpose", <<R(0)>>), Pc(Mat(Transp(A))))), 1), P(Exp(Ev("det", <<R(1)>>), d)), P(Exp(Ev("norm2", <<R(1)>>), nr)) >>
SumV(x) == SumTo(x, n)
DetS(M, ra, cb) ==
  LET A == [i \in 1..n |-> [j \in 1..n |-> P2(M[i][j], ra[i] + cb[j])]]
      e == SumV(ra) + SumV(cb) IN
  << To(Ev("id", <<Mat(A)>>), 0),
     P(Exp(Ev("det", <<R(0)>>), CwS(Scl(P2(Det(M), e)), 0, NP2(RowProd(M, n), e)))),
     P(Exp(Ev("trace", <<R(0)>>), CwS(Scl(SumE([a \in 1..n |-> A[a][a]], n)), 0, SumE([a \in 1..n |-> NP2(Abs(M[a][a]), ra[a] + cb[a])], n)))),
     P(Exp(Ev("norm2", <<R(0)>>), Pc(Scl(NOp("sqrt", << SumE([a \in 1..(n * n) |-> Sq(A[1 + ((a - 1) \div n)][1 + ((a - 1) % n)])], n * n) >>))))) >>

\* ---- C05
InvN(B, i, r, m) ==
  LET D0 == IF m = 1 THEN 0 ELSE Det(B)  Br == RowTo(B, i, r)  D1 == Det(Br)
      A == Perturbed(B, i, r, m)  S == RowProd(B, n)
      \* the adjugate is affine in the row: rows of B enter row i with weight one
      Ad0 == Adj(B)  Ad1 == Adj(Br)  AdZ == Adj(RowTo(B, i, VZero(n)))
      Nu(a, b) == IF m = 1 THEN E(AdZ[a][b], Ad1[a][b] - AdZ[a][b]) ELSE E(Ad0[a][b], Ad1[a][b] - AdZ[a][b])
      D == E(D0, D1)
      W == [a \in 1..n |-> [b \in 1..n |-> NDiv(Nu(a, b), D)]]
      lit == To(Ev("id", <<Mat(A)>>), 0)
      sc == S * (2 + MMaxAbs(Ad0))
      edge == Below(Abs(D1), -k, Bits) # Below(2 * Abs(D1), -k, Bits)
      cn == NP2(n * 64, Max2(0, k - 12)) IN
  IF D0 # 0 /\ S * MMaxAbs(Ad0) <= 1000 /\ (k > 20 \/ Abs(D1) < 2^(k - 1)) THEN
    << lit, To(P(Exp(Ev("inverse", <<R(0)>>), CwS(Mat(W), Eps, sc))), 1),
       P(Exp(Ev("mul", <<R(0), R(1)>>), CwS(Mat(MId(n)), 0, sc))), P(Exp(Ev("mul", <<R(1), R(0)>>), CwS(Mat(MId(n)), 0, sc))) >>
  ELSE IF D0 # 0 \/ edge THEN <<>>
  ELSE IF D1 = 0 \/ Below(Abs(D1), -k, Bits) THEN << lit, Exp(Ev("inverse", <<R(0)>>), NoneV) >>
  ELSE IF F32 \/ k > 20 THEN << lit, Exp(Ev("inverse", <<R(0)>>), SkipV) >>
  ELSE << lit, To(Cond(Exp(Ev("inverse", <<R(0)>>), CwS(Mat(W), 1, 1)), cn), 1),
          Cond(Exp(Ev("mul", <<R(0), R(1)>>), Mat(MId(n))), cn), Cond(Exp(Ev("mul", <<R(1), R(0)>>), Mat(MId(n))), cn) >>
DiagP(e) == Mat([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN NP2(1, e[i]) ELSE 0]])
InvS(M, ra, cb) ==
  LET A == [i \in 1..n |-> [j \in 1..n |-> P2(M[i][j], ra[i] + cb[j])]]
      e == SumV(ra) + SumV(cb)  D == Det(M)
      lit == To(Ev("id", <<Mat(A)>>), 0)
      edge == Below(Abs(D), e, Bits) # Below(2 * Abs(D), e, Bits)
      sc == RowProd(M, n) * (1 + (MMaxAbs(Adj(M)) \div Abs(D))) IN
  IF D = 0 \/ edge THEN <<>>
  ELSE IF Below(Abs(D), e, Bits) THEN << lit, Exp(Ev("inverse", <<R(0)>>), NoneV) >>
  ELSE << lit, To(Ev("inverse", <<R(0)>>), 1), To(Ev("mul", <<DiagP(cb), R(1)>>), 2),
          Exp(Ev("mul", <<R(2), DiagP(ra)>>), CwS(Over(Mat(MScale(Adj(M), Sgn(D))), Abs(D)), 0, sc)) >>

\* ---- C06
LuN(B, i, r, m) ==
  LET D0 == IF m = 1 THEN 0 ELSE Det(B)  D1 == Det(RowTo(B, i, r))
      A == Perturbed(B, i, r, m)  S == RowProd(B, n)
      SS == IF m = 1 THEN NMul(8 * S * Norm1(r), Eps) ELSE 8 * S IN
  IF D0 = 0 /\ D1 = 0 THEN <<>>
  ELSE << To(Ev("id", <<Mat(A)>>), 0), P(Exp(Ev("lu_rebuild", <<R(0)>>), CwS(Mat(A), Eps, 4 * (1 + MMaxAbs(B))))),
          P(Exp(Ev("lu_det", <<R(0)>>), CwS(Scl(E(D0, D1)), 0, SS))) >>
\* each row relative to its own size
LuS(M, ra) ==
  LET A == [i \in 1..n |-> [j \in 1..n |-> P2(M[i][j], ra[i])]]
      D == Det(M)  e == SumV(ra)
      cl == [i \in 1..n |-> -ra[i]] IN
  IF D = 0 THEN <<>>
  ELSE << To(Ev("id", <<Mat(A)>>), 0), To(Ev("lu_rebuild", <<R(0)>>), 1),
          P(Exp(Ev("mul", <<DiagP(cl), R(1)>>), CwS(Mat(M), 0, 4000))),
          P(Exp(Ev("lu_det", <<R(0)>>), CwS(Scl(P2(D, e)), 0, NP2(40 * RowProd(M, n), e)))) >>

\* entries of mixed magnitude, the smallest on a (permuted) diagonal: never singular, as the entries are odd and
\* the diagonal is the only term of lowest order. Each row relative to its own largest entry.
LuM(M, Ex, ra, p) ==
  LET ex == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF p[i] = j THEN -k - 1 - Abs(Ex[i][j]) ELSE -Abs(Ex[i][j])])])
      A0 == [i \in 1..n |-> [j \in 1..n |-> NP2(2 * M[i][j] + 1, ex[i][j])]]
      A == [i \in 1..n |-> [j \in 1..n |-> NP2(2 * M[i][j] + 1, ex[i][j] + ra[i])]]
      cl == [i \in 1..n |-> -ra[i]] IN
  << To(Ev("id", <<Mat(A)>>), 0), To(Ev("lu_rebuild", <<R(0)>>), 1),
     P(Exp(Ev("mul", <<DiagP(cl), R(1)>>), CwS(Mat(A0), 0, 2000))) >>

\* ---- C07
\* near a signed permutation: first order in eps, and the defining identities
QrN(x, z, N) ==
  LET Pm == Perm(x, z)  M == MMul(Transpose(Pm), N)  A == EM(Pm, N)
      Lo == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i > j THEN M[i][j] ELSE IF i < j THEN -M[j][i] ELSE 0])])
      Up == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN M[i][i] ELSE IF i < j THEN M[i][j] + M[j][i] ELSE 0])])
      fst(e) == Cond(e, NAdd(1, NMul(IF F32 THEN 10000 ELSE 1000000000, NP2(30 * n * n, -2 * k)))) IN
  << To(Ev("id", <<Mat(A)>>), 0),
     To(fst(Exp(Ev("qr_q", <<R(0)>>), CwS(Mat(EM(Pm, MMul(Pm, Lo))), 1, 4))), 1),
     To(fst(Exp(Ev("qr_r", <<R(0)>>), CwS(Mat(EM(MId(n), Up)), 1, 4))), 2),
     To(Ev("transpose", <<R(1)>>), 3),
     P(Exp(Ev("mul", <<R(3), R(1)>>), CwS(Mat(MId(n)), 0, 8))), P(Exp(Ev("mul", <<R(1), R(3)>>), CwS(Mat(MId(n)), 0, 8))),
     P(Exp(Ev("mul", <<R(1), R(2)>>), CwS(Mat(A), Eps, 8))) >>
Refl(v) == MSub(MScale(MId(n), Dot(v, v)), MScale(Outer(v, v), 2))
\* R = diag + eps U: the couplings between the columns are tiny
QrR(x, z, v, dg, U) ==
  LET Pm == Perm(x, z)
      Qm == IF v = VZero(n) THEN Pm ELSE MMul(Refl(v), Pm)
      q == IF v = VZero(n) THEN 1 ELSE Dot(v, v)
      Dg == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN dg[i] ELSE 0]]
      Us == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i < j THEN U[i][j] ELSE 0])])
      A == Over(Mat(EM(MMul(Qm, Dg), MMul(Qm, Us))), q) IN
  << To(Ev("id", <<A>>), 0),
     To(Exp(Ev("qr_q", <<R(0)>>), CwS(Over(Mat(Qm), q), IF F32 THEN 1 ELSE 0, 20)), 1),
     To(Exp(Ev("qr_r", <<R(0)>>), CwS(Mat(EM(Dg, Us)), Eps, 40)), 2) >>
\* one tiny diagonal entry: nearly dependent columns
QrD(x, z, v, dg, U, i) ==
  LET Pm == Perm(x, z)
      Qm == IF v = VZero(n) THEN Pm ELSE MMul(Refl(v), Pm)
      q == IF v = VZero(n) THEN 1 ELSE Dot(v, v)
      R0 == TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> IF a < b THEN U[a][b] ELSE IF a = b /\ a # i THEN dg[a] ELSE 0])])
      R1 == TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> IF a = b /\ a = i THEN dg[a] ELSE 0])])
      A == Over(Mat(EM(MMul(Qm, R0), MMul(Qm, R1))), q)
      e(x1) == Cond(x1, NP2(64, Max2(0, k - 12))) IN
  IF F32 \/ k > 20 THEN <<>>
  ELSE << To(Ev("id", <<A>>), 0),
     To(e(Exp(Ev("qr_q", <<R(0)>>), Over(Mat(Qm), q))), 1),
     To(e(Exp(Ev("qr_r", <<R(0)>>), Mat(EM(R0, R1)))), 2) >>

\* ---- C08: vectors and slices, m components
RECURSIVE FirstAt(_, _, _, _)
FirstAt(a, b, x, i) == IF a[i] = x[1] /\ b[i] = x[2] THEN i ELSE FirstAt(a, b, x, i + 1)
Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Top(a, b) == CHOOSE x \in {<<a[i], b[i]>> : i \in 1..Len(a)} : \A i \in 1..Len(a) : Leq(<<a[i], b[i]>>, x)
Bot(a, b) == CHOOSE x \in {<<a[i], b[i]>> : i \in 1..Len(a)} : \A i \in 1..Len(a) : Leq(x, <<a[i], b[i]>>)
AbsE(a, b) == IF a # 0 THEN <<Abs(a), Sgn(a) * b>> ELSE <<0, Abs(b)>>
VecN(a, b, c) ==
  LET m == Len(a)
      X == EV(a, b)
      mx == Top(a, b)  mn == Bot(a, b)
      ab == [i \in 1..m |-> AbsE(a[i], b[i])]
      ma == Top([i \in 1..m |-> ab[i][1]], [i \in 1..m |-> ab[i][2]])
      l1 == [i \in 1..m |-> E(ab[i][1], ab[i][2])]
      n2 == NOp("sqrt", <<Poly(Dot(a, a), 2 * Dot(a, b), Dot(b, b))>>)
      un == [i \in 1..m |-> NDiv(X[i], n2)]
      ext == Tup(<< Pc(Scl(E(mx[1], mx[2]))), Idx(FirstAt(a, b, mx, 1) - 1), Pc(Scl(E(mn[1], mn[2]))), Idx(FirstAt(a, b, mn, 1) - 1) >>)
      dt == CwS(Scl(E(Dot(a, c), Dot(b, c))), 0, 1 + Norm1(a) * MaxAbs(c))
      nz == a # VZero(m) \/ b # VZero(m)
      tin == a = VZero(m)                                       \* everything is relative to eps
      dtt == IF tin THEN Pc(Scl(P2(Dot(b, c), -k))) ELSE dt
      pr == IF tin THEN Scl(NDiv(NP2(Dot(c, b), k), Max2(1, Dot(b, b))))
            ELSE Scl(NDiv(E(Dot(c, a), Dot(c, b)), Poly(Dot(a, a), 2 * Dot(a, b), Dot(b, b))))
      slice == << P(Exp(Ev("sl_dot", <<Arr(X), Arr(c)>>), dtt)), P(Exp(Ev("sl_norm_inf", <<Arr(X)>>), Pc(Scl(E(ma[1], ma[2]))))),
                  P(Exp(Ev("sl_norm_l", <<Arr(X)>>), Pc(Scl(SumE(l1, m))))), P(Exp(Ev("sl_max_min", <<Arr(X)>>), ext)),
                  P(Exp(Ev("sl_norm2", <<Arr(X)>>), Pc(Scl(n2)))) >>
               \o (IF ~nz THEN <<>> ELSE << P(Exp(Ev("sl_normalize", <<Arr(X)>>), Pc(Arr(un)))),
                                            P(Exp(Ev("sl_project", <<Arr(c), Arr(X)>>), CwS(pr, 0, IF tin THEN NP2(Norm1(b) * MaxAbs(c), k) ELSE Norm1(a) * MaxAbs(c)))) >>)
      vector == << To(Ev("id", <<Vec(X)>>), 0), P(Exp(Ev("mul", <<R(0), Vec(c)>>), dtt)), P(Exp(Ev("norm_inf", <<R(0)>>), Pc(Scl(E(ma[1], ma[2]))))),
                   P(Exp(Ev("norm_l", <<R(0)>>), Pc(Scl(SumE(l1, m))))), P(Exp(Ev("max_min", <<R(0)>>), ext)),
                   P(Exp(Ev("norm2", <<R(0)>>), Pc(Scl(n2)))),
                   P(Exp(Ev("normalize", <<R(0)>>), Tup(<< IF nz THEN Pc(Vec(un)) ELSE ErrV, Pc(Vec(X)) >>))) >> IN
  slice \o (IF m < 2 \/ m > 6 THEN <<>> ELSE vector)
  \o (IF m # 3 THEN <<>> ELSE
      LET c0 == Cross(a, c)  c1 == Cross(b, c)  w == Vec([i \in 1..3 |-> E(c0[i], c1[i])])
          cr == IF tin THEN Pc(w) ELSE CwS(w, 0, 1 + MaxAbs(a) * MaxAbs(c))
          p1 == Cross(b, a) IN
      << P(Exp(Ev("cross", <<R(0), Vec(c)>>), cr)),
         \* nearly parallel
         P(Exp(Ev("cross", <<R(0), Vec(a)>>), CwS(Vec([i \in 1..3 |-> P2(p1[i], -k)]), 0, 1 + MaxAbs(a) * MaxAbs(a)))) >>)

\* ---- C09: b/2 + eps v
QE(b, v) == TLCEval([i \in 1..Len(b) |-> IF b[i] = 0 THEN P2(v[i], -k) ELSE NAdd(NQ(b[i], 2), P2(v[i], -k))])
\* (b/2 + eps v) (c/2 + eps w)
QEMul(b, v, c, w) ==
  LET p0 == QMul(b, c)  p1 == VAdd(QMul(b, w), QMul(v, c))  p2 == QMul(v, w) IN
  TLCEval([i \in 1..4 |-> NOp("+", <<NQ(p0[i], 4), NP2(p1[i], -k - 1), NP2(p2[i], -2 * k)>>)])
QAbs2(b, v) == NOp("+", <<NQ(Dot(b, b), 4), NP2(Dot(b, v), -k), NP2(Dot(v, v), -2 * k)>>)
QConjE(x) == [i \in 1..4 |-> IF i = 1 THEN x[1] ELSE NMul(-1, x[i])]
QalgN(b, v, c, w) ==
  LET x == QE(b, v)  y == QE(c, w)  n2 == QAbs2(b, v)
      zb == b = QZero  zv == v = QZero
      none == Below(Dot(v, v), -2 * k, Bits)
      edge == Below(Dot(v, v), -2 * k, Bits) # Below(2 * Dot(v, v), -2 * k, Bits)
      inv == Pc(Qua([i \in 1..4 |-> NDiv(QConjE(x)[i], n2)]))
      un == Pc(Qua([i \in 1..4 |-> NDiv(x[i], NOp("sqrt", <<n2>>))]))
      dv == LET q == QEMul(c, w, QConj(b), QConj(v)) IN [i \in 1..4 |-> NDiv(q[i], n2)]
      f == IF zb THEN NP2(1, -2 * k) ELSE Eps IN
  << To(Ev("id", <<Qua(x)>>), 0), To(Ev("id", <<Qua(y)>>), 1),
     P(Exp(Ev("abs2", <<R(0)>>), Pc(Scl(n2)))), P(Exp(Ev("norm2", <<R(0)>>), Pc(Scl(NOp("sqrt", <<n2>>))))),
     P(Exp(Ev("abs_imag", <<R(0)>>), Pc(Scl(NOp("sqrt", <<SumE([i \in 1..3 |-> Sq(x[i + 1])], 3)>>))))),
     P(Exp(Ev("add", <<R(0), R(1)>>), Pc(Qua(QE(VAdd(b, c), VAdd(v, w)))))), P(Exp(Ev("sub", <<R(0), R(1)>>), Pc(Qua(QE(VSub(b, c), VSub(v, w)))))),
     P(Exp(Ev("conj", <<R(0)>>), Pc(Qua(QConjE(x))))), P(Exp(Ev("neg", <<R(0)>>), Pc(Qua([i \in 1..4 |-> NMul(-1, x[i])])))),
     P(Exp(Ev("mul", <<R(0), R(1)>>), Cw(Qua(QEMul(b, v, c, w)), IF zb \/ c = QZero THEN 0 ELSE Eps))),
     P(Exp(Ev("mul", <<R(1), R(0)>>), Cw(Qua(QEMul(c, w, b, v)), IF zb \/ c = QZero THEN 0 ELSE Eps))),
     P(Exp(Ev("dot", <<R(0), R(1)>>), CwS(Scl(SumE([i \in 1..4 |-> NMul(x[i], y[i])], 4)), 0, IF zb /\ c = QZero THEN NP2(30, -2 * k) ELSE IF zb \/ c = QZero THEN NP2(30, -k) ELSE 2))),
     Exp(Ev("is_zero", <<R(0)>>), Boo(zb /\ zv)) >>
  \o (IF zb /\ (zv \/ none) THEN IF edge THEN <<>> ELSE << Exp(Ev("inverse", <<R(0)>>), NoneV) >>
      ELSE IF zb /\ edge THEN <<>>
      ELSE << To(P(Exp(Ev("inverse", <<R(0)>>), inv)), 2),
              P(Exp(Ev("mul", <<R(0), R(2)>>), CwS(Qua(QOne), 0, 1))), P(Exp(Ev("mul", <<R(2), R(0)>>), CwS(Qua(QOne), 0, 1))),
              P(Exp(Ev("div", <<R(1), R(0)>>), CwS(Qua(dv), 0, IF zb THEN IF c = QZero THEN 10 ELSE NP2(10, k) ELSE 2))) >>)
  \* unit quaternions
  \o (IF zb /\ (zv \/ k > Bits - 2) THEN <<>> ELSE << P(Exp(Ev("normalize", <<R(0)>>), un)), P(Exp(Ev("normalize_q", <<R(0)>>), un)) >>)

\* ---- C18: x + e y with x, y of the form b/2 + eps v
DE(b, v) == QE(b, v)
DEMul(b, v, c, w) ==
  LET r == QEMul(DR(b), DR(v), DR(c), DR(w))
      d1 == QEMul(DR(b), DR(v), DD(c), DD(w))  d2 == QEMul(DD(b), DD(v), DR(c), DR(w)) IN
  r \o [i \in 1..4 |-> NAdd(d1[i], d2[i])]
DalgN(b, v, c, w) ==
  LET x == DE(b, v)  y == DE(c, w)
      none == DR(b) = QZero
      M(p, q, r, s) == CwS(Dua(DEMul(p, q, r, s)), Eps, 4) IN
  << To(Ev("id", <<Dua(x)>>), 0), To(Ev("id", <<Dua(y)>>), 1),
     P(Exp(Ev("add", <<R(0), R(1)>>), Pc(Dua(DE(VAdd(b, c), VAdd(v, w)))))), P(Exp(Ev("sub", <<R(0), R(1)>>), Pc(Dua(DE(VSub(b, c), VSub(v, w)))))),
     P(Exp(Ev("conj", <<R(0)>>), Pc(Dua(DE(DConj(b), DConj(v)))))),
     P(Exp(Ev("conj_dual", <<R(0)>>), Pc(Dua(DE(DDualConj(b), DDualConj(v)))))),
     P(Exp(Ev("conj_comb", <<R(0)>>), Pc(Dua(DE(DCombConj(b), DCombConj(v)))))),
     P(Exp(Ev("mul", <<R(0), R(1)>>), M(b, v, c, w))), P(Exp(Ev("mul", <<R(1), R(0)>>), M(c, w, b, v))),
     P(Exp(Ev("dnorm", <<R(0)>>), M(b, v, DConj(b), DConj(v)))),
     Exp(Ev("is_zero", <<R(0)>>), Boo(b = [i \in 1..8 |-> 0] /\ v = [i \in 1..8 |-> 0])) >>
  \o (IF none THEN <<>> ELSE
      << To(Ev("inverse", <<R(0)>>), 2),
         P(Exp(Ev("mul", <<R(0), R(2)>>), CwS(Dua(DOne), 0, 8))), P(Exp(Ev("mul", <<R(2), R(0)>>), CwS(Dua(DOne), 0, 8))),
         P(Exp(Ev("inverse", <<R(2)>>), CwS(Dua(x), Eps, 16))),
         To(Ev("div", <<R(1), R(0)>>), 3), P(Exp(Ev("mul", <<R(3), R(0)>>), CwS(Dua(y), Eps, 16))), P(Exp(Ev("mul", <<R(1), R(2)>>), SkipV)) >>)

\* ---- C21: trace and determinant are polynomials in eps
EigN(B, N) ==
  LET t0 == Trace(B)  t1 == Trace(N)
      d0 == Det(B)  d2 == Det(N)  d1 == B[1][1] * N[2][2] + N[1][1] * B[2][2] - B[1][2] * N[2][1] - N[1][2] * B[2][1]
      D0 == t0 * t0 - 4 * d0  D1 == 2 * t0 * t1 - 4 * d1  D2 == t1 * t1 - 4 * d2
      big == Abs(D1) + Abs(D2)
      unsure == D0 # 0 /\ k < 20 /\ 2 * big >= 2^k             \* eps is not small here
      sg == IF D0 # 0 THEN Sgn(D0) ELSE IF D1 # 0 /\ k < 20 /\ Abs(D2) >= 2^k THEN 2 ELSE IF D1 # 0 THEN Sgn(D1) ELSE Sgn(D2)
      rt == NOp("sqrt", <<Poly(D0, D1, D2)>>)
      hf(s) == NDiv(NAdd(E(t0, t1), NMul(s, rt)), 2)
      zero == B = MZero(2)
      sc == 1 + MMaxAbs(B) * MMaxAbs(B)
      w == Vec(<<hf(1), hf(-1)>>)
      x == IF sg < 0 THEN NoneV ELSE CwS(w, 0, IF zero THEN NMul(10, Eps) ELSE sc) IN
  IF k > (IF F32 THEN 6 ELSE 20) \/ unsure \/ sg = 2 THEN <<>>
  ELSE << P(Exp(Ev("real_eigenvals", <<Mat(EM(B, N))>>), x)) >>
EigBase(h, a, b) == IF h = 0 THEN <<<<a, 0>>, <<0, a>>>> ELSE IF h = 1 THEN <<<<a, b>>, <<0, a>>>> ELSE IF h = 2 THEN <<<<a, 0>>, <<b, a>>>>
                    ELSE IF h = 3 THEN <<<<a, a>>, <<-a, -a>>>> ELSE IF h = 4 THEN <<<<a + b, b>>, <<-b, a - b>>>>
                    ELSE IF h = 5 THEN <<<<0, 0>>, <<0, 0>>>> ELSE IF h = 6 THEN <<<<a, 0>>, <<0, b>>>> ELSE <<<<a, b>>, <<-b, a>>>>

\* twice quaternions of norm one, or zero, or neither
Half == << <<2, 0, 0, 0>>, <<-2, 0, 0, 0>>, <<0, 2, 0, 0>>, <<0, 0, -2, 0>>, <<0, 0, 0, 2>>, <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<-1, 1, 1, 1>>,
           <<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<2, 2, 0, 0>>, <<0, -2, 1, 2>> >>

\* ---- C15: values next to unit ones, made by operations on unit ones. b/2 is a unit quaternion.
\* log of 1 + something small, and the rotation part
LnE(x, n2, f) == LET v == <<x[2], x[3], x[4]>>
                     vv == NOp("sqrt", <<SumE([i \in 1..3 |-> Sq(v[i])], 3)>>)
                     a == NAt(vv, x[1]) IN
  CwS(Qua(<<NMul(NQ(1, 2), NOp("ln", <<n2>>)), NDiv(NMul(a, v[1]), vv), NDiv(NMul(a, v[2]), vv), NDiv(NMul(a, v[3]), vv)>>), 0, f)
\* observations of the value x (components) of norm squared n2 in register r
Seen(r, x, n2, far) ==
  LET nr == NOp("sqrt", <<n2>>)
      un == Pc(Qua([i \in 1..4 |-> NDiv(x[i], nr)])) IN
  << P(Exp(Ev("id", <<R(r)>>), Pc(Qua(x)))),
     To(P(Exp(Ev("normalize", <<R(r)>>), un)), 9), P(Exp(Ev("normalize_q", <<R(r)>>), un)), P(Exp(Ev("normalize", <<R(9)>>), un)),
     P(Exp(Ev("norm2", <<R(r)>>), Pc(Scl(nr)))),
     P(Exp(Ev("inverse", <<R(r)>>), Pc(Qua([i \in 1..4 |-> NDiv(QConjE(x)[i], n2)])))),
     To(P(Exp(Ev("inverse", <<R(9)>>), Pc(Qua([i \in 1..4 |-> NDiv(QConjE(x)[i], nr)])))), 10),
     P(Exp(Ev("mul", <<R(9), R(10)>>), CwS(Qua(QOne), 0, 2))) >>
  \o (IF far THEN << P(Exp(Ev("ln", <<R(r)>>), LnE(x, n2, 4))) >> ELSE <<>>)
\* is x itself clearly not of norm one ? |x|^2 - 1 = eps b.v + eps^2 v.v
Clear(p, v2) == IF p # 0 THEN k <= Bits - 6 /\ (k >= 8 \/ 2^k > 4 * v2) ELSE v2 # 0 /\ 2 * k <= Bits - 6
\* products of components given as terms
QMq(p, q) == << NOp("+", <<NMul(p[1], q[1]), NMul(-1, NMul(p[2], q[2])), NMul(-1, NMul(p[3], q[3])), NMul(-1, NMul(p[4], q[4]))>>),
                      NOp("+", <<NMul(p[1], q[2]), NMul(p[2], q[1]), NMul(p[3], q[4]), NMul(-1, NMul(p[4], q[3]))>>),
                      NOp("+", <<NMul(p[1], q[3]), NMul(-1, NMul(p[2], q[4])), NMul(p[3], q[1]), NMul(p[4], q[2])>>),
                      NOp("+", <<NMul(p[1], q[4]), NMul(p[2], q[3]), NMul(-1, NMul(p[3], q[2])), NMul(p[4], q[1])>>) >>
FlagN(b, v, s, d) ==
  LET x == QE(b, v)  n2 == QAbs2(b, v)  vv == Dot(Imag(b), Imag(b))
      m == NAdd(1, NP2(s, -k))                                            \* 1 + s eps
      mb == [i \in 1..4 |-> NMul(m, NQ(b[i], 2))]
      m2 == NMul(m, m)
      im == [i \in 1..4 |-> NDiv(NQ(b[i], 2), m)]
      far == vv # 0
      \* exp(s eps + imag(b) / 2)
      es == NOp("exp", <<NP2(s, -k)>>)  g == NRt(1, vv, 4)
      ex == IF vv = 0 THEN <<es, 0, 0, 0>> ELSE <<NMul(es, NOp("cos", <<g>>))>> \o [i \in 1..3 |-> NMul(es, NMul(NOp("sin", <<g>>), NRt(b[i + 1], 1, vv)))]
      B == Over(Qua(b), 2)
      dd == [i \in 1..4 |-> NQ(d[i], 1)]
      nn == NOp("sqrt", <<n2>>)
      rd == SumE([i \in 1..4 |-> NMul(x[i], dd[i])], 4)
      un8 == [i \in 1..8 |-> IF i <= 4 THEN NDiv(x[i], nn) ELSE NDiv(NSub(dd[i - 4], NDiv(NMul(rd, x[i - 4]), n2)), nn)]
      cx == QConjE(x)
      cdc == QMq(QMq(cx, dd), cx)
      inv8 == [i \in 1..8 |-> IF i <= 4 THEN NDiv(cx[i], n2) ELSE NMul(-1, NDiv(cdc[i - 4], NMul(n2, n2)))] IN
  << To(Ev("id", <<B>>), 0), To(P(Exp(Ev("normalize", <<R(0)>>), Pc(B))), 1), To(Ev("id", <<Qua([i \in 1..4 |-> P2(v[i], -k)])>>), 2) >>
  \* the literal, a sum, a difference
  \o << To(Ev("id", <<Qua(x)>>), 3) >> \o Seen(3, x, n2, far)
  \o << To(P(Exp(Ev("add", <<R(1), R(2)>>), Pc(Qua(x)))), 3) >> \o Seen(3, x, n2, far)
  \o << To(P(Exp(Ev("add", <<R(2), R(1)>>), Pc(Qua(x)))), 3) >> \o Seen(3, x, n2, FALSE)
  \o << To(Ev("neg", <<R(2)>>), 4), To(P(Exp(Ev("sub", <<R(1), R(4)>>), Pc(Qua(x)))), 3) >> \o Seen(3, x, n2, FALSE)
  \* scaled by a factor next to one
  \o << To(P(Exp(Ev("muls", <<R(1), Scl(m)>>), Pc(Qua(mb)))), 3) >> \o Seen(3, mb, m2, far)
  \o << To(P(Exp(Ev("mul", <<R(1), Qua(<<m, 0, 0, 0>>)>>), Pc(Qua(mb)))), 3) >> \o Seen(3, mb, m2, far)
  \o << To(P(Exp(Ev("divs", <<R(1), Scl(m)>>), Pc(Qua(im)))), 3) >> \o Seen(3, im, NDiv(1, m2), far)
  \o << To(P(Exp(Ev("conj", <<R(3)>>), Pc(Qua(QConjE(im))))), 3) >> \o Seen(3, QConjE(im), NDiv(1, m2), FALSE)
  \o << To(P(Exp(Ev("muls", <<R(1), Scl(NP2(s, -k))>>), Pc(Qua([i \in 1..4 |-> NMul(NP2(s, -k), NQ(b[i], 2))])))), 4),
        To(P(Exp(Ev("add", <<R(1), R(4)>>), Pc(Qua(mb)))), 3) >> \o Seen(3, mb, m2, FALSE)
  \* the exponential of something with a tiny real part; roots and powers of x have the root or power of its norm
  \o << To(P(Exp(Ev("exp", <<Qua(<<NP2(s, -k)>> \o [i \in 1..3 |-> IF b[i + 1] = 0 THEN 0 ELSE NQ(b[i + 1], 2)])>>), Pc(Qua(ex)))), 3) >> \o Seen(3, ex, NMul(es, es), FALSE)
  \o << To(Ev("id", <<Qua(x)>>), 3),
        To(Ev("sqrt", <<R(3)>>), 4), P(Exp(Ev("norm2", <<R(4)>>), CwS(Scl(NOp("sqrt", <<nn>>)), 0, 4))),
        To(Ev("normalize", <<R(4)>>), 9), P(Exp(Ev("norm2", <<R(9)>>), Pc(Scl(1)))), To(Ev("inverse", <<R(4)>>), 9), P(Exp(Ev("mul", <<R(4), R(9)>>), CwS(Qua(QOne), 0, 2))),
        To(Ev("pow", <<R(3), Qua(<<s, 0, 0, 0>>)>>), 4), To(Ev("normalize", <<R(4)>>), 9), P(Exp(Ev("norm2", <<R(9)>>), Pc(Scl(1)))),
        To(Ev("inverse", <<R(4)>>), 9), P(Exp(Ev("mul", <<R(4), R(9)>>), CwS(Qua(QOne), 0, 2))),
        To(Ev("muls", <<R(1), Scl(m)>>), 4), To(Ev("exp", <<R(4)>>), 5), To(Ev("normalize", <<R(5)>>), 9), P(Exp(Ev("norm2", <<R(9)>>), Pc(Scl(1)))),
        To(Ev("inverse", <<R(5)>>), 9), P(Exp(Ev("mul", <<R(5), R(9)>>), CwS(Qua(QOne), 0, 2))) >>
  \* between two units next to each other, and next to the opposite
  \o << To(Ev("normalize", <<Qua(x)>>), 10), To(Ev("slerp", <<B, R(10), Scl(NQ(1 + (Abs(d[1]) % 7), 8))>>), 11), To(Ev("normalize", <<R(11)>>), 9), P(Exp(Ev("norm2", <<R(9)>>), Pc(Scl(1)))),
        To(Ev("inverse", <<R(11)>>), 9), P(Exp(Ev("mul", <<R(9), R(11)>>), CwS(Qua(QOne), 0, 2))), To(Ev("neg", <<R(10)>>), 10),
        To(Ev("slerp", <<R(10), B, Scl(NQ(1 + (Abs(d[2]) % 7), 8))>>), 11), To(Ev("normalize", <<R(11)>>), 9), P(Exp(Ev("norm2", <<R(9)>>), Pc(Scl(1)))),
        To(Ev("inverse", <<R(11)>>), 9), P(Exp(Ev("mul", <<R(9), R(11)>>), CwS(Qua(QOne), 0, 2))) >>
  \* dual quaternions with such a real part
  \o << To(Ev("id", <<Dua(x \o d)>>), 5) >>
  \o (IF Clear(Dot(b, v), Dot(v, v)) THEN << Exp(Ev("is_normalized", <<R(5)>>), Boo(FALSE)), Exp(Ev("is_normalized", <<Dua(x \o <<0, 0, 0, 0>>)>>), Boo(FALSE)) >> ELSE <<>>)
  \o << To(P(Exp(Ev("normalize", <<R(5)>>), CwS(Dua(un8), Eps, 20))), 6), Exp(Ev("is_normalized", <<R(6)>>), Boo(TRUE)),
        P(Exp(Ev("inverse", <<R(5)>>), CwS(Dua(inv8), Eps, 60))),
        To(P(Exp(Ev("d_new", <<R(1), Qua(d)>>), SkipV)), 7), To(P(Exp(Ev("muls", <<R(6), Scl(m)>>), CwS(Dua([i \in 1..8 |-> NMul(m, un8[i])]), Eps, 40))), 8) >>
  \o (IF k <= Bits - 6 THEN << Exp(Ev("is_normalized", <<R(8)>>), Boo(FALSE)) >> ELSE <<>>)
  \o << P(Exp(Ev("normalize", <<R(8)>>), CwS(Dua(un8), Eps, 40))),
        To(P(Exp(Ev("dreal", <<R(8)>>), CwS(Qua([i \in 1..4 |-> NMul(m, un8[i])]), 0, 1))), 3),
        P(Exp(Ev("norm2", <<R(3)>>), Pc(Scl(m)))), To(Ev("normalize", <<R(3)>>), 4), P(Exp(Ev("norm2", <<R(4)>>), Pc(Scl(1)))),
        P(Exp(Ev("normalize", <<R(3)>>), CwS(Qua([i \in 1..4 |-> un8[i]]), 0, 1))) >>

\* values of small norm, no matter how small (above the scalar's epsilon): x = eps v, and dual quaternions with such a real part
\* and a dual part eps w; normalising does not see eps
FlagZ(v, w, s, m) ==
  LET x == [i \in 1..4 |-> P2(v[i], -k)]  d == [i \in 1..4 |-> P2(w[i], -k)]
      n2 == Dot(v, v)  nr == NOp("sqrt", <<n2>>)
      un == [i \in 1..4 |-> NDiv(v[i], nr)]
      Un == P(Exp(Ev("normalize", <<R(0)>>), Pc(Qua(un))))
      dn == [i \in 1..4 |-> NDiv(n2 * w[i] - v[i] * Dot(v, w), NMul(n2, nr))]
      U8 == CwS(Dua(un \o dn), 0, 20)
      C8 == CwS(Dua(QConjE(un) \o QConjE(dn)), 0, 20) IN
  IF n2 = 0 \/ k > Bits - 2 THEN <<>>
  ELSE << To(Ev("id", <<Qua(x)>>), 0), To(Un, 9), P(Exp(Ev("normalize_q", <<R(0)>>), Pc(Qua(un)))),
     P(Exp(Ev("normalize", <<R(9)>>), Pc(Qua(un)))), P(Exp(Ev("norm2", <<R(9)>>), Pc(Scl(1)))),
     P(Exp(Ev("inverse", <<R(9)>>), Pc(Qua(QConjE(un))))),
     P(Exp(Ev("d_from_rt", <<R(0), Vec(<<s, m, -s>>)>>), CwS(Dua(un \o [i \in 1..4 |-> NMul(NQ(1, 2), NDiv(QMul(<<0, s, m, -s>>, v)[i], nr))]), 0, 20))),
     To(Exp(Ev("id", <<Dua(x \o d)>>), Pc(Dua(x \o d))), 1), Exp(Ev("is_normalized", <<R(1)>>), Boo(FALSE)),
     To(P(Exp(Ev("normalize", <<R(1)>>), U8)), 2), Exp(Ev("is_normalized", <<R(2)>>), Boo(TRUE)),
     P(Exp(Ev("normalize", <<R(2)>>), U8)), To(P(Exp(Ev("inverse", <<R(2)>>), C8)), 3), P(Exp(Ev("mul", <<R(2), R(3)>>), CwS(Dua(DOne), 0, 60))),
     To(Ev("muls", <<R(2), Scl(NP2(m, -k))>>), 4), Exp(Ev("is_normalized", <<R(4)>>), Boo(FALSE)),
     P(Exp(Ev("normalize", <<R(4)>>), CwS(Dua([i \in 1..8 |-> NMul(Sgn(m), (un \o dn)[i])]), 0, 40))),
     To(Ev("dreal", <<R(4)>>), 5), P(Exp(Ev("normalize", <<R(5)>>), Pc(Qua([i \in 1..4 |-> NMul(Sgn(m), un[i])])))),
     \* nothing left of a unit
     To(Ev("muls", <<R(2), Scl(0)>>), 6), Exp(Ev("normalize", <<R(6)>>), NoneV), Exp(Ev("is_zero", <<R(6)>>), Boo(TRUE)),
     To(Ev("sub", <<R(2), R(2)>>), 6), Exp(Ev("normalize", <<R(6)>>), NoneV),
     To(Ev("muls", <<R(9), Scl(0)>>), 6), Exp(Ev("normalize", <<R(6)>>), NoneV), Exp(Ev("inverse", <<R(6)>>), NoneV), Exp(Ev("is_zero", <<R(6)>>), Boo(TRUE)),
     To(Ev("sub", <<R(9), R(9)>>), 6), Exp(Ev("normalize", <<R(6)>>), NoneV), Exp(Ev("inverse", <<R(6)>>), NoneV) >>

PyV == << <<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 3, 4>>, <<1, 2, -2>>, <<2, -3, 6>>, <<-4, 0, 3>>, <<-2, -1, 2>> >>
PyL == << 1, 1, 1, 5, 3, 7, 5, 3 >>
\* ---- C11, C17: vectors b/l + eps v as axes, rotation vectors and so(3) elements; p/8 radians
Vx(b, l, v) == TLCEval([i \in 1..3 |-> IF b[i] = 0 THEN P2(v[i], -k) ELSE NAdd(NQ(b[i], l), P2(v[i], -k))])
CrE(x, y) == << NSub(NMul(x[2], y[3]), NMul(x[3], y[2])), NSub(NMul(x[3], y[1]), NMul(x[1], y[3])), NSub(NMul(x[1], y[2]), NMul(x[2], y[1])) >>
HatE(x) == << <<0, NMul(-1, x[3]), x[2]>>, <<x[3], 0, NMul(-1, x[1])>>, <<NMul(-1, x[2]), x[1], 0>> >>
UnitE(x) == LET nr == NOp("sqrt", <<SumE([i \in 1..3 |-> Sq(x[i])], 3)>>) IN [i \in 1..3 |-> NDiv(x[i], nr)]
AxN(b, l, v, p, g) ==
  LET x == Vx(b, l, v)  u == UnitE(x)
      nr == NOp("sqrt", <<SumE([i \in 1..3 |-> Sq(x[i])], 3)>>)
      h == NQ(p, 16)  hn == NMul(NQ(1, 2), nr)
      Qa(a, f) == [i \in 1..4 |-> NMul(f, IF i = 1 THEN NOp("cos", <<a>>) ELSE NMul(NOp("sin", <<a>>), u[i - 1]))]
      small == b = VZero(3) IN
  << To(P(Exp(Ev("rotation", <<Scl(NQ(p, 8)), Vec(x)>>), Pc(Qua(Qa(h, 1))))), 0), P(Exp(Ev("norm2", <<R(0)>>), Pc(Scl(1)))),
     To(P(Exp(Ev("rotation_ne", <<Vec(x)>>), Pc(Qua(Qa(hn, 1))))), 1), P(Exp(Ev("norm2", <<R(1)>>), Pc(Scl(1)))),
     \* read back, whatever the norm
     P(Exp(Ev("axis_angle", <<R(0)>>), Tup(<<Pc(Vec(u)), Pc(Scl(NQ(p, 8)))>>))),
     To(Ev("id", <<Qua(Qa(h, NAdd(1, NP2(g, -k))))>>), 2), P(Exp(Ev("axis_angle", <<R(2)>>), Tup(<<Pc(Vec(u)), Pc(Scl(NQ(p, 8)))>>))),
     To(Ev("id", <<Qua(Qa(h, g))>>), 2), P(Exp(Ev("axis_angle", <<R(2)>>), Tup(<<Pc(Vec([i \in 1..3 |-> NMul(Sgn(g), u[i])])), Pc(Scl(IF g > 0 THEN NQ(p, 8) ELSE NSub(NPi(2, 1), NQ(p, 8))))>>))),
     P(Exp(Ev("get_axis", <<R(1)>>), Pc(Vec(u)))), P(Exp(Ev("get_angle", <<R(1)>>), Pc(Scl(nr)))) >>
\* n < pi
So3N(b, l, v, y) ==
  LET x == Vx(b, l, v)  u == UnitE(x)
      n2 == SumE([i \in 1..3 |-> Sq(x[i])], 3)  nr == NOp("sqrt", <<n2>>)
      small == b = VZero(3)
      a == NDiv(NOp("sin", <<nr>>), nr)
      sh == NOp("sin", <<NMul(NQ(1, 2), nr)>>)  c == NDiv(NMul(2, Sq(sh)), n2)
      H == HatE(x)
      Ro == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> NOp("+", << IF i = j THEN NSub(1, NMul(c, n2)) ELSE 0, NMul(c, NMul(x[i], x[j])), NMul(a, H[i][j]) >>)])])
      RV == CwS(Mat(Ro), Eps, 2)
      d == NDiv(NSub(nr, NOp("sin", <<nr>>)), NMul(nr, n2))
      xy == CrE(x, y)  xxy == CrE(x, xy)
      t == [i \in 1..3 |-> NOp("+", <<y[i], NMul(c, xy[i]), NMul(d, xxy[i])>>)]
      HM == CwS(Mat([i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 1>> ELSE <<Ro[i][1], Ro[i][2], Ro[i][3], t[i]>>]), Eps, 30)
      Tw == CwS(Mat(<< <<0, NMul(-1, x[3]), x[2], y[1]>>, <<x[3], 0, NMul(-1, x[1]), y[2]>>, <<NMul(-1, x[2]), x[1], 0, y[3]>>, <<0, 0, 0, 0>> >>), Eps, 30)
      V6(z) == [i \in 1..6 |-> IF i <= 3 THEN z[i] ELSE y[i - 3]] IN
  << To(P(Exp(Ev("mexp", <<Mat(H)>>), RV)), 0), To(P(Exp(Ev("mlog", <<R(0)>>), CwS(Mat(H), Eps, 2))), 1), P(Exp(Ev("mexp", <<R(1)>>), RV)),
     P(Exp(Ev("exp_axis_angle", <<Vec(x)>>), Tup(<<Pc(Vec(u)), Pc(Scl(nr))>>))),
     P(Exp(Ev("axis_angle6", <<Vec(V6(x))>>), Tup(<<Pc(Vec([i \in 1..6 |-> NDiv(V6(x)[i], nr)])), Pc(Scl(nr))>>))) >>
  \o (IF small THEN <<>> ELSE
      << To(P(Exp(Ev("mexp6", <<Tw>>), HM)), 2), To(P(Exp(Ev("mlog6", <<R(2)>>), Tw)), 3), P(Exp(Ev("mexp6", <<R(3)>>), HM)) >>)
\* ---- C19: a rotation given by a quaternion that is not exactly a unit
RtN(b, v, t, s) ==
  LET x == QE(b, v)  nn == NOp("sqrt", <<QAbs2(b, v)>>)
      u == TLCEval([i \in 1..4 |-> NDiv(x[i], nn)])
      d == QMq(<<0, t[1], t[2], t[3]>>, u)
      D == CwS(Dua([i \in 1..8 |-> IF i <= 4 THEN u[i] ELSE NMul(NQ(1, 2), d[i - 4])]), Eps, 20)
      U == CwS(Qua(u), Eps, 1) IN
  << To(P(Exp(Ev("d_from_rt", <<Qua(x), Vec(t)>>), D)), 0), P(Exp(Ev("normalize", <<R(0)>>), D)),
     P(Exp(Ev("d_translation", <<R(0)>>), CwS(Vec(t), 0, 20))), P(Exp(Ev("d_to_qt", <<R(0)>>), Tup(<<U, CwS(Vec(t), 0, 20)>>))),
     To(Ev("id", <<Dua(x \o [i \in 1..4 |-> NMul(NQ(1, 2), QMq(<<0, t[1], t[2], t[3]>>, x)[i])])>>), 1),
     P(Exp(Ev("normalize", <<R(1)>>), D)) >>

\* ---- C14: components of very different size; x_i = a_i 2^(e_i), a_i # 0
FnN(a, ex, c) ==
  LET x == MixV(a, ex)
      v == <<x[2], x[3], x[4]>>
      vv == SumE([i \in 1..3 |-> Sq(v[i])], 3)
      n2 == NAdd(Sq(x[1]), vv)  nv == NOp("sqrt", <<vv>>)  nr == NOp("sqrt", <<n2>>)
      arg == NAt(nv, x[1])
      Al(p, q) == Qua(<<p, NDiv(NMul(q, v[1]), nv), NDiv(NMul(q, v[2]), nv), NDiv(NMul(q, v[3]), nv)>>)
      lnr == NMul(NQ(1, 2), NOp("ln", <<n2>>))
      \* principal root: |x|^(1/2) at half the angle
      half(f) == NMul(NOp("sqrt", <<nr>>), NOp(f, <<NMul(NQ(1, 2), arg)>>))
      sq == Al(NSub(Sq(x[1]), vv), NMul(2, NMul(x[1], nv)))
      big == NMul(64, NAdd(1, k)) IN
  << To(Ev("id", <<Qua(x)>>), 0),
     P(Exp(Ev("normalize_q", <<R(0)>>), Pc(Qua([i \in 1..4 |-> NDiv(x[i], nr)])))),
     P(Exp(Ev("argq", <<R(0)>>), Pc(Qua(<<0, NDiv(v[1], nv), NDiv(v[2], nv), NDiv(v[3], nv)>>)))),
     P(Exp(Ev("abs_imag", <<R(0)>>), Pc(Scl(nv)))),
     To(P(Exp(Ev("ln", <<R(0)>>), CwS(Al(lnr, arg), 0, 4))), 1),
     P(Exp(Ev("exp", <<R(1)>>), CwS(Qua(x), 0, NMul(big, nr)))),
     To(P(Exp(Ev("sqrt", <<R(0)>>), CwS(Al(half("cos"), half("sin")), 0, NMul(big, NOp("sqrt", <<nr>>))))), 2),
     P(Exp(Ev("mul", <<R(2), R(2)>>), CwS(Qua(x), 0, NMul(big, nr)))),
     P(Exp(Ev("pow", <<R(0), Qua(<<NQ(1, 2), 0, 0, 0>>)>>), CwS(Al(half("cos"), half("sin")), 0, NMul(big, NOp("sqrt", <<nr>>))))),
     P(Exp(Ev("pow", <<R(0), Qua(<<2, 0, 0, 0>>)>>), CwS(sq, 0, NMul(big, n2)))),
     P(Exp(Ev("pow", <<R(0), Qua(QOne)>>), CwS(Qua(x), 0, NMul(big, nr)))),
     P(Exp(Ev("pow", <<R(0), Qua(QZero)>>), CwS(Qua(QOne), 0, 1))),
     P(Exp(Ev("pow", <<R(0), Qua(<<-1, 0, 0, 0>>)>>), CwS(Qua([i \in 1..4 |-> NDiv(QConjE(x)[i], n2)]), 0, NMul(big, NDiv(1, nr))))) >>
\* exponential and trigonometric functions: a real part of ordinary size, tiny imaginary parts
TrigN(a, ex, c) ==
  LET w == NQ(a[1], 4)
      x == <<w, NP2(a[2], -Abs(ex[2])), NP2(a[3], -Abs(ex[3])), NP2(a[4], -Abs(ex[4]))>>
      v == <<x[2], x[3], x[4]>>
      nv == NOp("sqrt", <<SumE([i \in 1..3 |-> Sq(v[i])], 3)>>)
      Al(p, q) == Qua(<<p, NDiv(NMul(q, v[1]), nv), NDiv(NMul(q, v[2]), nv), NDiv(NMul(q, v[3]), nv)>>)
      f(g, y) == NOp(g, <<y>>) IN
  << To(Ev("id", <<Qua(x)>>), 0),
     To(P(Exp(Ev("exp", <<R(0)>>), CwS(Al(NMul(f("exp", w), f("cos", nv)), NMul(f("exp", w), f("sin", nv))), 0, f("exp", w)))), 1),
     Exp(Ev("sin", <<R(0)>>), CwS(Al(NMul(f("sin", w), f("cosh", nv)), NMul(f("cos", w), f("sinh", nv))), Eps, NMul(20, f("cosh", nv)))),
     Exp(Ev("cos", <<R(0)>>), CwS(Al(NMul(f("cos", w), f("cosh", nv)), NMul(-1, NMul(f("sin", w), f("sinh", nv)))), Eps, NMul(20, f("cosh", nv)))) >>
  \o (IF SumTo([i \in 1..3 |-> (a[i + 1] * a[i + 1]) \div PowI(4, Min2(4, Abs(ex[i + 1])))], 3) > 5 THEN <<>> ELSE << P(Exp(Ev("ln", <<R(1)>>), CwS(Qua(x), 0, 4))) >>)

ShE == IF F32 THEN Min2(k, 5) ELSE k
ShF == IF F32 THEN Min2(k, 5) ELSE Min2(k, 20)
Act ==
  IF KIND = "elem" THEN \E M \in {RandM(n, -9, 9)} : \E N \in {RandM(n, -9, 9)} : \E X \in {RandM(n, -k, k)} : \E Y \in {RandM(n, -k, k)} :
                        \E s \in Pick({-3, -1, 1, 2, 5}) : out' = <<EvNew(0, <<ty>>)>> \o Elem(M, N, X, Y, s)
  ELSE IF KIND = "prod" THEN \E M \in {RandM(n, -9, 9)} : \E N \in {RandM(n, -9, 9)} : \E v \in {RandV(n, -9, 9)} : \E a \in {RandV(n, -k, k)} : \E b \in {RandV(n, -k, k)} : \E c \in {RandV(n, -k, k)} :
                        out' = <<EvNew(0, <<ty>>)>> \o Prod(M, N, v, a, b, c)
  ELSE IF KIND \in {"det", "inv", "lu"} THEN
     \E h \in Pick(0..6) : \E X \in {IF n <= 3 THEN RandM(n, -2, 2) ELSE RandM(n, -1, 1)} : \E x \in {RandV(4, 1, 36)} : \E z \in {RandV(n, 0, 1)} :
     \E i \in Pick(1..n) : \E LuEx \in {RandM(n, -k, k)} : \E r \in {RandV(n, -3, 3)} : \E m \in Pick({0, 0, 1, 2}) : \E a \in {RandV(n, -ShE, ShE)} : \E b \in {RandV(n, -ShE, ShE)} :
     LET B == Based(h, X, x, z)  Xs == IF n <= 4 THEN MMul(X, Perm(x, z)) ELSE Base(3, X, x, z) IN
     out' = <<EvNew(0, <<ty>>)>> \o
       (IF KIND = "det" THEN (IF m = 2 THEN DetS(Xs, a, b) ELSE DetN(B, i, r, m))
        ELSE IF KIND = "inv" THEN (IF m = 2 THEN InvS(Xs, a, b) ELSE InvN(B, i, r, m))
        ELSE (IF m = 2 THEN LuS(Xs, a) ELSE IF m = 1 /\ r[1] > 0 THEN LuM(X, LuEx, a, Shuffle([j \in 1..n |-> j], x)) ELSE LuN(B, i, r, m)))
  ELSE IF KIND = "qr" THEN
     \E x \in {RandV(4, 1, 36)} : \E z \in {RandV(n, 0, 1)} : \E N \in {RandM(n, -3, 3)} : \E v \in {RandV(n, -1, 1)} : \E g \in {RandV(n, 1, 4)} :
     \E h \in Pick(0..2) : \E i \in Pick(1..n) :
     out' = <<EvNew(0, <<ty>>)>> \o (IF h = 0 THEN QrN(x, z, N) ELSE IF h = 1 THEN QrR(x, z, v, g, N) ELSE QrD(x, z, v, g, N, i))
  ELSE IF KIND = "vec" THEN
     \E m \in Pick(1..8) : \E h \in Pick(0..3) : \E p \in {RandV(m, -2, 2)} : \E b \in {RandV(m, -3, 3)} : \E c \in {RandV(m, -2, 2)} :
     out' = <<EvNew(0, <<ty>>)>> \o VecN(IF h = 0 THEN VZero(m) ELSE IF h = 1 THEN [i \in 1..m |-> p[1]] ELSE IF h = 2 THEN VUnit(m, 1 + (Abs(p[1]) % m)) ELSE p, b, c)
  ELSE IF KIND = "qalg" THEN
     \E i \in Pick(1..12) : \E j \in Pick(1..12) : \E v \in {RandV(4, -3, 3)} : \E w \in {RandV(4, -3, 3)} :
     out' = <<EvNew(0, <<ty>>)>> \o QalgN(Half[i], v, Half[j], w)
  ELSE IF KIND = "dalg" THEN
     \E i \in Pick(1..12) : \E j \in Pick(1..12) : \E p \in Pick(1..12) : \E q \in Pick(1..12) : \E v \in {RandV(8, -3, 3)} : \E w \in {RandV(8, -3, 3)} :
     out' = <<EvNew(0, <<ty>>)>> \o DalgN(Half[i] \o Half[j], v, Half[p] \o Half[q], w)
  ELSE IF KIND = "flag" THEN
     \E i \in Pick(1..8) : \E v \in {RandV(4, -3, 3)} : \E s \in Pick({-3, -2, -1, 1, 2, 5}) : \E d \in {RandV(4, -4, 4)} : \E h \in Pick(0..3) :
     out' = <<EvNew(0, <<ty>>)>> \o (IF h = 0 THEN FlagZ(v, d, s, IF v[1] = 0 THEN -2 ELSE 3 * v[1]) ELSE FlagN(Half[i], v, s, d))
  ELSE IF KIND \in {"aa", "so3"} THEN
     \E i \in Pick(1..8) : \E b \in {RandV(3, -2, 2)} : \E h \in Pick(0..3) : \E v \in {RandV(3, -3, 3)} : \E p \in Pick(1..48) : \E g \in Pick({-3, -1, 1, 2, 7}) : \E y \in {RandV(3, -5, 5)} :
     LET bb == IF h = 0 THEN b ELSE IF h = 1 THEN VZero(3) ELSE PyV[i]
         l == IF h = 0 THEN 2 ELSE PyL[i]
         vv == IF v = VZero(3) /\ bb = VZero(3) THEN <<1, 0, 0>> ELSE IF h = 3 THEN VScale(PyV[i], g) ELSE v IN
     out' = <<EvNew(0, <<ty>>)>> \o (IF KIND = "aa" THEN AxN(bb, l, vv, p, g) ELSE So3N(bb, l, vv, y))
  ELSE IF KIND = "rt" THEN
     \E i \in Pick(1..8) : \E h \in Pick(0..1) : \E v \in {RandV(4, -3, 3)} : \E g \in Pick({-3, -1, 1, 2, 7}) : \E t \in {RandV(3, -5, 5)} :
     out' = <<EvNew(0, <<ty>>)>> \o RtN(Half[i], IF h = 0 THEN v ELSE VScale(Half[i], g), t, g)
  ELSE IF KIND = "qfn" THEN
     \E a \in {RandV(4, 1, 7)} : \E z \in {RandV(4, 0, 1)} : \E e \in {RandV(4, -ShF, ShF)} : \E h \in Pick(0..2) :
     LET b == TLCEval([i \in 1..4 |-> IF z[i] = 0 THEN a[i] ELSE -a[i]])
         \* all of one size, or all different
         ee == TLCEval([i \in 1..4 |-> IF h = 0 THEN e[1] ELSE e[i]]) IN
     out' = <<EvNew(0, <<ty>>)>> \o (IF h <= 1 THEN FnN(b, ee, 0) ELSE TrigN(b, ee, 0))
  ELSE \E h \in Pick(0..7) : \E a \in Pick(-3..3) : \E b \in Pick(-3..3) : \E N \in {RandM(2, -3, 3)} :
     out' = <<EvNew(0, <<ty>>)>> \o EigN(EigBase(h, a, b), N)

Init == /\ step = 0 /\ out = <<>> /\ n \in NS /\ ty \in {"f64", "f32"} /\ k \in KS
        /\ (ty = "f64" \/ k <= 13)
Next == /\ step' = step + 1 /\ UNCHANGED <<n, k, ty>> /\ Act
Spec == Init /\ [][Next]_vars
\* the adjugate and the determinant are affine in a row (checked on the drawn matrices by the modules MatDet, MatInv)
Laws == step # 2 \/ \A M \in {RandM(n, -2, 2)} : \A r \in {RandV(n, -2, 2)} :
          Det(RowTo(M, 1, VAdd(M[1], r))) = Det(M) + Det(RowTo(M, 1, r))
=============================================================================
