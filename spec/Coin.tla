--------------------------------- MODULE Coin ---------------------------------
(* Pairs of operands that have something in common (equal, opposite, conjugate,   *)
(* reversed, scaled, sharing a part ...), and operands with a pattern (zeros,      *)
(* equal entries, one dominant entry, zero sum, perfect length ...): the operands  *)
(* for which an implementation may be tempted by a shortcut. Every binary          *)
(* operation of the family is asked in both orders.                               *)
EXTENDS Pose, Machine

CONSTANTS NS, KIND

VARIABLES n, u, c
vars == <<step, out, n, u, c>>

(* ---- patterns of m entries, drawn from y (entries in -9..9) and x (1..36) *)
NPat == 13
Patt(m, h, y, x) ==
  LET k == 1 + (x[1] % m)  l == 1 + (x[m] % m)  g == 1 + (x[1] % 5) IN
  TLCEval(
  CASE h = 0 -> y
    [] h = 1 -> [i \in 1..m |-> IF x[i] % 2 = 0 THEN 0 ELSE y[i]]
    [] h = 2 -> [i \in 1..m |-> IF x[i] % 4 = 0 THEN y[i] ELSE 0]
    [] h = 3 -> [i \in 1..m |-> g]                                        \* all equal
    [] h = 4 -> [i \in 1..m |-> IF x[i] % 2 = 0 THEN g ELSE -g]            \* equal magnitudes
    [] h = 5 -> [i \in 1..m |-> IF x[i] % 2 = 0 THEN i ELSE -i]
    [] h = 6 -> [i \in 1..m |-> 2^((i + x[1]) % 8) * (IF x[i] % 2 = 0 THEN 1 ELSE -1)]
    [] h = 7 -> [i \in 1..m |-> IF i = k THEN 90 * Sgn(2 * y[i] + 1) ELSE y[i] % 3]   \* one dominant
    [] h = 8 -> [i \in 1..m |-> IF i = m THEN -SumTo(y, m - 1) ELSE y[i]] \* zero sum
    [] h = 9 -> [i \in 1..m |-> IF i = k THEN 3 * Sgn(2 * y[i] + 1) ELSE IF i = l THEN 4 * Sgn(2 * y[i] + 1) ELSE 0]
    [] h = 10 -> [i \in 1..m |-> IF i = k THEN g ELSE 0]                  \* one entry
    [] h = 11 -> [i \in 1..m |-> IF i = k \/ i = l THEN g ELSE 0]         \* two equal entries
    [] h = 12 -> [i \in 1..m |-> IF x[i] % 3 = 0 THEN 0 ELSE IF x[i] % 3 = 1 THEN 1 ELSE -1]
    [] OTHER -> [i \in 1..m |-> IF i = k THEN 1 ELSE 0])                  \* a unit
(* ---- a second operand for a, with y from its own pattern *)
NDer == 19
Der(a, h, y, x) ==
  LET m == Len(a)  hf == m \div 2  k == 1 + (x[2] % m)  g == 1 + (x[1] % 3)
      j == 1 + ((k + (x[1] % (m - 1))) % m) IN
  TLCEval(
  CASE h = 0 -> y
    [] h = 1 -> a
    [] h = 2 -> VNeg(a)
    [] h = 3 -> [i \in 1..m |-> IF i = 1 THEN a[1] ELSE -a[i]]            \* conjugate
    [] h = 4 -> [i \in 1..m |-> a[m + 1 - i]]
    [] h = 5 -> [i \in 1..m |-> a[1 + (i % m)]]
    [] h = 6 -> VScale(a, IF x[2] % 2 = 0 THEN g + 1 ELSE -g)
    [] h = 7 -> [i \in 1..m |-> IF i = k THEN y[i] ELSE a[i]]             \* one entry differs
    [] h = 8 -> [i \in 1..m |-> IF i = k THEN a[i] + 1 ELSE a[i]]
    [] h = 9 -> [i \in 1..m |-> IF i <= hf THEN a[i] ELSE y[i]]           \* first part in common
    [] h = 10 -> [i \in 1..m |-> IF i > hf THEN a[i] ELSE y[i]]           \* second part
    [] h = 11 -> [i \in 1..m |-> IF i = 1 THEN a[1] ELSE y[i]]
    [] h = 12 -> [i \in 1..m |-> IF i = 1 THEN y[1] ELSE a[i]]
    [] h = 13 -> [i \in 1..m |-> Abs(a[i])]
    [] h = 14 -> [i \in 1..m |-> IF x[i] % 2 = 0 THEN a[i] ELSE -a[i]]
    [] h = 15 -> [i \in 1..m |-> IF i % 2 = 1 THEN (IF i = m THEN 0 ELSE -a[i + 1]) ELSE a[i - 1]]   \* orthogonal
    [] h = 16 -> [a EXCEPT ![k] = a[j], ![j] = a[k]]                      \* two entries swapped
    [] h = 17 -> [i \in 1..m |-> a[i] + g]
    [] h = 18 -> [i \in 1..m |-> IF i <= hf THEN -a[i] ELSE y[i]]
    [] OTHER -> [i \in 1..m |-> IF i <= hf THEN (IF i = 1 THEN a[1] ELSE -a[i]) ELSE y[i]])

D(x, d) == Deg(x, d)
\* the results of two operands in registers 0 and 1; W wraps a value
Common(W(_), a, b) ==
  LET p == D(W(a), 1)  q == D(W(b), 1)  z == [i \in 1..Len(a) |-> 0] IN
  << To(Exp(Ev("id", <<p>>), p), 0), To(Exp(Ev("id", <<q>>), q), 1),
     Exp(Ev("add", <<R(0), R(1)>>), D(W(VAdd(a, b)), 1)), Exp(Ev("add", <<R(1), R(0)>>), D(W(VAdd(a, b)), 1)),
     Exp(Ev("sub", <<R(0), R(1)>>), D(W(VSub(a, b)), 1)), Exp(Ev("sub", <<R(1), R(0)>>), D(W(VSub(b, a)), 1)),
     Exp(Ev("add", <<R(0), R(0)>>), D(W(VScale(a, 2)), 1)), Exp(Ev("sub", <<R(1), R(1)>>), D(W(z), 1)),
     Exp(Ev("neg", <<R(1)>>), D(W(VNeg(b)), 1)), Exp(Ev("muls", <<R(1), Scl(3)>>), D(W(VScale(b, 3)), 1)),
     Exp(Ev("muls", <<R(1), Scl(0)>>), D(W(z), 1)), Exp(Ev("muls", <<R(1), Scl(1)>>), q), Exp(Ev("muls", <<R(1), Scl(-1)>>), D(W(VNeg(b)), 1)),
     Exp(Ev("is_zero", <<R(1)>>), Boo(b = z)),
     \* nothing has moved
     Exp(Ev("id", <<R(0)>>), p), Exp(Ev("id", <<R(1)>>), q) >>
Assign(W(_), a, b) ==
  << Exp(Ev("addassign", <<R(0), R(1)>>), D(W(VAdd(a, b)), 1)), Exp(Ev("subassign", <<R(0), R(1)>>), D(W(VSub(a, b)), 1)),
     Exp(Ev("addassign", <<R(1), R(1)>>), D(W(VScale(b, 2)), 1)), Exp(Ev("subassign", <<R(0), R(0)>>), D(W([i \in 1..Len(a) |-> 0]), 1)),
     Exp(Ev("eq", <<R(0), R(1)>>), Boo(a = b)), Exp(Ev("eq", <<R(1), R(0)>>), Boo(a = b)), Exp(Ev("eq", <<R(1), R(1)>>), Boo(TRUE)) >>

Unflat(a) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> a[(i - 1) * n + j]])])
\* matrices also transposed, sharing a row, a column or the diagonal
DerM(a, h, y, x) ==
  LET A == Unflat(a)  Y == Unflat(y)  k == 1 + (x[1] % n) IN
  CASE h = 20 -> Flat(Transpose(A))
    [] h = 21 -> Flat(MNeg(Transpose(A)))
    [] h = 22 -> Flat(TLCEval([i \in 1..n |-> IF i = k THEN A[i] ELSE Y[i]]))
    [] h = 23 -> Flat(TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF j = k THEN A[i][j] ELSE Y[i][j]])]))
    [] h = 24 -> Flat(TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN A[i][j] ELSE Y[i][j]])]))
    [] h = 25 -> Flat(TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i <= j THEN A[i][j] ELSE Y[i][j]])]))
    [] h = 26 -> Flat(TLCEval([i \in 1..n |-> A[n + 1 - i]]))
    [] OTHER -> Der(a, h, y, x)
Matrices(a, b, k) ==
  LET A == Unflat(a)  B == Unflat(b)  W(x) == Mat(Unflat(x))  v == A[k]  w == Col(B, k)
      V(x, d) == D(Vec(x), d) IN
  Common(W, a, b) \o Assign(W, a, b) \o
  << Exp(Ev("mul", <<R(0), R(1)>>), D(Mat(MMul(A, B)), 2)), Exp(Ev("mul", <<R(1), R(0)>>), D(Mat(MMul(B, A)), 2)),
     Exp(Ev("mul", <<R(1), R(1)>>), D(Mat(MMul(B, B)), 2)),
     \* vectors taken from the matrices
     Exp(Ev("mul", <<R(0), V(v, 1)>>), V(MVec(A, v), 2)), Exp(Ev("mul", <<R(0), V(w, 1)>>), V(MVec(A, w), 2)),
     Exp(Ev("mul", <<R(1), V(Diag(A), 1)>>), V(MVec(B, Diag(A)), 2)),
     Exp(Ev("mul", <<V(v, 1), R(1)>>), V(VMat(v, B), 2)), Exp(Ev("mul", <<V(w, 1), R(1)>>), V(VMat(w, B), 2)),
     Exp(Ev("mul", <<V(v, 1), V(w, 1)>>), D(Scl(Dot(v, w)), 2)),
     Exp(Ev("mul", <<R(0), V(VZero(n), 0)>>), V(VZero(n), 1)), Exp(Ev("mul", <<R(0), V(VUnit(n, k), 0)>>), V(Col(A, k), 1)),
     Exp(Ev("mul", <<V(VUnit(n, k), 0), R(0)>>), V(A[k], 1)),
     Exp(Ev("add", <<V(v, 1), V(w, 1)>>), V(VAdd(v, w), 1)), Exp(Ev("sub", <<V(v, 1), V(w, 1)>>), V(VSub(v, w), 1)),
     Exp(Ev("eq", <<V(v, 1), V(w, 1)>>), Boo(v = w)) >>
Vectors(a, b) ==
  Common(Vec, a, b) \o Assign(Vec, a, b) \o
  << Exp(Ev("mul", <<R(0), R(1)>>), D(Scl(Dot(a, b)), 2)), Exp(Ev("mul", <<R(1), R(0)>>), D(Scl(Dot(a, b)), 2)), Exp(Ev("mul", <<R(1), R(1)>>), D(Scl(Dot(b, b)), 2)),
     Exp(Ev("norm_inf", <<R(1)>>), D(Scl(MaxAbs(b)), 1)), Exp(Ev("norm_l", <<R(1)>>), D(Scl(Norm1(b)), 1)), Exp(Ev("sl_dot", <<D(Arr(a), 1), D(Arr(b), 1)>>), D(Scl(Dot(a, b)), 2)),
     For(Exp(Ev("norm2", <<R(1)>>), D(Scl(NRt(1, Dot(b, b), 1)), 1)), Floats),
     For(Exp(Ev("normalize", <<R(1)>>), IF Dot(b, b) = 0 THEN Tup(<<ErrV, D(Vec(b), 1)>>) ELSE Tup(<<Dir(Vec(b)), D(Vec(b), 1)>>)), Floats) >>
  \o (IF Dot(b, b) = 0 THEN <<>> ELSE << For(Exp(Ev("sl_project", <<D(Arr(a), 1), D(Arr(b), 1)>>), Scl(NQ(Dot(a, b), Dot(b, b)))), Floats) >>)
  \o (IF Len(a) # 3 THEN <<>> ELSE << Exp(Ev("cross", <<R(0), R(1)>>), D(Vec(Cross(a, b)), 2)), Exp(Ev("cross", <<R(1), R(0)>>), D(Vec(Cross(b, a)), 2)), Exp(Ev("cross", <<R(1), R(1)>>), D(Vec(VZero(3)), 2)) >>)
Quats(a, b) ==
  Common(Qua, a, b) \o
  << Exp(Ev("mul", <<R(0), R(1)>>), D(Qua(QMul(a, b)), 2)), Exp(Ev("mul", <<R(1), R(0)>>), D(Qua(QMul(b, a)), 2)), Exp(Ev("mul", <<R(1), R(1)>>), D(Qua(QMul(b, b)), 2)),
     Exp(Ev("eq", <<R(0), R(1)>>), Boo(a = b)), Exp(Ev("eq", <<R(1), R(1)>>), Boo(TRUE)),
     Exp(Ev("dot", <<R(0), R(1)>>), D(Scl(Dot(a, b)), 2)), Exp(Ev("conj", <<R(1)>>), D(Qua(QConj(b)), 1)), Exp(Ev("abs2", <<R(1)>>), D(Scl(QN(b)), 2)),
     For(Exp(Ev("norm2", <<R(1)>>), D(Scl(NRt(1, QN(b), 1)), 1)), Floats), For(Exp(Ev("abs_imag", <<R(1)>>), D(Scl(NRt(1, QN(b) - (b[1] * b[1]), 1)), 1)), Floats),
     For(Exp(Ev("derivative", <<R(0), D(Vec(Imag(b)), 1)>>), D(Over(Qua(QMul(Pure(Imag(b)), a)), 2), 2)), Floats),
     For(Exp(Ev("derivative", <<R(0), D(Vec(Imag(a)), 1)>>), D(Over(Qua(QMul(Pure(Imag(a)), a)), 2), 2)), Floats) >>
  \o (IF b = QZero \/ Abs(u) > 4 THEN <<>> ELSE
      << For(Exp(Ev("div", <<R(0), R(1)>>), Over(Qua(QMul(a, QConj(b))), QN(b))), Floats), For(Exp(Ev("div", <<R(1), R(1)>>), Qua(QOne)), Floats) >>)
Duals(a, b) ==
  LET nb == QN(DR(b))  cb == QConj(DR(b))
      iv == VScale(cb, nb) \o VNeg(QMul(QMul(cb, DD(b)), cb)) IN           \* inverse, over nb^2
  Common(Dua, a, b) \o
  << Exp(Ev("mul", <<R(0), R(1)>>), D(Dua(DMul(a, b)), 2)), Exp(Ev("mul", <<R(1), R(0)>>), D(Dua(DMul(b, a)), 2)), Exp(Ev("mul", <<R(1), R(1)>>), D(Dua(DMul(b, b)), 2)),
     Exp(Ev("eq", <<R(0), R(1)>>), Boo(a = b)), Exp(Ev("eq", <<R(1), R(1)>>), Boo(TRUE)),
     Exp(Ev("conj", <<R(1)>>), D(Dua(DConj(b)), 1)), Exp(Ev("conj_dual", <<R(1)>>), D(Dua(DDualConj(b)), 1)), Exp(Ev("conj_comb", <<R(1)>>), D(Dua(DCombConj(b)), 1)),
     Exp(Ev("dnorm", <<R(1)>>), D(Dua(DMul(b, DConj(b))), 2)), Exp(Ev("dreal", <<R(1)>>), D(Qua(DR(b)), 1)), Exp(Ev("ddual", <<R(1)>>), D(Qua(DD(b)), 1)),
     Exp(Ev("d_new", <<D(Qua(DR(a)), 1), D(Qua(DD(b)), 1)>>), D(Dua(DR(a) \o DD(b)), 1)),
     Exp(Ev("d_new", <<D(Qua(DR(b)), 1), D(Qua(DR(b)), 1)>>), D(Dua(DR(b) \o DR(b)), 1)) >>
  \o (IF nb = 0 \/ Abs(u) > 4 \/ nb > 2000 THEN <<>> ELSE
      LET q == DMul(a, iv) IN
      << For(Exp(Ev("div", <<R(0), R(1)>>), [t |-> "d", v |-> [i \in 1..8 |-> NDiv(q[i], nb * nb)]]), Floats),
         For(Exp(Ev("inverse", <<R(1)>>), [t |-> "d", v |-> [i \in 1..8 |-> NDiv(iv[i], nb * nb)], deg |-> -1]), Floats) >>)

(* ---- rotations a, b (integer quaternions), and vectors that have to do with their axes *)
Rots(a, b, y, h, k) ==
  LET w == Imag(a)
      v == CASE h = 0 -> y [] h = 1 -> w [] h = 2 -> VNeg(w) [] h = 3 -> VZero(3) [] h = 4 -> Cross(w, y) [] h = 5 -> VUnit(3, k) [] h = 6 -> VScale(w, 3)
             [] h = 7 -> VScale(VUnit(3, k), -4) [] h = 8 -> Imag(b) [] h = 9 -> VAdd(w, Cross(w, y)) [] OTHER -> <<y[1], y[1], y[1]>>
      p == QRed(QMul(a, b))  RV(q, x) == Over(Vec(RotV(q, x)), QN(q)) IN
  IF QN(a) > 20000 \/ QN(b) > 20000 \/ MaxAbs(v) > 1000 THEN <<>> ELSE IF QN(p) > 300000 THEN <<>> ELSE
  << To(Exp(Ev("id", <<UQ(a)>>), UQ(a)), 0), To(Exp(Ev("id", <<UQ(b)>>), UQ(b)), 1), To(Exp(Ev("id", <<RM(a)>>), RM(a)), 2), To(Exp(Ev("id", <<RM(b)>>), RM(b)), 3),
     Exp(Ev("mul", <<R(0), Vec(v)>>), RV(a, v)), Exp(Ev("mul", <<R(2), Vec(v)>>), RV(a, v)), Exp(Ev("mul", <<R(1), Vec(v)>>), RV(b, v)),
     To(Exp(Ev("mul", <<R(0), R(1)>>), OverRt(Qua(p), QN(p))), 4), To(Exp(Ev("mul", <<R(2), R(3)>>), Over(Mat(RotN(p)), QN(p))), 5),
     Exp(Ev("to_rotation", <<R(4)>>), Over(Mat(RotN(p)), QN(p))), Exp(Ev("from_rotation", <<R(5)>>), PM(OverRt(Qua(p), QN(p)))),
     Exp(Ev("mul", <<R(4), Vec(v)>>), RV(p, v)), Exp(Ev("mul", <<R(5), Vec(v)>>), RV(p, v)),
     Exp(Ev("rotation_inverse", <<R(2)>>), RM(QConj(a))),
     Exp(Ev("inverse", <<R(1)>>), UQ(QConj(b))), Exp(Ev("conj", <<R(1)>>), UQ(QConj(b))),
     Exp(Ev("from_rotation", <<R(3)>>), PM(UQ(b))), Exp(Ev("to_rotation", <<R(1)>>), RM(b)) >>

(* ---- motions: a and one that shares the rotation, the translation, ... *)
Pair(a, g, h) ==
  LET pr(x) == RedV(x.q, x.v, x.d) IN
  CASE h = 0 -> g [] h = 1 -> a [] h = 2 -> PInv(a) [] h = 3 -> pr([g EXCEPT !.q = a.q]) [] h = 4 -> pr([g EXCEPT !.v = a.v, !.d = a.d])
    [] h = 5 -> pr([a EXCEPT !.v = VNeg(a.v)]) [] h = 6 -> pr([a EXCEPT !.q = QConj(a.q)]) [] h = 7 -> pr([g EXCEPT !.v = Imag(g.q)])          \* along its own axis
    [] h = 8 -> pr([a EXCEPT !.v = <<0, 0, 0>>]) [] h = 9 -> pr([a EXCEPT !.q = QOne]) [] h = 10 -> pr([g EXCEPT !.v = Cross(Imag(g.q), g.v)])
    [] h = 11 -> pr([g EXCEPT !.v = VScale(Imag(a.q), 2)]) [] h = 12 -> PId [] h = 13 -> pr([a EXCEPT !.q = VNeg(a.q)])
    [] h = 14 -> pr([g EXCEPT !.v = VUnit(3, 1 + (Abs(g.v[1]) % 3)), !.d = 1]) [] OTHER -> pr([g EXCEPT !.q = QMul(a.q, a.q)])
PointOf(a, y, h) == CASE h = 0 -> y [] h = 1 -> VZero(3) [] h = 2 -> a.v [] h = 3 -> VNeg(a.v) [] h = 4 -> Imag(a.q) [] h = 5 -> VUnit(3, 1 + (Abs(y[1]) % 3)) [] OTHER -> <<y[1], y[1], y[1]>>
Sz(a) == 2 + MaxAbs(a.v) \div a.d
Hom(a, g, p) ==
  LET x == PMul(a, g)  o(w) == Vec([i \in 1..4 |-> IF i = 4 THEN 1 ELSE NQ(w.v[i], w.d)]) IN
  << To(Exp(Ev("h_from_quaternion", <<UQ(a.q), TV(a, 0)>>), HM(a, 0)), 0), To(Exp(Ev("h_from_rotation", <<RM(g.q), TV(g, 0)>>), HM(g, 0)), 1),
     To(Exp(Ev("mul", <<R(0), R(1)>>), HM(x, 0)), 2), Exp(Ev("mul", <<R(1), R(0)>>), HM(PMul(g, a), 0)),
     Exp(Ev("h_inverse", <<R(1)>>), HM(PInv(g), 0)), Exp(Ev("h_inverse", <<R(2)>>), HM(PInv(x), 0)),
     Exp(Ev("h_inverse_transform", <<R(1), Vec(p)>>), NV(PBack(g, p), 0)), Exp(Ev("h_inverse_transform", <<R(2), Vec(p)>>), NV(PBack(x, p), 0)),
     Exp(Ev("get_parts_raw", <<R(1)>>), Tup(<<RM(g.q), TV(g, 0)>>)), Exp(Ev("get_parts", <<R(1)>>), Tup(<<PM(UQ(g.q)), TV(g, 0)>>)),
     Exp(Ev("mul", <<R(1), Vec(p \o <<1>>)>>), o(PApp(g, p))), Exp(Ev("get_parts", <<R(2)>>), Tup(<<PM(UQ(x.q)), TV(x, 0)>>)) >>
TP(a, p) == LET good == NV(PApp(a, p), 0)  bad == NV([v |-> RotV(a.q, p), d |-> QN(a.q)], 0) IN
            IF a.v = <<0, 0, 0>> THEN good ELSE OneOf(<<good, Known("transform_point_ignores_translation", bad)>>)
Dq(a, g, p) ==
  LET x == PMul(a, g)  y == PMul(PInv(a), g)
      see(r, w, b) == << Exp(Ev("d_to_h", <<R(r)>>), HM(w, 0)), Exp(Ev("d_to_rt", <<R(r)>>), Tup(<<RM(w.q), TV(w, 0)>>)),
                         Exp(Ev("d_to_qt", <<R(r)>>), Tup(<<IF b THEN PM(UQ(w.q)) ELSE UQ(w.q), TV(w, 0)>>)), Exp(Ev("d_translation", <<R(r)>>), TV(w, 0)),
                         Exp(Ev("transform_point", <<R(r), Vec(p)>>), TP(w, p)) >> IN
  << To(Exp(Ev("d_from_rt", <<UQ(a.q), TV(a, 0)>>), DP(a, 0)), 0), To(Exp(Ev("d_from_rt", <<UQ(g.q), TV(g, 0)>>), DP(g, 0)), 1) >>
  \o see(1, g, FALSE) \o
  << To(Exp(Ev("mul", <<R(0), R(1)>>), PM(DP(x, 0))), 2) >> \o see(2, x, TRUE) \o
  << Exp(Ev("normalize", <<R(1)>>), DP(g, 0)), To(Exp(Ev("d_from_h", <<HM(g, 0)>>), PM(DP(g, 0))), 3) >> \o see(3, g, TRUE) \o
  << To(Exp(Ev("conj", <<R(0)>>), PM(DP(PInv(a), 0))), 4), Cond(Exp(Ev("mul", <<R(4), R(1)>>), PM(DP(y, 0))), Sz(a)),
     Cond(Exp(Ev("div", <<R(1), R(0)>>), PM(DP(PMul(g, PInv(a)), 0))), Sz(a) + Sz(g)), Exp(Ev("inverse", <<R(1)>>), PM(DP(PInv(g), 0))) >>
PSafe(a, g) == /\ MulSafe(a, g) /\ MulSafe(g, a) /\ MulSafe(a, a) /\ MulSafe(g, g) /\ LET x == PMul(a, g) IN MulSafe(x, x) /\ DSafe(x) /\ DSafe(PMul(g, a))
               /\ MulSafe(PInv(a), g) /\ MulSafe(g, PInv(a))

Init == n \in NS /\ u \in (IF KIND \in {"mat", "vec", "quat", "dual"} THEN {0, 3, -4, 40} ELSE {0}) /\ step = 0 /\ out = <<>> /\ c = 0
Types == IF u = 0 THEN AllT ELSE IF Abs(u) > 20 THEN <<"f64">> ELSE Floats
M == CASE KIND = "mat" -> n * n [] KIND = "vec" -> n [] KIND = "dual" -> 8 [] OTHER -> 4
Nz(q) == IF q = QZero THEN <<1, 1, 0, 0>> ELSE q
Next == /\ step' = step + 1 /\ UNCHANGED <<n, u>>
        /\ IF step = 0 THEN c' = 0 /\ out' = << EvNew(u, IF KIND \in {"rot", "hom", "dq"} THEN Floats ELSE Types) >> ELSE
           \E h \in Pick(0..NPat) : \E g \in Pick(0..NPat) : \E d \in Pick(0..26) : \E y \in {RandV(M, -9, 9)} : \E z \in {RandV(M, -9, 9)} : \E x \in {RandV(M, 1, 36)} : \E w \in {RandV(M, 1, 36)} :
           \E t \in {RandV(3, -9, 9)} : \E s \in {RandV(3, -9, 9)} : \E k \in Pick(1..3) : \E l \in Pick(0..15) : \E f \in Pick({1, 1, 2, 3}) :
           LET a == Patt(M, h, y, x)  b0 == Patt(M, g, z, w)
               b == IF KIND = "mat" THEN DerM(a, d, b0, w) ELSE Der(a, d % (NDer + 1), b0, w) IN
           /\ c' = d
           /\ out' = CASE KIND = "mat" -> Matrices(a, b, 1 + (x[1] % n)) [] KIND = "vec" -> Vectors(a, b) [] KIND = "quat" -> Quats(a, b) [] KIND = "dual" -> Duals(a, b)
                       [] KIND = "rot" -> Rots(QRed(Nz(a)), QRed(Nz(b)), t, l % 11, k)
                       [] OTHER -> LET p == RedV(Nz(a), IF l % 5 = 4 THEN VZero(3) ELSE t, f)  q == Pair(p, RedV(Nz(b0), s, 1), l)  e == PointOf(q, s, d % 7) IN
                                   IF ~PSafe(p, q) \/ MaxAbs(e) > 100 THEN <<>> ELSE IF KIND = "hom" THEN Hom(p, q, e) ELSE Dq(p, q, e)
Spec == Init /\ [][Next]_vars
\* conjugates, opposites and orthogonal partners are what they are called
Laws == step # 1 \/ \A y \in {RandV(4, -9, 9)} : \A x \in {RandV(4, 1, 36)} :
          /\ Der(y, 3, y, x) = QConj(y) /\ VAdd(Der(y, 2, y, x), y) = VZero(4) /\ Dot(Der(y, 15, y, x), y) = 0
          /\ SumTo(Patt(4, 8, y, x), 4) = 0
=============================================================================
