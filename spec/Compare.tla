------------------------------- MODULE Compare -------------------------------
(* Approximate comparison of numbers k 2^e, slices and dual quaternions, and    *)
(* the predicates on matrices N / d: rotation, rigid motion, distance to the    *)
(* rotations. A question whose exact answer lies too close to the limit to be   *)
(* decided by rounded arithmetic is not asked.                                  *)
EXTENDS Angle, Machine

CONSTANTS LIM        \* exhaustive: |k| <= LIM, quaternions in -1..1

VARIABLES K, q
vars == <<step, out, K, q>>

Mul2(x, y, lim) == IF x = 0 THEN TRUE ELSE y <= lim \div x
(* ---- |x - y| against (p/r) (|x| + |y|): 1 true, 0 false, 2 too close to tell *)
Cmp(d, s, p, r) == IF d = 0 THEN 1
                   ELSE IF ~Mul2(d, r, 2000000000) THEN (IF Mul2(s, p, 20000000) THEN 0 ELSE 2)
                   ELSE IF ~Mul2(s, p, 2000000000) THEN 2
                   ELSE LET x == d * r  y == s * p  m == Max2(1, y \div 50) IN
                        IF x + m < y THEN 1 ELSE IF x > y + m THEN 0 ELSE 2
\* numbers scaled by one power of two, far from under- and overflow
Near(x, y, p, r) == IF x = 0 \/ y = 0 THEN (IF x = y THEN 1 ELSE 2) ELSE Cmp(Abs(x - y), Abs(x) + Abs(y), p, r)
\* the same, not scaled: absolute next to zero
Near1(x, y, p, r) == IF x = 0 \/ y = 0 THEN Cmp(Abs(x - y), 1, p, r) ELSE Near(x, y, p, r)
B(c) == Boo(c = 1)
S2(k, e) == Scl(NP2(k, e))
NMulS(k, e) == Scl(NDiv(NP2(k, e), 2))
Both(x, y, eps, c) == IF c = 2 THEN <<>> ELSE << Exp(Ev("nearly_equal", <<x, y, eps>>), B(c)), Exp(Ev("nearly_equal", <<y, x, eps>>), B(c)) >>

Pairs(x, y, e, p, r) ==
  LET eps == Scl(NQ(p, r))  ee == e
      ty(s) == [i \in 1..Len(s) |-> IF Abs(e) > 90 THEN For(s[i], <<"f64">>) ELSE s[i]] IN
  ty(Both(S2(x, ee), S2(y, ee), eps, Near(x, y, p, r)) \o
     Both(S2(-x, ee), S2(-y, ee), eps, Near(x, y, p, r)) \o
     Both(S2(x, ee), S2(-y, ee), eps, Near(x, -y, p, r)) \o
     Both(S2(x, ee), S2(x, ee), eps, 1) \o
     << Exp(Ev("compare_floats", <<S2(x, ee), S2(y, ee), S2(Abs(x - y) + 1, ee)>>), Boo(TRUE)) >> \o
     (IF x = y THEN <<>> ELSE << Exp(Ev("compare_floats", <<S2(x, ee), S2(y, ee), NMulS(Abs(x - y), ee)>>), Boo(FALSE)),
                                 Exp(Ev("compare_floats", <<S2(y, ee), S2(x, ee), NMulS(Abs(x - y), ee)>>), Boo(FALSE)) >>))
  
\* zero and subnormal neighbours
Zeros(x, e, t) ==
  LET eps == S2(1, -t)  a == Abs(x) IN
  (IF x = 0 \/ AtEdge(a, e, t) THEN <<>> ELSE Both(S2(x, e), Scl(0), eps, IF Below(a, e, t) THEN 1 ELSE 0)) \o
  (IF x = 0 \/ AtEdge(a, e, 52) \/ AtEdge(a, e, 23) THEN <<>> ELSE
     << Exp(Ev("nearly_zero", <<S2(x, e)>>), [f64 |-> Boo(Below(a, e, 52)), f32 |-> Boo(Below(a, e, 23))]) >>) \o
  << Exp(Ev("nearly_zero", <<Scl(0)>>), Boo(TRUE)), Exp(Ev("nearly_equal", <<Scl(0), Scl(0), eps>>), Boo(TRUE)),
     Exp(Ev("nearly_equal", <<Scl(NMul(-1, 0)), Scl(0), eps>>), Boo(TRUE)) >>
\* numbers below the smallest normal one: always together; k in -1000..1000
Tiny(x, y, p, r) ==
  LET f32(k) == Scl(NMul(NP2(k, -100), NP2(1, -49)))  f64(k) == Scl(NMul(NP2(k, -1000), NP2(1, -70)))
      eps == Scl(NQ(p, r)) IN
  << For(Exp(Ev("nearly_equal", <<f32(x), f32(y), eps>>), Boo(TRUE)), <<"f32">>),
     For(Exp(Ev("nearly_equal", <<f32(-x), f32(y), eps>>), Boo(TRUE)), <<"f32">>),
     For(Exp(Ev("nearly_equal", <<f64(x), f64(y), eps>>), Boo(TRUE)), <<"f64">>),
     For(Exp(Ev("nearly_equal", <<f64(x), f64(-y), eps>>), Boo(TRUE)), <<"f64">>),
     For(Exp(Ev("nearly_zero", <<f64(x)>>), Boo(TRUE)), <<"f64">>), For(Exp(Ev("nearly_zero", <<f32(x)>>), Boo(TRUE)), <<"f32">>) >>
\* next to the largest number: the sum of the magnitudes overflows; x, y in 1..255
Huge(x, y, p, r) ==
  LET a == Near(x, y, p, r)  b == Cmp(Abs(x - y), Min2(x + y, 256), p, r)  c == IF a = b THEN a ELSE 2
      eps == Scl(NQ(p, r))
      at(e, ty) == LET s == Both(S2(x, e), S2(y, e), eps, c) \o Both(S2(-x, e), S2(-y, e), eps, c)
                            \o (IF p >= r THEN <<>> ELSE Both(S2(-x, e), S2(y, e), eps, 0)) IN [i \in 1..Len(s) |-> For(s[i], ty)] IN
  at(120, <<"f32">>) \o at(1016, <<"f64">>)
Infs(x, e, p, r) ==
  LET eps == Scl(NQ(p, r))  i == Scl(NInf)  j == Scl(NNegInf)  a == S2(x, e) IN
  << Exp(Ev("nearly_equal", <<i, i, eps>>), Boo(TRUE)), Exp(Ev("nearly_equal", <<j, j, eps>>), Boo(TRUE)) >> \o
  Both(i, j, eps, 0) \o Both(i, a, eps, 0) \o Both(j, a, eps, 0) \o Both(i, Scl(0), eps, 0) \o
  << Exp(Ev("nearly_zero", <<i>>), Boo(FALSE)), Exp(Ev("nearly_zero", <<j>>), Boo(FALSE)) >>
\* what is not a number equals nothing, not even itself, wherever it stands
Nans(x, ax, bx, k) ==
  LET w == Scl(NNan)  eps == Scl(NQ(1, 2))  put(v) == [v EXCEPT ![k] = NNan]
      kd == 1 + (k % 8)  one == <<1, 0, 0, 0, 0, 0, 0, 0>>  m == MId(3)  h == MId(4)  r == 1 + (k % 3)  c == 1 + ((k \div 3) % 3) IN
  Both(w, w, eps, 0) \o Both(w, Scl(x), eps, 0) \o Both(w, Scl(0), eps, 0) \o Both(w, Scl(NInf), eps, 0) \o
  << Exp(Ev("nearly_zero", <<w>>), Boo(FALSE)), Exp(Ev("compare_floats", <<w, w, eps>>), Boo(FALSE)), Exp(Ev("compare_floats", <<Scl(x), w, eps>>), Boo(FALSE)),
     Exp(Ev("compare_vecs", <<Arr(put(ax)), Arr(ax), eps>>), Boo(FALSE)), Exp(Ev("compare_vecs", <<Arr(ax), Arr(put(ax)), eps>>), Boo(FALSE)),
     Exp(Ev("compare_vecs", <<Arr(put(ax)), Arr(put(ax)), eps>>), Boo(FALSE)),
     Exp(Ev("compare_dq", <<Dua([one EXCEPT ![kd] = NNan]), Dua(one), eps>>), Boo(FALSE)), Exp(Ev("compare_dq", <<Dua(one), Dua([one EXCEPT ![kd] = NNan]), eps>>), Boo(FALSE)),
     Exp(Ev("is_rotation", <<Mat([m EXCEPT ![r][c] = NNan])>>), Boo(FALSE)),
     Exp(Ev("is_rotation_h", <<Mat([h EXCEPT ![r][c] = NNan])>>), Boo(FALSE)), Exp(Ev("is_rotation_h", <<Mat([h EXCEPT ![4][c] = NNan])>>), Boo(FALSE)) >>
\* slices: all components, wherever the odd one is
AllC(c) == IF \E i \in 1..Len(c) : c[i] = 0 THEN 0 ELSE IF \E i \in 1..Len(c) : c[i] = 2 THEN 2 ELSE 1
Vecs(x, y, p, r) ==
  LET c == AllC([i \in 1..Len(x) |-> Near1(x[i], y[i], p, r)])  eps == Scl(NQ(p, r)) IN
  (IF c = 2 THEN <<>> ELSE << Exp(Ev("compare_vecs", <<Arr(x), Arr(y), eps>>), B(c)), Exp(Ev("compare_vecs", <<Arr(y), Arr(x), eps>>), B(c)) >>
     \o (IF Len(x) # 8 THEN <<>> ELSE << Exp(Ev("compare_dq", <<Dua(x), Dua(y), eps>>), B(c)), Exp(Ev("compare_dq", <<Dua(y), Dua(x), eps>>), B(c)) >>))
  \o << Exp(Ev("compare_vecs", <<Arr(x), Arr(x), eps>>), Boo(TRUE)) >>

\* components of very different size; x[i] # 0, y[i] # 0
VecsE(x, y, ex, p, r) ==
  LET c == AllC([i \in 1..Len(x) |-> Near(x[i], y[i], p, r)])  eps == Scl(NQ(p, r))
      sc(z) == [i \in 1..Len(z) |-> NP2(z[i], ex[i])] IN
  IF c = 2 THEN <<>>
  ELSE << Exp(Ev("compare_vecs", <<Arr(sc(x)), Arr(sc(y)), eps>>), B(c)), Exp(Ev("compare_vecs", <<Arr(sc(y)), Arr(sc(x)), eps>>), B(c)) >>
       \o (IF Len(x) # 8 THEN <<>> ELSE << Exp(Ev("compare_dq", <<Dua(sc(x)), Dua(sc(y)), eps>>), B(c)), Exp(Ev("compare_dq", <<Dua(sc(y)), Dua(sc(x)), eps>>), B(c)) >>)

\* some element smaller than the tolerance, wherever it is
Elems(x, e, t) ==
  LET v == Arr([i \in 1..Len(x) |-> NP2(x[i], e)])  lim == S2(1, -t)
      any == \E i \in 1..Len(x) : Below(Abs(x[i]), e, t) IN
  IF \E i \in 1..Len(x) : AtEdge(Abs(x[i]), e, t) THEN <<>>
  ELSE << Exp(Ev("sl_check", <<v, lim>>), Boo(any)) >>

\* nothing to compare: equal, and no element is small
NoElems == << Exp(Ev("compare_vecs", <<Arr(<<>>), Arr(<<>>), Scl(NQ(1, 8))>>), Boo(TRUE)), Exp(Ev("sl_check", <<Arr(<<>>), Scl(1)>>), Boo(FALSE)),
              Exp(Ev("sl_dot", <<Arr(<<>>), Arr(<<>>)>>), Scl(0)) >>

(* ---- matrices N / d *)
Gram(N) == MMul(N, Transpose(N))
Off(N, d) == MSub(Gram(N), MScale(MId(3), d * d))
IsOrth(N, d) == Off(N, d) = MZero(3)
ClearOff(N, d) == MMaxAbs(Off(N, d)) * 200 >= d * d
Decided(N, d) == IsOrth(N, d) \/ ClearOff(N, d)
IsRot(N, d) == IsOrth(N, d) /\ Det(N) > 0
NM(N, d) == Over(Mat(N), d)
HMat(N, d, t, last) == Over(Mat(<< N[1] \o <<t[1]>>, N[2] \o <<t[2]>>, N[3] \o <<t[3]>>, last >>), d)
RotEv(N, d, t) ==
  IF ~Decided(N, d) THEN <<>> ELSE
  LET b == IsRot(N, d) IN
  << Exp(Ev("is_rotation", <<NM(N, d)>>), Boo(b)), Exp(Ev("is_rotation", <<NM(Transpose(N), d)>>), Boo(b)),
     Exp(Ev("is_rotation_h", <<HMat(N, d, t, <<0, 0, 0, d>>)>>), Boo(b)) >>
HBad(N, d, t, k) ==
  LET last == IF k <= 3 THEN [i \in 1..4 |-> IF i = k THEN d ELSE IF i = 4 THEN d ELSE 0] ELSE IF k = 4 THEN <<0, 0, 0, 2 * d>>
              ELSE IF k = 5 THEN <<0, 0, 0, 0>> ELSE IF k = 6 THEN <<0, 0, 0, -d>> ELSE <<t[1], 0, t[3], d>> IN
  IF last = <<0, 0, 0, d>> THEN <<>> ELSE << Exp(Ev("is_rotation_h", <<HMat(N, d, t, last)>>), Boo(FALSE)) >>
\* distance: entries small enough for the exact square
DistEv(N, d) ==
  LET dt == Det(N) IN
  << Exp(Ev("distance_to_manifold", <<NM(N, d)>>),
         IF dt > 0 THEN Scl(NDiv(NRt(1, Frob2(Off(N, d)), 1), d * d)) ELSE Scl(NInf)) >>
DistSafe(N, d) == /\ MMaxAbs(N) <= 40 /\ d <= 60 /\ MMaxAbs(Off(N, d)) <= 8000
                  \* the sign of the determinant must survive rounding
                  /\ (d \in {1, 2, 4, 8} \/ Abs(Det(N)) * 100 > d * d * d)
Rots(x, t, i, j, s, k) ==
  LET n == QN(x)  N == RotN(x)  E == [a \in 1..3 |-> [b \in 1..3 |-> IF a = i /\ b = j THEN 1 ELSE 0]]
      \* determinant one, not orthogonal
      Shear == MMul(N, MAdd(MScale(MId(3), 4), MScale(E, s)))
      Squash == MMul(N, [a \in 1..3 |-> [b \in 1..3 |-> IF a # b THEN 0 ELSE IF a = i THEN 4 ELSE IF a = (i % 3) + 1 THEN 1 ELSE 2]])
      Nudge == MAdd(MScale(N, 100), MScale(E, n * Sgn(s)))
      both(M, d) == RotEv(M, d, t) \o (IF DistSafe(M, d) THEN DistEv(M, d) ELSE <<>>)
  IN both(N, n) \o both(MNeg(N), n) \o both(SwapRows(N, 1, (k % 2) + 2), n) \o both(Squash, 2 * n) \o both(MScale(N, 2), n)
     \o (IF i = j THEN <<>> ELSE both(Shear, 4 * n)) \o (IF n > 12 THEN <<>> ELSE RotEv(Nudge, 100 * n, VScale(t, 100)))
     \o HBad(N, n, t, k) \o HBad(N, n, t, (k % 7) + 1)
(* ---- next to a rotation: R (I + 2^-k S), S a shear, a squash (both of determinant one to first order) or a dilation *)
NearRot(x, t, a, b, s, k) ==
  LET n == QN(x)  N == RotN(x)
      S == IF a # b THEN Outer(VUnit(3, a), VUnit(3, b))
           ELSE [i \in 1..3 |-> [j \in 1..3 |-> IF i # j THEN 0 ELSE IF Abs(s) > 1 THEN 1 ELSE IF i = a THEN 1 ELSE IF i = (a % 3) + 1 THEN -1 ELSE 0]]
      X == MMul(N, S)  e == NP2(Sgn(s), -k)
      \* Frobenius norm of e (S + S^T) + e^2 S S^T
      ds == IF a # b THEN NMul(NP2(1, -k), NOp("sqrt", <<NAdd(2, NP2(1, -2 * k))>>))
            ELSE IF Abs(s) > 1 THEN NMul(NAdd(NMul(2, e), NP2(1, -2 * k)), NRt(Sgn(s), 3, 1))
            ELSE NMul(NP2(1, -k), NOp("sqrt", <<NAdd(8, NMul(2, NP2(1, -2 * k)))>>))
      Ent(i, j) == IF X[i][j] = 0 THEN NQ(N[i][j], n) ELSE NAdd(NQ(N[i][j], n), NMul(NQ(X[i][j], n), e))
      A == [i \in 1..3 |-> [j \in 1..3 |-> Ent(i, j)]]
      H(l) == Mat([i \in 1..4 |-> IF i = 4 THEN l ELSE A[i] \o <<t[i]>>])
      H0(l) == Mat([i \in 1..4 |-> IF i = 4 THEN l ELSE [j \in 1..4 |-> IF j = 4 THEN t[i] ELSE NQ(N[i][j], n)]])
      odd(c) == [i \in 1..4 |-> IF i = c THEN (IF c = 4 THEN NAdd(1, e) ELSE e) ELSE IF i = 4 THEN 1 ELSE 0]
      ty(ev) == IF k >= 20 THEN For(ev, <<"f64">>) ELSE ev
      ask(ok) == << ty(Exp(Ev("is_rotation", <<Mat(A)>>), Boo(ok))), ty(Exp(Ev("is_rotation_h", <<H(<<0, 0, 0, 1>>)>>), Boo(ok))),
                    ty(Exp(Ev("is_rotation_h", <<H0(odd(a))>>), Boo(ok))), ty(Exp(Ev("is_rotation_h", <<H0(odd(4))>>), Boo(ok))) >> IN
  << ty(Exp(Ev("distance_to_manifold", <<Mat(A)>>), CwS(Scl(ds), 0, 1))) >> \o (IF k <= 13 THEN ask(FALSE) ELSE IF k >= 36 THEN ask(TRUE) ELSE <<>>)
(* ---- far from the rotations: matrices scaled by 2^-e, at any size. |M M^T 4^-e - I| or infinity by the sign of the determinant *)
Scaled(M, e, t) ==
  LET dt == Det(M)  G == MMul(M, Transpose(M))
      A == Mat([i \in 1..3 |-> [j \in 1..3 |-> IF M[i][j] = 0 THEN 0 ELSE NP2(M[i][j], -e)]])
      off(i, j) == IF i = j THEN NAdd(-1, NP2(G[i][j], -2 * e)) ELSE IF G[i][j] = 0 THEN 0 ELSE NP2(G[i][j], -2 * e)
      f == NOp("+", [c \in 1..9 |-> LET x == off(((c - 1) \div 3) + 1, ((c - 1) % 3) + 1) IN NMul(x, x)])
      ty(ev) == IF Abs(e) > 25 THEN For(ev, <<"f64">>) ELSE ev IN
  << ty(Exp(Ev("distance_to_manifold", <<A>>), IF dt > 0 THEN Scl(NOp("sqrt", <<f>>)) ELSE Scl(NInf))) >>
  \o (IF Abs(e) < 2 THEN <<>> ELSE << ty(Exp(Ev("is_rotation", <<A>>), Boo(e > 0 /\ e <= 8 /\ dt > 0 /\ G = MScale(MId(3), 4^e)))) >>)
AnyM(M, d, t) == RotEv(M, d, t) \o (IF DistSafe(M, d) THEN DistEv(M, d) ELSE <<>>)

Eps == << <<1, 1000>>, <<1, 100>>, <<1, 8>>, <<1, 2>>, <<3, 4>>, <<1, 1000000>>, <<1, 4>>, <<3, 2>> >>
InitS == SIM /\ step = 0 /\ out = <<>> /\ K = <<0, 0>> /\ q = QOne
InitX == /\ ~SIM /\ step = 0
         /\ \/ q = QZero /\ K \in ((-LIM)..LIM) \X ((-LIM)..LIM) /\ \E h \in 1..8 :
               out = <<EvNew(0, Floats)>> \o (IF K[1] = 0 THEN <<>> ELSE Pairs(K[1], K[2], 0, Eps[h][1], Eps[h][2]))
                     \o Zeros(K[1], -23, 20 + K[2]) \o Zeros(K[1], -52, 50 + K[2]) \o Tiny(K[1], K[2], Eps[h][1], Eps[h][2]) \o Infs(K[1], K[2], Eps[h][1], Eps[h][2])
                     \o Vecs(<<K[1], K[2], 7>>, <<K[1], K[1], 7>>, Eps[h][1], Eps[h][2]) \o Elems(<<7, K[1], K[2]>>, -2, 1) \o Elems(<<K[2], 9>>, -1, 0)
            \/ q \in [1..4 -> -1..1] \ {QZero} /\ K \in (1..3) \X (1..3) /\
               out = <<EvNew(0, Floats)>> \o Rots(q, <<5, -7, 11>>, K[1], K[2], 1, K[1] + K[2]) \o Rots(q, <<0, 0, 0>>, K[1], K[2], -4, K[1] + 4)
Init == InitS \/ InitX
Nz1(x) == TLCEval([i \in 1..Len(x) |-> IF x[i] = 0 THEN 1 ELSE x[i]])
Nz(x) == IF x = QZero THEN <<1, 1, 0, 0>> ELSE x
DrawQ(h) == IF h = 0 THEN RandV(4, -1, 1) ELSE IF h = 1 THEN RandV(4, -2, 2) ELSE RandV(4, -5, 5)
Pert(x, y, i, h) == TLCEval([k \in 1..Len(x) |-> IF h = 0 THEN x[k] ELSE IF k = i THEN y[k] ELSE IF h = 2 /\ Abs(x[k]) > 500 THEN x[k] + (k % 2) ELSE x[k]])
Next == /\ SIM /\ step' = step + 1
        /\ IF step = 0 THEN UNCHANGED <<K, q>> /\ out' = <<EvNew(0, Floats)>> \o NoElems
           ELSE \E h \in Pick(1..8) : \E w \in Pick({3, 50, 1000}) : \E x \in {RandV(2, -w, w)} : \E c \in {RandV(2, -2, 2)} : \E e \in Pick({0, 0, 3, -40, 70, -70, 800, -900}) :
                \E e2 \in Pick(-60..2) : \E t \in Pick(1..60) : \E g \in Pick(0..2) : \E y \in {DrawQ(g)} : \E tt \in {RandV(3, -50, 50)} :
                \E i \in Pick(1..3) : \E j \in Pick(1..3) : \E s \in Pick({-4, -1, 1, 2, 8}) : \E k \in Pick(1..7) : \E m1 \in Pick(1..60) : \E m \in {IF m1 % 3 = 0 THEN 8 ELSE IF m1 > 45 THEN (m1 - 44) * 3 ELSE 1 + (m1 \div 2)} :
                \E vx \in {RandV(m, -w, w)} : \E vy \in {RandV(m, -w, w)} : \E ve \in {RandV(m, -80, 20)} : \E vi0 \in Pick(1..(2 * m)) : \E vi \in {IF vi0 > m + (m \div 2) THEN m ELSE IF vi0 > m THEN vi0 - m ELSE vi0} : \E vh \in Pick(0..2) : \E M \in {RandM(3, -3, 3)} :
                LET p == Eps[h][1]  r == Eps[h][2]
                    \* pairs of numbers that are close, and pairs that are not
                    a == x[1]  b == IF t % 2 = 0 THEN x[2] ELSE x[1] + c[1]  bb == 1 + (Abs(x[2]) % 255)  aa == IF t % 3 = 0 THEN 1 + (Abs(x[1]) % 255) ELSE Max2(1, bb - Abs(c[2])) IN
                /\ K' = <<a, b>> /\ q' = Nz(y)
                /\ out' = (IF a = 0 THEN <<>> ELSE Pairs(a, b, e, p, r)) \o Zeros(a, e2, t) \o Tiny(a, b, p, r) \o Huge(aa, bb, p, r) \o Infs(a, e2, p, r) \o Nans(a, vx, vy, vi)
                          \o Vecs(vx, Pert(vx, vy, vi, vh), p, r) \o VecsE(Nz1(vx), Nz1(Pert(vx, vy, vi, vh)), ve, p, r) \o VecsE(Nz1(vx), Nz1(Pert(vx, [z \in 1..m |-> -vx[z]], vi, 1)), ve, p, r) \o Elems(vx, e2, t) \o Elems([z \in 1..m |-> IF z = vi /\ vh = 0 THEN 1 ELSE 40 + Abs(vx[z])], -t, Max2(1, t - 3)) \o Rots(Nz(y), tt, i, j, s, k) \o NearRot(Nz(y), tt, i, j, s, 3 + (t % 11)) \o NearRot(Nz(y), tt, i, j, s, 20 + (t % 25)) \o AnyM(M, i, tt) \o Scaled(M, t, tt) \o Scaled(RotN(Nz(y)), t, tt) \o Scaled(IF Det(M) < 0 THEN MNeg(M) ELSE M, -(t % 20), tt)
Spec == Init /\ [][Next]_vars
\* the comparison is symmetric, and tightening the tolerance never turns it true
Laws == \A h \in 1..8 : LET p == Eps[h][1]  r == Eps[h][2] IN
        /\ Near(K[1], K[2], p, r) = Near(K[2], K[1], p, r)
        /\ (Near(K[1], K[2], p, 2 * r) = 1 => Near(K[1], K[2], p, r) # 0)
=============================================================================
