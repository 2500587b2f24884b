----------------------------- MODULE MatStruct -----------------------------
(* One matrix (register 0), one vector (register 1), a 3x3 donor (register 2): *)
(* in-place writes through every route, and every accessor.                    *)
EXTENDS Shapes, Machine

CONSTANTS NS, HI

VARIABLES n, A, v
vars == <<step, out, n, A, v>>

Lit(x) == Exp(Ev("id", <<x>>), x)
Ranks == 0..(n - 1)
RA == R(0)
RV == R(1)

Init == /\ n \in NS /\ step = 0 /\ A = MZero(n) /\ v = VZero(n)
        /\ out = <<>>

Load == \E a0 \in {RandM(n, -HI, HI)} : \E w \in {RandV(n, -HI, HI)} :
  \E h \in Pick(0..(2 * NShapes)) : \E X \in {RandM(n, -2, 2)} : \E N \in {RandM(n, -1, 1)} :
  \E x \in {RandV(n, 1, 36)} : \E z \in {RandV(n, -1, 1)} : \E s \in Pick(1..n) :
  LET a == IF h > NShapes THEN a0 ELSE Shape(n, h, X, N, x, z, s).m IN
  /\ A' = a /\ v' = w
  /\ out' = << EvNew(0, AllT), To(Lit(Mat(a)), 0), To(Lit(Vec(w)), 1) >>

\* ---- every accessor of the matrix, given its model value
SweepM(a) ==
  << Exp(Ev("rows", <<RA>>), Idx(n)), Exp(Ev("cols", <<RA>>), Idx(n)),
     Exp(Ev("as_vec", <<RA>>), Arr(Flat(a))),
     Exp(Ev("get_rows", <<RA>>), Arr(Flat(a))),
     Exp(Ev("get_cols", <<RA>>), Arr(Flat(Transpose(a)))),
     Exp(Ev("diag", <<RA>>), Vec(Diag(a))),
     Exp(Ev("map", <<RA>>), Mat([i \in 1..n |-> [j \in 1..n |-> 2 * a[i][j] + 1]])),
     For(Exp(Ev("transpose", <<RA>>), Mat(Transpose(a))), Floats),
     For(Exp(Ev("shape", <<RA>>), Idxs(<<n, n, n, n>>)), Floats),
     Exp(Ev("id", <<RA>>), Mat(a)) >>
  \o [k \in 1..(n * n) |-> LET i == (k - 1) \div n  j == (k - 1) % n IN
        Exp(Ev("at", <<RA, Idx(i), Idx(j)>>), Scl(a[i + 1][j + 1]))]
  \o [i \in 1..n |-> Exp(Ev("atrow", <<RA, Idx(i - 1)>>), Arr(a[i]))]
  \o (IF n >= 3 THEN << Exp(Ev("upper", <<RA>>), Arr(Upper(a))), Exp(Ev("lower", <<RA>>), Arr(Lower(a))) >> ELSE <<>>)
SweepV(w) ==
  << Exp(Ev("vlen", <<RV>>), Idx(n)), Exp(Ev("id", <<RV>>), Vec(w)) >>
  \o [i \in 1..n |-> Exp(Ev("vat", <<RV, Idx(i - 1)>>), Scl(w[i]))]

\* ---- writes
Write(op) == \E i \in Pick(Ranks) : \E j \in Pick(Ranks) : \E s \in Pick(-HI..HI) :
  LET a == TLCEval([A EXCEPT ![i + 1][j + 1] = s]) IN
  /\ A' = a
  /\ out' = << To(Exp(Ev(op, <<RA, Idx(i), Idx(j), Scl(s)>>), Mat(a)), 0) >>
  /\ UNCHANGED v
WriteV(op) == \E i \in Pick(Ranks) : \E s \in Pick(-HI..HI) :
  LET w == TLCEval([v EXCEPT ![i + 1] = s]) IN
  /\ v' = w
  /\ out' = << To(Exp(Ev(op, <<RV, Idx(i), Scl(s)>>), Vec(w)), 1) >>
  /\ UNCHANGED A
\* 3x3 blocks of a 6x6: 1 2 over 3 4
CopyQ == n = 6 /\ \E q \in Pick(1..4) : \E b \in {RandM(3, -HI, HI)} :
  LET r0 == IF q \in {3, 4} THEN 3 ELSE 0
      c0 == IF q \in {2, 4} THEN 3 ELSE 0
      a == TLCEval([i \in 1..6 |-> [j \in 1..6 |->
             IF i - r0 \in 1..3 /\ j - c0 \in 1..3 THEN b[i - r0][j - c0] ELSE A[i][j]]]) IN
  /\ A' = a
  /\ out' = << To(Lit(Mat(b)), 2), To(Exp(Ev("copyq", <<RA, R(2), Idx(q)>>), Mat(a)), 0), Exp(Ev("id", <<R(2)>>), Mat(b)) >>
  /\ UNCHANGED v

\* the named constants of one dimension: zero vector, axes, 2x2 zero and identity
Consts == IF n = 2 THEN <<0, 0,  1, 0,  0, 1,  0, 0, 0, 0,  1, 0, 0, 1>>
          ELSE IF n = 3 THEN <<0, 0, 0,  1, 0, 0,  0, 1, 0,  0, 0, 1>>
          ELSE VZero(n)

\* ---- pure observations
Stay == UNCHANGED <<A, v>>
Sub == n = 4 /\ Stay /\ out' = [k \in 1..16 |-> LET i == (k - 1) \div 4  j == (k - 1) % 4 IN
         Exp(Ev("submatrix", <<RA, Idx(i), Idx(j)>>), Mat(Minor(A, i + 1, j + 1)))]
And4(x, y) == Exp(Ev("bitand4", <<Arr(x), Arr(y)>>), Arr([i \in 1..4 |-> x[i] * y[i]]))
E4(k) == [i \in 1..4 |-> IF i = k THEN 1 ELSE 0]
Bits(x, y) == << And4(x, y), And4(y, x) >> \o [k \in 1..4 |-> And4(E4(k), <<1, 1, 1, 1>>)] \o [k \in 1..4 |-> And4(<<1, 1, 1, 1>>, E4(k))]
              \o [k \in 1..4 |-> And4(E4(k), E4((k % 4) + 1))]
Ctors == /\ Stay
         /\ out' = << Exp(Ev("ctor_new", <<Arr(Flat(A)), Idx(n)>>), Mat(A)),
                      Exp(Ev("ctor_from", <<Arr(Flat(A)), Idx(n)>>), Mat(A)),
                      Exp(Ev("ctor_macro", <<Arr(Flat(A)), Idx(n)>>), Mat(A)),
                      Exp(Ev("from_cols", <<Arr(Flat(A)), Idx(n)>>), Mat(Transpose(A))),
                      Exp(Ev("vctor_new", <<Arr(v), Idx(n)>>), Vec(v)),
                      Exp(Ev("vctor_from", <<Arr(v), Idx(n)>>), Vec(v)),
                      Exp(Ev("vctor_args", <<Arr(v), Idx(n)>>), Vec(v)),
                      Exp(Ev("ones", <<RV>>), Vec([i \in 1..n |-> 1])),
                      Exp(Ev("one", <<RA>>), Mat(MId(n))), Exp(Ev("zero", <<RA>>), Mat(MZero(n))),
                      Exp(Ev("zero", <<RV>>), Vec(VZero(n))) >>
                   \o (IF n = 2 THEN << Exp(Ev("ctor_args", <<Arr(Flat(A)), Idx(2)>>), Mat(A)) >> ELSE <<>>)
                   \o (IF n = 3 THEN << Exp(Ev("axes", <<RV>>), Arr(Flat(MId(3)))) >> ELSE <<>>)
                   \o (IF n = 4 THEN Bits([i \in 1..4 |-> Abs(v[i]) % 2], [i \in 1..4 |-> Abs(A[1][i]) % 2]) ELSE <<>>)
                   \o << For(Exp(Ev("consts", <<Idx(n)>>), Arr(Consts)), <<"f32">>) >>
Trans == /\ A' = Transpose(A) /\ UNCHANGED v
         /\ out' = << For(Exp(Ev("transpose", <<RA>>), Mat(A')), Floats),
                      To(Lit(Mat(A')), 0) >>

\* ---- positions outside are refused, by every route, and nothing changes
Outside == /\ Stay /\ \E i \in Pick(Ranks) : \E k \in Pick({n, n + 1, 2 * n - 1, n * n, n * n + 3}) : \E s \in Pick(-HI..HI) :
             out' = << Exp(Ev("at", <<RA, Idx(i), Idx(k)>>), PanicV), Exp(Ev("at", <<RA, Idx(k), Idx(i)>>), PanicV), Exp(Ev("at", <<RA, Idx(k), Idx(k)>>), PanicV),
                       Exp(Ev("atrow", <<RA, Idx(k)>>), PanicV), Exp(Ev("vat", <<RV, Idx(k)>>), PanicV),
                       Exp(Ev("tryset", <<RA, Idx(i), Idx(k), Scl(s)>>), Tup(<<Boo(TRUE), Mat(A)>>)), Exp(Ev("tryset", <<RA, Idx(k), Idx(i), Scl(s)>>), Tup(<<Boo(TRUE), Mat(A)>>)),
                       Exp(Ev("trysetrow", <<RA, Idx(i), Idx(k), Scl(s)>>), Tup(<<Boo(TRUE), Mat(A)>>)), Exp(Ev("trysetrow", <<RA, Idx(k), Idx(i), Scl(s)>>), Tup(<<Boo(TRUE), Mat(A)>>)),
                       Exp(Ev("tryvset", <<RV, Idx(k), Scl(s)>>), Tup(<<Boo(TRUE), Vec(v)>>)),
                       Exp(Ev("tryset", <<RA, Idx(i), Idx(n - 1), Scl(s)>>), Tup(<<Boo(FALSE), Mat([A EXCEPT ![i + 1][n] = s])>>)),
                       Exp(Ev("tryvset", <<RV, Idx(i), Scl(s)>>), Tup(<<Boo(FALSE), Vec([v EXCEPT ![i + 1] = s])>>)) >>
                    \o (IF n # 4 THEN <<>> ELSE << Exp(Ev("submatrix", <<RA, Idx(k), Idx(i)>>), PanicV), Exp(Ev("submatrix", <<RA, Idx(i), Idx(k)>>), PanicV) >>)
                    \o (IF n # 6 THEN <<>> ELSE << Exp(Ev("trycopyq", <<RA, Mat(MId(3)), Idx(0)>>), Tup(<<Boo(TRUE), Mat(A)>>)),
                                                   Exp(Ev("trycopyq", <<RA, Mat(MId(3)), Idx(k - 1)>>), Tup(<<Boo(TRUE), Mat(A)>>)) >>)

Do(o) == \/ o = "outside" /\ Outside
         \/ o = "set" /\ Write("set")
         \/ o = "setrow" /\ Write("setrow")
         \/ o = "setflat" /\ Write("setflat")
         \/ o = "vset" /\ WriteV("vset")
         \/ o = "vsetflat" /\ WriteV("vsetflat")
         \/ o = "copyq" /\ CopyQ
         \/ o = "sub" /\ Sub
         \/ o = "ctors" /\ Ctors
         \/ o = "trans" /\ Trans
Ops == {"outside", "set", "setrow", "setflat", "vset", "vsetflat", "ctors", "trans"}
         \union (IF n = 6 THEN {"copyq"} ELSE {}) \union (IF n = 4 THEN {"sub"} ELSE {})

Sweep == /\ Stay /\ out' = SweepM(A) \o SweepV(v)

Next == /\ step' = step + 1 /\ UNCHANGED n
        /\ IF step = 0 THEN Load
           ELSE IF step % 3 = 1 THEN Sweep
           ELSE \E o \in Pick(Ops) : Do(o)
Spec == Init /\ [][Next]_vars

\* theorems of the model: transposition is an involution, triangles swap under it, minors commute with it
Laws == step # 1 \/ ( /\ Transpose(Transpose(A)) = A
                      /\ Len(Upper(A)) = (n * (n - 1)) \div 2
                      /\ Minor(Transpose(A), 1, 2) = Transpose(Minor(A, 2, 1)) )
=============================================================================
