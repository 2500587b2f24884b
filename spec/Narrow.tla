-------------------------------- MODULE Narrow --------------------------------
(* Scalars of limited range: unsigned bytes, and the whole range of 32 and 64 bit *)
(* integers. Where the result of an operation (and the sums it is defined by) is   *)
(* representable, the operation yields it: no detour through a negative number, a  *)
(* larger number or a reciprocal.                                                  *)
EXTENDS Lin, Machine

CONSTANTS NS, KIND

VARIABLES n
vars == <<step, out, n>>

MAX == 2147483647
MIN == -2147483647 - 1
\* a number of the full range, by its class
Wide(neg) == LET r == RandomElement({0, 1, 2, MAX, MAX - 1, 1073741824, 1073741823, 65535, 65536}) IN
             LET x == IF RandomElement(0..2) = 0 THEN RandomElement(0..(MAX - 1)) ELSE r IN IF neg THEN -1 - x ELSE x
Signs(m) == TLCEval([i \in 1..m |-> RandomElement({TRUE, FALSE})])
WideV(m, s) == TLCEval([i \in 1..m |-> Wide(s[i])])
NoMin(v) == TLCEval([i \in 1..Len(v) |-> IF v[i] = MIN THEN MAX ELSE v[i]])
Not(s) == [i \in 1..Len(s) |-> ~s[i]]
Rows(m, s) == [i \in 1..m |-> [j \in 1..m |-> s[m * (i - 1) + j]]]

\* the value with components v: in 64 bits the unit is 2^32
X(t, v) == Deg([t |-> t, v |-> v], 1)
\* v and w of the same signs, z of the opposite ones; f shapes a sequence into a value
Full(t, v, w, z, f(_)) ==
  LET A == X(t, f(v))  B == X(t, f(w))  C == X(t, f(z))
      add == X(t, f(VAdd(v, z)))  sub == X(t, f(VSub(v, w)))
      ok == \A i \in 1..Len(v) : v[i] # MIN
      asg == t \in {"m", "v"}
      ev == << To(Exp(Ev("id", <<A>>), A), 0), To(Exp(Ev("id", <<B>>), B), 1), To(Exp(Ev("id", <<C>>), C), 2),
               Exp(Ev("sub", <<R(0), R(1)>>), sub), Exp(Ev("add", <<R(0), R(2)>>), add), Exp(Ev("add", <<R(2), R(0)>>), add),
               Exp(Ev("sub", <<R(0), R(0)>>), X(t, f(VZero(Len(v))))), Exp(Ev("muls", <<R(0), Scl(1)>>), A), Exp(Ev("muls", <<R(0), Scl(0)>>), X(t, f(VZero(Len(v))))),
               Exp(Ev("eq", <<R(0), R(1)>>), Boo(v = w)), Exp(Ev("eq", <<R(0), R(0)>>), Boo(TRUE)), Exp(Ev("eq", <<R(0), R(2)>>), Boo(FALSE)),
               Exp(Ev("is_zero", <<R(0)>>), Boo(v = VZero(Len(v)))) >>
            \o (IF ok THEN << Exp(Ev("neg", <<R(0)>>), X(t, f(VNeg(v)))), Exp(Ev("muls", <<R(0), Scl(-1)>>), X(t, f(VNeg(v)))) >> ELSE <<>>)
            \o (IF t # "d" THEN << Exp(Ev("divs", <<R(0), Scl(1)>>), A) >> ELSE <<>>)
            \o (IF asg THEN << Exp(Ev("addassign", <<R(0), R(2)>>), add), Exp(Ev("subassign", <<R(0), R(1)>>), sub) >> ELSE <<>>)
            \o (IF t = "m" THEN << To(Exp(Ev("one", <<R(0)>>), Mat(MId(n))), 3), Exp(Ev("mul", <<R(0), R(3)>>), A), Exp(Ev("mul", <<R(3), R(0)>>), A) >> ELSE <<>>) IN
  <<EvNew(0, <<"i32">>)>> \o ev \o <<EvNew(32, <<"i64">>)>> \o ev

\* norms and extremes of the full range
Extremes(v) ==
  LET y == NoMin(v)  m == Len(v)
      hi(x) == CHOOSE i \in 1..m : (\A j \in 1..m : x[j] <= x[i]) /\ (\A j \in 1..(i - 1) : x[j] < x[i])
      lo(x) == CHOOSE i \in 1..m : (\A j \in 1..m : x[j] >= x[i]) /\ (\A j \in 1..(i - 1) : x[j] > x[i])
      S(x) == Deg(Scl(x), 1)
      mm(x) == Tup(<<S(x[hi(x)]), Idx(hi(x) - 1), S(x[lo(x)]), Idx(lo(x) - 1)>>)
      \* one extreme entry: the sum of absolute values is representable
      one == [i \in 1..m |-> IF i = hi(y) THEN y[i] ELSE 0]
      ev == (IF m > 6 THEN <<>> ELSE << Exp(Ev("norm_inf", <<X("v", y)>>), S(MaxAbs(y))), Exp(Ev("max_min", <<X("v", v)>>), mm(v)), Exp(Ev("norm_l", <<X("v", one)>>), S(Abs(y[hi(y)]))) >>) \o
            << Exp(Ev("sl_norm_inf", <<X("a", y)>>), S(MaxAbs(y))), Exp(Ev("sl_max_min", <<X("a", v)>>), mm(v)), Exp(Ev("sl_norm_l", <<X("a", one)>>), S(Abs(y[hi(y)]))),
               Exp(Ev("sl_dot", <<X("a", one), Arr([i \in 1..m |-> 1])>>), S(y[hi(y)])) >> IN
  <<EvNew(0, <<"i32">>)>> \o ev \o <<EvNew(32, <<"i64">>)>> \o ev
BytesV(a, b) ==
  LET m == Len(a)
      hi(x) == CHOOSE i \in 1..m : (\A j \in 1..m : x[j] <= x[i]) /\ (\A j \in 1..(i - 1) : x[j] < x[i])
      lo(x) == CHOOSE i \in 1..m : (\A j \in 1..m : x[j] >= x[i]) /\ (\A j \in 1..(i - 1) : x[j] > x[i])
      mm(x) == Tup(<<Scl(x[hi(x)]), Idx(hi(x) - 1), Scl(x[lo(x)]), Idx(lo(x) - 1)>>) IN
  << EvNew(0, <<"u8">>), Exp(Ev("max_min", <<Vec(a)>>), mm(a)), Exp(Ev("sl_max_min", <<Arr(a)>>), mm(a)), Exp(Ev("norm_inf", <<Vec(a)>>), Scl(MaxAbs(a))), Exp(Ev("sl_norm_inf", <<Arr(a)>>), Scl(MaxAbs(a))),
     Exp(Ev("sl_dot", <<Arr(b), Arr(b)>>), Scl(Dot(b, b))), Exp(Ev("mul", <<Vec(b), Vec(b)>>), Scl(Dot(b, b))) >>

\* quotients of whole numbers are cut towards zero
Cut(v, s, t, f(_)) ==
  LET e == << Exp(Ev("divs", <<[t |-> t, v |-> f(v)], Scl(s)>>), [t |-> t, v |-> f(VDivI(v, s))]) >> IN
  <<EvNew(0, <<"i32", "i64">>)>> \o e
\* bytes: a >= b, a + c <= 255, k a <= 255
Bytes(a, b, c, k, s, t, f(_)) ==
  LET V(x) == [t |-> t, v |-> f(x)]
      asg == t \in {"m", "v"} IN
  << EvNew(0, <<"u8">>), To(Exp(Ev("id", <<V(a)>>), V(a)), 0), To(Ev("id", <<V(b)>>), 1), To(Ev("id", <<V(c)>>), 2),
     Exp(Ev("sub", <<R(0), R(1)>>), V(VSub(a, b))), Exp(Ev("sub", <<R(0), R(0)>>), V(VZero(Len(a)))), Exp(Ev("add", <<R(0), R(2)>>), V(VAdd(a, c))),
     Exp(Ev("muls", <<V([i \in 1..Len(a) |-> a[i] \div k]), Scl(k)>>), V([i \in 1..Len(a) |-> k * (a[i] \div k)])),
     Exp(Ev("eq", <<R(0), R(1)>>), Boo(a = b)), Exp(Ev("eq", <<R(0), R(0)>>), Boo(TRUE)), Exp(Ev("is_zero", <<R(0)>>), Boo(a = VZero(Len(a)))),
     Exp(Ev("zero", <<R(0)>>), V(VZero(Len(a)))) >>
  \o (IF t # "d" THEN << Exp(Ev("divs", <<R(0), Scl(s)>>), V([i \in 1..Len(a) |-> a[i] \div s])) >> ELSE <<>>)
  \o (IF asg THEN << Exp(Ev("addassign", <<R(0), R(2)>>), V(VAdd(a, c))), Exp(Ev("subassign", <<R(0), R(1)>>), V(VSub(a, b))) >> ELSE <<>>)
\* products of bytes: rows of A sum to at most 255 / max B
Products(A, B, v) ==
  << EvNew(0, <<"u8">>), To(Ev("id", <<Mat(A)>>), 0), To(Ev("id", <<Mat(B)>>), 1), To(Ev("id", <<Vec(v)>>), 2),
     Exp(Ev("mul", <<R(0), R(1)>>), Mat(MMul(A, B))), Exp(Ev("mul", <<R(0), R(2)>>), Vec(MVec(A, v))), Exp(Ev("mul", <<R(2), R(0)>>), Vec(VMat(v, A))),
     Exp(Ev("mul", <<R(2), R(2)>>), Scl(Dot(v, v))),
     To(Exp(Ev("one", <<R(0)>>), Mat(MId(n))), 3), Exp(Ev("mul", <<R(0), R(3)>>), Mat(A)), Exp(Ev("mul", <<R(3), R(1)>>), Mat(B)) >>
\* a full-range matrix permuted and with signs: sums of one term
Permuted(A, B, v) ==
  LET ev == << To(Ev("id", <<X("m", A)>>), 0), To(Ev("id", <<Mat(B)>>), 1), To(Ev("id", <<X("v", v)>>), 2),
               Exp(Ev("mul", <<R(0), R(1)>>), X("m", MMul(A, B))), Exp(Ev("mul", <<R(1), R(0)>>), X("m", MMul(B, A))),
               Exp(Ev("mul", <<R(1), R(2)>>), X("v", MVec(B, v))), Exp(Ev("mul", <<R(2), R(1)>>), X("v", VMat(v, B))) >> IN
  <<EvNew(0, <<"i32">>)>> \o ev \o <<EvNew(32, <<"i64">>)>> \o ev

Square(s) == Rows(n, s)
Same(s) == s
BytesOf(m) == TLCEval([i \in 1..m |-> RandomElement({0, 1, 2, 127, 128, 254, 255, RandomElement(0..255)})])
Act == \E s \in {Signs(36)} : \E v0 \in {WideV(36, s)} : \E w0 \in {WideV(36, s)} : \E z0 \in {WideV(36, Not(s))} : \E a0 \in {BytesOf(36)} : \E r \in {RandV(72, 0, 1000)} :
       \E k \in Pick({1, 2, 3, 5, 16}) : \E d \in Pick({1, 2, 3, 7, 10, 255}) : \E m0 \in {RandV(36, -99, 99)} : \E p \in Pick(Permutations(1..n)) :
  LET cut(x, m) == SubSeq(x, 1, m)
      b(m) == TLCEval([i \in 1..m |-> r[i] % (a0[i] + 1)])  c(m) == TLCEval([i \in 1..m |-> r[36 + i] % (256 - a0[i])])
      fam(t, m, f(_)) == Full(t, cut(v0, m), cut(w0, m), cut(z0, m), f) \o Bytes(cut(a0, m), b(m), c(m), k, d, t, f)
                         \o (IF t # "d" THEN Cut(cut(m0, m), IF s[1] THEN d ELSE -d, t, f) ELSE <<>>) IN
  out' = (IF KIND = "elem" THEN fam("m", n * n, Square) \o fam("v", n, Same)
          ELSE IF KIND = "vec" THEN Extremes(cut(v0, n)) \o Extremes(cut(v0, n + 7)) \o BytesV(cut(a0, n), [i \in 1..n |-> r[i] % 7])
          ELSE IF KIND = "quat" THEN fam("q", 4, Same)
          ELSE IF KIND = "dual" THEN fam("d", 8, Same)
          ELSE LET A == Square([i \in 1..(n * n) |-> r[i] % 7])  B == Square([i \in 1..(n * n) |-> r[36 + i] % 7])  v == [i \in 1..n |-> r[i + 11] % 7]
                   S == [i \in 1..n |-> [j \in 1..n |-> IF p[i] = j THEN (IF s[i] THEN 1 ELSE -1) ELSE 0]] IN
               Products(A, B, v) \o Permuted(Square(NoMin(cut(v0, n * n))), S, NoMin(cut(v0, n))))

Init == step = 0 /\ n \in NS /\ out = <<>>
Next == step' = step + 1 /\ UNCHANGED n /\ Act
Spec == Init /\ [][Next]_vars
Laws == VDivI(<<-7, 7, -9, 0>>, 2) = <<-3, 3, -4, 0>> /\ VDivI(<<-7, 7>>, -2) = <<3, -3>> /\ Abs(MIN + 1) = MAX
=============================================================================
