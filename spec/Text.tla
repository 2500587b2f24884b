--------------------------------- MODULE Text ---------------------------------
(* Rendering: the model prints an object as the lines of its components in      *)
(* hundredths. Components are sixteenths that are no rounding ties; of any        *)
(* magnitude, integers, or not finite in the wide steps.                        *)
EXTENDS Lin, Machine

CONSTANTS NS
VARIABLES n, seen
vars == <<step, out, n, seen>>

Cents(k) == (25 * k + 2) \div 4
NoTie(k) == IF k % 4 = 2 THEN k + 1 ELSE k
Clean(s) == TLCEval([i \in 1..Len(s) |-> NoTie(s[i])])
CleanM(A) == TLCEval([i \in 1..Len(A) |-> Clean(A[i])])
Line(s) == TLCEval([i \in 1..Len(s) |-> Cents(s[i])])
Lines(A) == TLCEval([i \in 1..Len(A) |-> Line(A[i])])
S16(x) == Over(x, 16)
Sh(x, t) == Exp(Ev("show", <<S16(x)>>), Txt(t))

ShowM(A) == << Sh(Mat(A), Lines(A)) >>
ShowV(a) == << Sh(Vec(a), <<Line(a)>>) >>
ShowQ(q) == << Sh(Qua(q), <<Line(q)>>) >>
ShowD(d) == << Sh(Dua(d), <<Line(SubSeq(d, 1, 4)), Line(SubSeq(d, 5, 8))>>) >>

\* values that remember how they were made (b = twice a quaternion of norm one): the text does not depend on it
Half == << <<2, 0, 0, 0>>, <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<-1, 1, 1, 1>>, <<0, 2, 0, 0>>, <<0, 0, -2, 0>>, <<-2, 0, 0, 0>> >>
QMulT(a, b) == << a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4], a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
                  a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2], a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1] >>
ShowS(b, t, k) ==
  LET q == [i \in 1..4 |-> 8 * b[i]]
      \* dual part t q / 2, t in quarters, in sixteenths
      d == Clean([i \in 1..4 |-> QMulT(<<0, t[1], t[2], t[3]>>, b)[i]])
      exact == d = QMulT(<<0, t[1], t[2], t[3]>>, b)
      line(x) == Txt(<<Line(x)>>)  both(x, y) == Txt(<<Line(x), Line(y)>>)
      z == <<0, 0, 0, 0>> IN
  << To(Ev("normalize", <<Over(Qua([i \in 1..4 |-> k * b[i]]), 1)>>), 0), Exp(Ev("show", <<R(0)>>), line(q)),
     To(Ev("d_from_rotation", <<R(0)>>), 1), Exp(Ev("show", <<R(1)>>), both(q, z)),
     To(Ev("normalize", <<Over(Dua([i \in 1..8 |-> IF i <= 4 THEN b[i] ELSE 0]), 2)>>), 2), Exp(Ev("show", <<R(2)>>), both(q, z)) >>
  \o (IF ~exact THEN <<>> ELSE
       << To(Ev("d_from_rt", <<R(0), Over(Vec(t), 4)>>), 3), Exp(Ev("show", <<R(3)>>), both(q, d)) >>)

\* wide: the component is sg (a + r / 1024), or 2^-e (prints as zero), or not finite; [sg, a, r, e], e = 0 for the first
Tie(r) == IF (100 * r) % 1024 = 512 THEN r + 1 ELSE r
WVal(c) == IF c.e = 1 THEN NInf ELSE IF c.e = 2 THEN NNegInf ELSE IF c.e = 3 THEN NNan ELSE IF c.e > 0 THEN NP2(c.sg, -c.e) ELSE NAdd(c.sg * c.a, NQ(c.sg * Tie(c.r), 1024))
WTxt(c) == IF c.e = 1 THEN NInf ELSE IF c.e = 2 THEN NNegInf ELSE IF c.e = 3 THEN NNan ELSE IF c.e > 0 THEN 0 ELSE c.sg * (100 * c.a + ((100 * Tie(c.r) + 512) \div 1024))
\* how large: 24 bits for f32
WMag == {0, 3, 9, 10, 11, 99, 100, 101, 999, 9999, 16000}
WBig == {99999, 100000, 999999, 9999999, 20000000}
WDraw(x, b) == [sg |-> IF x[1] = 0 THEN -1 ELSE 1,
                a |-> LET m == RandomElement(IF b THEN WMag \cup WBig ELSE WMag) IN IF x[2] < 3 THEN m ELSE RandomElement(0..m),
                r |-> RandomElement(0..1023), e |-> IF x[3] # 0 THEN 0 ELSE RandomElement({1, 2, 3, 8, 9, 12, 30, 60, 100})]
WRow(m, b) == TLCEval([i \in 1..m |-> WDraw(RandV(3, 0, 9), b)])
WShow(A, a, d, ty) ==
  LET V(s) == [i \in 1..Len(s) |-> WVal(s[i])]  X(s) == [i \in 1..Len(s) |-> WTxt(s[i])]
      sh(x, t) == For(Exp(Ev("show", <<x>>), Txt(t)), ty) IN
  << sh(Mat([i \in 1..Len(A) |-> V(A[i])]), [i \in 1..Len(A) |-> X(A[i])]), sh(Vec(V(a)), <<X(a)>>),
     sh(Qua(V(SubSeq(d, 3, 6))), <<X(SubSeq(d, 3, 6))>>), sh(Dua(V(d)), <<X(SubSeq(d, 1, 4)), X(SubSeq(d, 5, 8))>>) >>
\* integer scalars
Whole(A, a, d) ==
  LET hu(s) == [i \in 1..Len(s) |-> 100 * s[i]]  sh(x, t) == Exp(Ev("show", <<x>>), Txt(t)) IN
  << sh(Mat(A), [i \in 1..Len(A) |-> hu(A[i])]), sh(Vec(a), <<hu(a)>>), sh(Qua(SubSeq(d, 3, 6)), <<hu(SubSeq(d, 3, 6))>>), sh(Dua(d), <<hu(SubSeq(d, 1, 4)), hu(SubSeq(d, 5, 8))>>) >>

\* exhaustive: one component singled out at every position, with every sign and magnitude class
One(m, k, x) == [i \in 1..m |-> IF i = k THEN x ELSE 16 * i]
OneM(m, k, x) == [i \in 1..m |-> [j \in 1..m |-> IF (i - 1) * m + j = k THEN x ELSE 16 * (10 * i + j)]]
Xs == {0, 1, -1, 15, -15, 17, -8000, 160000, 3}
InitS == SIM /\ n \in NS /\ step = 0 /\ out = <<>> /\ seen = 0
InitX == /\ ~SIM /\ n \in NS /\ step = 0 /\ seen \in 1..36 /\ \E x \in Xs :
            /\ seen <= n * n
            /\ out = <<EvNew(0, Floats)>> \o ShowM(OneM(n, seen, x))
                     \o (IF seen <= n THEN ShowV(One(n, seen, x)) ELSE <<>>)
                     \o (IF n = 4 /\ seen <= 4 THEN ShowQ(One(4, seen, x)) ELSE <<>>)
                     \o (IF n = 4 /\ seen <= 8 THEN ShowD(One(8, seen, x)) ELSE <<>>)
Init == InitS \/ InitX
Next == /\ SIM /\ step' = step + 1 /\ UNCHANGED <<n, seen>>
        /\ IF step = 0 THEN out' = <<EvNew(0, Floats)>>
           ELSE IF step % 5 = 3 THEN \E b \in Pick({FALSE, TRUE}) : \E A \in {TLCEval([i \in 1..n |-> WRow(n, b)])} : \E a \in {WRow(n, b)} : \E d \in {WRow(8, b)} :
                out' = WShow(A, a, d, IF b THEN <<"f64">> ELSE Floats)
           ELSE IF step % 5 = 4 THEN \E w \in Pick({3, 99, 4000, 16000000}) : \E A \in {RandM(n, -w, w)} : \E a \in {RandV(n, -w, w)} : \E d \in {RandV(8, -w, w)} :
                out' = <<EvNew(0, AllT)>> \o Whole(A, a, d) \o <<EvNew(0, Floats)>>
           ELSE \E w \in Pick({3, 40, 4000, 200000}) : \E A \in {CleanM(RandM(n, -w, w))} : \E a \in {Clean(RandV(n, -w, w))} :
                \E d \in {Clean(RandV(8, -w, w))} :
                out' = ShowM(A) \o ShowV(a) \o ShowQ(SubSeq(d, 3, 6)) \o ShowD(d) \o ShowS(Half[1 + (Abs(d[1]) % 7)], <<d[3], d[4], d[5]>>, 1 + (Abs(d[2]) % 5))
Spec == Init /\ [][Next]_vars
Laws == Cents(16) = 100 /\ Cents(-16) = -100 /\ Cents(1) = 6 /\ Cents(-1) = -6 /\ Cents(15) = 94 /\ Cents(-15) = -94
=============================================================================
