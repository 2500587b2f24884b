------------------------------- MODULE Arith -------------------------------
(* Exact integer / rational arithmetic and the random-or-exhaustive choice   *)
(* operator used by every machine of this specification.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE GcdP(_, _)
GcdP(a, b) == IF b = 0 THEN a ELSE GcdP(b, a % b)
Gcd(a, b) == GcdP(Abs(a), Abs(b))

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

RECURSIVE GcdTo(_, _)
GcdTo(f, n) == IF n = 0 THEN 0 ELSE Gcd(f[n], GcdTo(f, n - 1))
GcdSeq(s) == GcdTo(s, Len(s))

RECURSIVE MaxAbsTo(_, _)
MaxAbsTo(f, n) == IF n = 0 THEN 0 ELSE Max2(Abs(f[n]), MaxAbsTo(f, n - 1))
MaxAbs(s) == MaxAbsTo(s, Len(s))

RECURSIVE PowI(_, _)
PowI(b, e) == IF e = 0 THEN 1 ELSE b * PowI(b, e - 1)

\* integer square root of a perfect square, 0 if it is not one (arguments are small)
RECURSIVE RootFrom(_, _)
RootFrom(n, r) == IF r * r = n THEN r ELSE IF r * r > n THEN 0 ELSE RootFrom(n, r + 1)
Root(n) == RootFrom(n, 1)

(* ---- rationals <<p, q>>, q > 0, lowest terms ---- *)
Rat(p, q) == LET g == Max2(1, Gcd(p, q)) IN
             IF q < 0 THEN <<(-p) \div g, (-q) \div g>> ELSE <<p \div g, q \div g>>
RI(p) == <<p, 1>>
RAdd(a, b) == Rat(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == Rat(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == LET g1 == Max2(1, Gcd(a[1], b[2]))  g2 == Max2(1, Gcd(b[1], a[2])) IN
              Rat((a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1))
RInv(a) == Rat(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RNeg(a) == <<-a[1], a[2]>>
RZero(a) == a[1] = 0
RLess(a, b) == a[1] * b[2] < b[1] * a[2]

(* ---- machine epsilon: is N * 2^e (N >= 0) below 2^-t ? ---- *)
EpsBits == [f64 |-> 52, f32 |-> 23]
Below(N, e, t) == N = 0 \/ (-t - e > 0 /\ (-t - e >= 31 \/ N < 2^(-t - e)))
AtEdge(N, e, t) == -t - e >= 0 /\ -t - e < 31 /\ N = 2^(-t - e)

(* ---- choice: everything when checking exhaustively, one random element when simulating ---- *)
CONSTANT SIM
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S

(* random structured data, used only when simulating (TLCEval forces the draw once) *)
RandV(n, lo, hi) == TLCEval([i \in 1..n |-> RandomElement(lo..hi)])
RandM(n, lo, hi) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> RandomElement(lo..hi)])])
=============================================================================
