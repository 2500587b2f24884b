-------------------------------- MODULE Wire -------------------------------
(* The observable events of the library, as JSON handed to the replay        *)
(* machine, and the vocabulary of exact values they carry.                   *)
EXTENDS Integers, Sequences, TLC, Json

\* numbers
NQ(p, q) == [q |-> <<p, q>>]
NRat(r) == [q |-> r]
NRt(c, p, q) == [rt |-> <<c, p, q>>]          \* c * sqrt(p/q)
NPi(p, q) == [pi |-> <<p, q>>]
NAt(y, x) == [at |-> <<y, x>>]                \* atan2(y, x)
NP2(k, e) == [p2 |-> <<k, e>>]                \* k * 2^e
NOp(op, args) == [o |-> op, a |-> args]
NAdd(x, y) == NOp("+", <<x, y>>)
NSub(x, y) == NOp("-", <<x, y>>)
NMul(x, y) == NOp("*", <<x, y>>)
NDiv(x, y) == NOp("/", <<x, y>>)
NInf == [sp |-> "inf"]
NNan == [sp |-> "nan"]
NNegInf == [sp |-> "-inf"]

\* objects; the value is v / den, scaled by unit^deg
R(i) == [r |-> i]                             \* a register of the replay machine
Mat(A) == [t |-> "m", v |-> A]
Vec(a) == [t |-> "v", v |-> a]
Qua(q) == [t |-> "q", v |-> q]
Dua(d) == [t |-> "d", v |-> d]
Scl(x) == [t |-> "s", v |-> x]
Idx(x) == [t |-> "u", v |-> x]
Idxs(x) == [t |-> "us", v |-> x]
Arr(a) == [t |-> "a", v |-> a]
Boo(b) == [t |-> "b", v |-> b]
Str(s) == [t |-> "str", v |-> s]
Tup(s) == [t |-> "tup", v |-> s]
Txt(s) == [t |-> "txt", v |-> s]
NoneV == [t |-> "none"]
ErrV == [t |-> "err"]
PanicV == [t |-> "panic"]
SkipV == [t |-> "skip"]
Over(x, d) == x @@ [den |-> d]
OverRt(x, n) == x @@ [rt |-> n]
Dir(x) == x @@ [un |-> 1]                     \* x / |x|
Deg(x, d) == x @@ [deg |-> d]
\* each component relative to max(its size, f), plus rounding of a whole of size s
Cw(x, f) == x @@ [cw |-> f]
CwS(x, f, s) == x @@ [cw |-> f, sc |-> s]
\* each component relative to its own size: nothing else may leak in
Pc(x) == x @@ [cw |-> 0, pc |-> 1]
\* lengths are measured in units of 2^s (translations, dual parts, moments)
Tl(x, s) == IF s = 0 THEN x ELSE x @@ [tl |-> NP2(1, s)]
PM(x) == [t |-> "pm", v |-> x]
OneOf(s) == [t |-> "any", v |-> s]
Known(id, x) == [t |-> "kf", id |-> id, v |-> x]

\* events
EvNew(u, ty) == [op |-> "new", u |-> u, ty |-> ty]
Ev(op, args) == [op |-> op, args |-> args]
Exp(e, x) == e @@ [exp |-> x]
To(e, r) == e @@ [dst |-> r]
For(e, ty) == e @@ [ty |-> ty]
Cond(e, k) == e @@ [k |-> k]                  \* condition number: tolerance multiplier
Tol(e, t64, t32) == e @@ [t64 |-> t64, t32 |-> t32]   \* 10^-t64, 10^-t32

Floats == <<"f64", "f32">>
AllT == <<"f64", "f32", "i64", "i32">>

\* printed once per visited state
Out(e) == PrintT("@@" \o ToJson(e))
OutAll(s) == \A i \in 1..Len(s) : Out(s[i])
=============================================================================
