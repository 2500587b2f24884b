------------------------------- MODULE MatAlg -------------------------------
(* Register machine over square matrices and vectors of one dimension n.     *)
(* M[1..3] are matrices, W[1..3] vectors; a value is an integer array with a  *)
(* physical dimension `deg` (the concrete entries are v * unit^deg), so that  *)
(* every program is also a dimensional-analysis check.                        *)
EXTENDS Shapes, Wire

CONSTANTS OPS,      \* the operations of this configuration
          NS,       \* dimensions
          HI        \* entries of loaded literals are in -HI..HI

VARIABLES n, u, M, W, step, ev
vars == <<n, u, M, W, step, ev>>

Bound == 1000000
NM == 3
Val(v, d) == [v |-> v, deg |-> d]
ValOK(x) == MaxAbs(x) <= Bound

Init == /\ n \in NS
        /\ u \in {0, -9, 11, -60, 60}
        /\ M = [i \in 1..NM |-> Val(MZero(n), 1)]
        /\ W = [i \in 1..NM |-> Val(VZero(n), 1)]
        /\ step = 0
        /\ ev = <<>>
Start == ev' = EvNew(u, IF u = 0 THEN AllT ELSE IF Abs(u) > 20 THEN <<"f64">> ELSE Floats) /\ UNCHANGED <<M, W>>

RM(i) == R(i - 1)          \* replay registers: matrices 0..2, vectors 3..5
RW(i) == R(i + 2)
ExpM(x) == Deg(Mat(x.v), x.deg)
ExpW(x) == Deg(Vec(x.v), x.deg)

\* ---- loading literals
LoadM(i) == \E y0 \in {RandM(n, -HI, HI)} : \E h \in Pick(0..(2 * NShapes)) : \E X \in {RandM(n, -2, 2)} : \E N \in {RandM(n, -1, 1)} :
  \E z \in {RandV(n, 1, 36)} : \E w \in {RandV(n, -1, 1)} : \E s \in Pick(1..n) :
  LET y == IF h > NShapes \/ HI <= 2 THEN y0 ELSE Shape(n, h, X, N, z, w, s).m      \* any matrix, or one with structure
      x == Val(y, 1) IN
  /\ M' = [M EXCEPT ![i] = x]
  /\ ev' = To(Exp(Ev("id", <<ExpM(x)>>), ExpM(x)), i - 1)
  /\ UNCHANGED W
LoadW(i) == \E y \in {RandV(n, -HI, HI)} : LET x == Val(y, 1) IN
  /\ W' = [W EXCEPT ![i] = x]
  /\ ev' = To(Exp(Ev("id", <<ExpW(x)>>), ExpW(x)), i + 2)
  /\ UNCHANGED M

\* ---- operations. Assign: the result is also the new content of register d
AssignM(op, args, x, d) ==
  /\ MMaxAbs(x.v) <= Bound
  /\ M' = [M EXCEPT ![d] = x]
  /\ ev' = To(Exp(Ev(op, args), ExpM(x)), d - 1)
  /\ UNCHANGED W
AssignW(op, args, x, d) ==
  /\ MaxAbs(x.v) <= Bound
  /\ W' = [W EXCEPT ![d] = x]
  /\ ev' = To(Exp(Ev(op, args), ExpW(x)), d + 2)
  /\ UNCHANGED M
Observe(e) == ev' = e /\ UNCHANGED <<M, W>>

Small(a, b) == n * a * b <= 8 * Bound

AddM(op, i, j, d) == M[i].deg = M[j].deg /\ AssignM(op, <<RM(i), RM(j)>>, Val(MAdd(M[i].v, M[j].v), M[i].deg), d)
SubM(op, i, j, d) == M[i].deg = M[j].deg /\ AssignM(op, <<RM(i), RM(j)>>, Val(MSub(M[i].v, M[j].v), M[i].deg), d)
NegM(i, d) == AssignM("neg", <<RM(i)>>, Val(MNeg(M[i].v), M[i].deg), d)
MulsM(i, s, d) == Abs(s) * MMaxAbs(M[i].v) <= Bound /\ AssignM("muls", <<RM(i), Scl(s)>>, Val(MScale(M[i].v, s), M[i].deg), d)
\* the scalar may itself carry the unit
MulsUM(i, s, d) == M[i].deg < 2 /\ Abs(s) * MMaxAbs(M[i].v) <= Bound
                   /\ AssignM("muls", <<RM(i), Deg(Scl(s), 1)>>, Val(MScale(M[i].v, s), M[i].deg + 1), d)
DivsM(i, s, d) == MGcd(M[i].v) % Abs(s) = 0 /\ AssignM("divs", <<RM(i), Scl(s)>>, Val(MDivI(M[i].v, s), M[i].deg), d)
LTypes == IF n = 3 THEN <<"f64", "f32">> ELSE <<"f32">>
LmulsM(i, s) == n \in {2, 3} /\ Observe(For(Exp(Ev("lmuls", <<Scl(s), RM(i)>>), ExpM(Val(MScale(M[i].v, s), M[i].deg))), LTypes))
ZeroM(op, d) == AssignM(op, <<RM(d)>>, Val(MZero(n), 1), d)
OneM(op, d) == AssignM(op, <<RM(d)>>, Val(MId(n), 0), d)
IsZeroM(i) == Observe(Exp(Ev("is_zero", <<RM(i)>>), Boo(M[i].v = MZero(n))))
Same(x, y, z) == x.v = y.v /\ (u = 0 \/ x.deg = y.deg \/ x.v = z)
EqM(i, j) == Observe(Exp(Ev("eq", <<RM(i), RM(j)>>), Boo(Same(M[i], M[j], MZero(n)))))
\* almost equal operands: one entry differs
EqM1(i) == \E r \in Pick(1..n) : \E c \in Pick(1..n) :
           LET y == TLCEval([M[i].v EXCEPT ![r][c] = @ + 1]) IN
           Observe(Exp(Ev("eq", <<RM(i), Deg(Mat(y), M[i].deg)>>), Boo(FALSE)))
EqW1(i) == \E r \in Pick(1..n) :
           LET y == TLCEval([W[i].v EXCEPT ![r] = @ + 1]) IN
           Observe(Exp(Ev("eq", <<RW(i), Deg(Vec(y), W[i].deg)>>), Boo(FALSE)))
ReadM(i) == Observe(Exp(Ev("id", <<RM(i)>>), ExpM(M[i])))
ReadW(i) == Observe(Exp(Ev("id", <<RW(i)>>), ExpW(W[i])))

AddW(op, i, j, d) == W[i].deg = W[j].deg /\ AssignW(op, <<RW(i), RW(j)>>, Val(VAdd(W[i].v, W[j].v), W[i].deg), d)
SubW(op, i, j, d) == W[i].deg = W[j].deg /\ AssignW(op, <<RW(i), RW(j)>>, Val(VSub(W[i].v, W[j].v), W[i].deg), d)
NegW(i, d) == AssignW("neg", <<RW(i)>>, Val(VNeg(W[i].v), W[i].deg), d)
MulsW(i, s, d) == Abs(s) * MaxAbs(W[i].v) <= Bound /\ AssignW("muls", <<RW(i), Scl(s)>>, Val(VScale(W[i].v, s), W[i].deg), d)
DivsW(i, s, d) == GcdSeq(W[i].v) % Abs(s) = 0 /\ AssignW("divs", <<RW(i), Scl(s)>>, Val(VDivI(W[i].v, s), W[i].deg), d)
LmulsW(i, s) == Observe(For(Exp(Ev("lmuls", <<Scl(s), RW(i)>>), ExpW(Val(VScale(W[i].v, s), W[i].deg))), LTypes))
ZeroW(op, d) == AssignW(op, <<RW(d)>>, Val(VZero(n), 1), d)
IsZeroW(i) == Observe(Exp(Ev("is_zero", <<RW(i)>>), Boo(W[i].v = VZero(n))))
EqW(i, j) == Observe(Exp(Ev("eq", <<RW(i), RW(j)>>), Boo(Same(W[i], W[j], VZero(n)))))

MulMM(i, j, d) == /\ M[i].deg + M[j].deg <= 3 /\ Small(MMaxAbs(M[i].v), MMaxAbs(M[j].v))
                  /\ AssignM("mul", <<RM(i), RM(j)>>, Val(MMul(M[i].v, M[j].v), M[i].deg + M[j].deg), d)
MulMV(i, j, d) == /\ M[i].deg + W[j].deg <= 3 /\ Small(MMaxAbs(M[i].v), MaxAbs(W[j].v))
                  /\ AssignW("mul", <<RM(i), RW(j)>>, Val(MVec(M[i].v, W[j].v), M[i].deg + W[j].deg), d)
MulVM(i, j, d) == /\ M[i].deg + W[j].deg <= 3 /\ Small(MMaxAbs(M[i].v), MaxAbs(W[j].v))
                  /\ AssignW("mul", <<RW(j), RM(i)>>, Val(VMat(W[j].v, M[i].v), M[i].deg + W[j].deg), d)

\* the product of two vectors is their dot product
MulWW(i, j) == /\ W[i].deg + W[j].deg <= 3 /\ Small(MaxAbs(W[i].v), MaxAbs(W[j].v))
               /\ Observe(Exp(Ev("mul", <<RW(i), RW(j)>>), Deg(Scl(Dot(W[i].v, W[j].v)), W[i].deg + W[j].deg)))

Scalars == {-3, -2, -1, 0, 1, 2, 3, 7}
DivS == {-7, -3, -2, -1, 1, 2, 3, 5}

Do(o, i, j, d, s, t) ==
  \/ o = "loadM" /\ LoadM(d)
  \/ o = "loadW" /\ LoadW(d)
  \/ o = "addM" /\ AddM("add", i, j, d)
  \/ o = "addassignM" /\ AddM("addassign", i, j, i)
  \/ o = "subM" /\ SubM("sub", i, j, d)
  \/ o = "subassignM" /\ SubM("subassign", i, j, i)
  \/ o = "negM" /\ NegM(i, d)
  \/ o = "mulsM" /\ MulsM(i, s, d)
  \/ o = "mulsUM" /\ MulsUM(i, s, d)
  \/ o = "divsM" /\ DivsM(i, t, d)
  \/ o = "lmulsM" /\ LmulsM(i, s)
  \/ o = "zeroM" /\ (ZeroM("zero", d) \/ ZeroM("zero_t", d))
  \/ o = "oneM" /\ (OneM("one", d) \/ OneM("one_t", d))
  \/ o = "iszeroM" /\ IsZeroM(i)
  \/ o = "eqM" /\ (EqM(i, j) \/ EqM(i, i) \/ EqM1(i))
  \/ o = "addW" /\ AddW("add", i, j, d)
  \/ o = "addassignW" /\ AddW("addassign", i, j, i)
  \/ o = "subW" /\ SubW("sub", i, j, d)
  \/ o = "subassignW" /\ SubW("subassign", i, j, i)
  \/ o = "negW" /\ NegW(i, d)
  \/ o = "mulsW" /\ MulsW(i, s, d)
  \/ o = "divsW" /\ DivsW(i, t, d)
  \/ o = "lmulsW" /\ LmulsW(i, s)
  \/ o = "zeroW" /\ (ZeroW("zero", d) \/ ZeroW("zero_t", d))
  \/ o = "iszeroW" /\ IsZeroW(i)
  \/ o = "eqW" /\ (EqW(i, j) \/ EqW(i, i) \/ EqW1(i))
  \/ o = "mulMM" /\ MulMM(i, j, d)
  \/ o = "mulMV" /\ MulMV(i, j, d)
  \/ o = "mulVM" /\ MulVM(i, j, d)
  \/ o = "mulWW" /\ MulWW(i, j)
  \* nothing else may have moved: read a register back
  \/ o = "readM" /\ ReadM(i)
  \/ o = "readW" /\ ReadW(i)

Next == /\ step' = step + 1
        /\ UNCHANGED <<n, u>>
        /\ IF step = 0 THEN Start
           ELSE IF step <= NM THEN LoadM(step)
           ELSE IF step <= 2 * NM THEN LoadW(step - NM)
           ELSE \E o \in Pick(OPS) :
                \E a \in Pick(1..NM) : \E b \in Pick(1..NM) : \E d \in Pick(1..NM) :
                \E s \in Pick(Scalars) : \E t \in Pick(DivS) :
                IF ENABLED Do(o, a, b, d, s, t) THEN Do(o, a, b, d, s, t)
                ELSE LoadM(d)        \* keep the history going with fresh data

Spec == Init /\ [][Next]_vars

\* ---- what is printed, and the theorems of the model itself
Emit == step = 0 \/ Out(ev)
\* (on the state in which all registers are loaded, and again along the history)
Laws == step \notin {2 * NM + 1, 20} \/
  LET a == M[1].v  b == M[2].v  c == M[3].v  w == W[1].v IN
  MMaxAbs(a) * MMaxAbs(b) > 1000 \/ MMaxAbs(c) > 1000 \/ MaxAbs(w) > 1000 \/
  ( /\ MMul(MMul(a, b), c) = MMul(a, MMul(b, c))
    /\ MMul(a, MAdd(b, c)) = MAdd(MMul(a, b), MMul(a, c))
    /\ Transpose(MMul(a, b)) = MMul(Transpose(b), Transpose(a))
    /\ VMat(w, a) = MVec(Transpose(a), w)
    /\ MVec(MMul(a, b), w) = MVec(a, MVec(b, w)) )
=============================================================================
