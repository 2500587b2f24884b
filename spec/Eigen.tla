-------------------------------- MODULE Eigen --------------------------------
(* The two eigenvalues of a 2x2 matrix. The machine moves a matrix along the   *)
(* transformations whose effect on the spectrum is known: similarities and     *)
(* transposition keep it, a multiple of the identity shifts it, a factor        *)
(* scales it.                                                                   *)
EXTENDS Lin, Machine

CONSTANTS LIM      \* exhaustive: entries in -LIM..LIM

VARIABLES u, A, tr, dt      \* tr, dt: trace and determinant carried along the history
vars == <<step, out, u, A, tr, dt>>

Disc(t, d) == t * t - 4 * d
Half(x, y, s) == NDiv(NAdd(x, NMul(s, y)), 2)
EigX(t, d) == LET D == Disc(t, d) IN
              IF D < 0 THEN NoneV ELSE Deg(Vec(<< Half(t, NRt(1, D, 1), 1), Half(t, NRt(1, D, 1), -1) >>), 1)
Obs(B, t, d) ==
  << Exp(Ev("real_eigenvals", <<Deg(Mat(B), 1)>>), EigX(t, d)) >>
Types(w) == IF Abs(w) > 20 THEN <<"f64">> ELSE Floats

InitS == SIM /\ u \in {0, -6, 9, -20, 20, 120, -120} /\ step = 0 /\ out = <<>> /\ A = MId(2) /\ tr = 2 /\ dt = 1
InitX == /\ ~SIM /\ u = 0 /\ step = 0 /\ A \in [1..2 -> [1..2 -> (-LIM)..LIM]] /\ tr = Trace(A) /\ dt = Det(A)
         /\ out = <<EvNew(0, Floats)>> \o Obs(A, tr, dt)
Init == InitS \/ InitX
Set(B, t, d) == A' = B /\ tr' = t /\ dt' = d /\ out' = Obs(B, t, d)
Drw(h, a, b, c, d) == IF h = 0 THEN <<<<a, b>>, <<c, d>>>>                    \* anything
                      ELSE IF h = 1 THEN <<<<a, b>>, <<b, d>>>>               \* symmetric
                      ELSE IF h = 2 THEN <<<<a, b>>, <<0, a>>>>               \* a Jordan block
                      ELSE IF h = 3 THEN <<<<a, b>>, <<-b, a>>>>              \* a rotation
                      ELSE IF h = 4 THEN <<<<a, 0>>, <<0, d>>>>
                      ELSE IF h = 5 THEN <<<<a, 2 * a>>, <<b, 2 * b>>>>       \* singular
                      ELSE <<<<a, 0>>, <<c, a>>>>
Load == \E h \in Pick(0..6) : \E w \in Pick({3, 30, 99}) : \E v \in {RandV(4, -w, w)} :
        LET B == Drw(h, v[1], v[2], v[3], v[4]) IN Set(B, Trace(B), Det(B))
\* similarity by the shear E(i, j, s), its inverse, and the swap
Sim(B, i, s) == LET P == IF i = 1 THEN <<<<1, s>>, <<0, 1>>>> ELSE <<<<1, 0>>, <<s, 1>>>>
                    Q == IF i = 1 THEN <<<<1, -s>>, <<0, 1>>>> ELSE <<<<1, 0>>, <<-s, 1>>>> IN MMul(MMul(P, B), Q)
Fits(B) == MMaxAbs(B) <= 900
Move(o, s, i) ==
  LET B == IF o = "sim" THEN Sim(A, i, s) ELSE IF o = "transpose" THEN Transpose(A) ELSE IF o = "shift" THEN MAdd(A, MScale(MId(2), s))
           ELSE IF o = "scale" THEN MScale(A, s) ELSE <<<<A[2][2], A[2][1]>>, <<A[1][2], A[1][1]>>>> IN
  IF ~Fits(B) THEN Load
  ELSE IF o = "shift" THEN Set(B, tr + 2 * s, dt + s * tr + s * s)
  ELSE IF o = "scale" THEN Set(B, s * tr, s * s * dt)
  ELSE Set(B, tr, dt)
Next == /\ SIM /\ step' = step + 1 /\ UNCHANGED u
        /\ IF step = 0 THEN UNCHANGED <<A, tr, dt>> /\ out' = <<EvNew(u, Types(u))>>
           ELSE \E o \in Pick({"load", "load", "sim", "transpose", "shift", "scale", "swap"}) : \E s \in Pick({-3, -2, -1, 1, 2, 5}) : \E i \in Pick({1, 2}) :
                IF o = "load" \/ step = 1 THEN Load ELSE Move(o, s, i)
Spec == Init /\ [][Next]_vars

\* the spectrum carried along the history is that of the matrix
Laws == tr = Trace(A) /\ dt = Det(A)
=============================================================================
