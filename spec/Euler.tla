-------------------------------- MODULE Euler --------------------------------
(* Euler angle sequences: products of three elementary rotations.             *)
EXTENDS Angle, Machine

CONSTANTS AL

VARIABLES ax, ay, az   \* the three angles, as (a, b) pairs: yaw, pitch, roll
vars == <<step, out, ax, ay, az>>

Seqs == <<"XYX", "XYZ", "XZX", "XZY", "YXY", "YXZ", "YZX", "YZY", "ZXY", "ZXZ", "none">>
E1(c, s) == IF c = "X" THEN QX(s[1], s[2]) ELSE IF c = "Y" THEN QY(s[1], s[2]) ELSE QZ(s[1], s[2])
Axes == [XYX |-> <<"X", "Y", "X">>, XYZ |-> <<"X", "Y", "Z">>, XZX |-> <<"X", "Z", "X">>, XZY |-> <<"X", "Z", "Y">>,
         YXY |-> <<"Y", "X", "Y">>, YXZ |-> <<"Y", "X", "Z">>, YZX |-> <<"Y", "Z", "X">>, YZY |-> <<"Y", "Z", "Y">>,
         ZXY |-> <<"Z", "X", "Y">>, ZXZ |-> <<"Z", "X", "Z">>, none |-> <<"Z", "Y", "X">>]
QSeq(s, x, y, z) == QMul(QMul(E1(Axes[s][1], x), E1(Axes[s][2], y)), E1(Axes[s][3], z))
T(p) == Scl(Th(p[1], p[2]))
SeqEv(s, x, y, z) == Exp(Ev("euler_to_rotation", <<T(x), T(y), T(z), Str(s)>>), RM(QSeq(s, x, y, z)))

Pos == << NQ(1, 4), 2, NQ(-7, 2) >>
\* |pitch| < 90 degrees, by at least 1 in 20; yaw and roll inside (-pi, pi) and not next to the ends
Regular(x, y, z) == y[1] > 0 /\ CosN(y[1], y[2]) * 20 >= DZ(y[1], y[2])
           /\ x[1] > 0 /\ z[1] > 0 /\ 30 * x[1] >= Abs(x[2]) /\ 30 * z[1] >= Abs(z[2])
Angles(x, y, z) == Tup(<<T(x), T(y), T(z)>>)
H(q) == LET RN == RotN(q) IN Mat([i \in 1..4 |-> [j \in 1..4 |-> IF i = 4 THEN IF j = 4 THEN 1 ELSE 0
                              ELSE IF j = 4 THEN Pos[i] ELSE NQ(RN[i][j], QN(q))]])
Obs(x, y, z) ==
  LET P == QSeq("none", x, y, z) IN
  [i \in 1..Len(Seqs) |-> SeqEv(Seqs[i], x, y, z)]
  \o << To(Exp(Ev("from_euler", <<T(x), T(y), T(z)>>), UQ(P)), 0),
        Exp(Ev("norm2", <<R(0)>>), Scl(1)),
        Exp(Ev("to_rotation", <<R(0)>>), RM(P)),
        To(Exp(Ev("euler_to_rotation", <<T(x), T(y), T(z), Str("none")>>), RM(P)), 1),
        \* extract and rebuild: from the code's own matrix, from the exact one, from the quaternion
        Exp(Ev("euler_rebuild", <<R(1)>>), RM(P)),
        Exp(Ev("euler_rebuild", <<RM(P)>>), RM(P)),
        Exp(Ev("euler_rebuild", <<R(0)>>), PM(UQ(P))),
        Exp(Ev("euler_rebuild", <<UQ(P)>>), PM(UQ(P))),
        Exp(Ev("get_parts", <<H(P)>>), Tup(<<PM(UQ(P)), Vec(Pos)>>)) >>
  \o (IF ~Regular(x, y, z) THEN <<>> ELSE
     << Exp(Ev("rotation_to_euler", <<R(1)>>), Angles(x, y, z)),
        Exp(Ev("rotation_to_euler", <<RM(P)>>), Angles(x, y, z)),
        Exp(Ev("to_euler", <<R(0)>>), Angles(x, y, z)) >>)

\* pitch = 90 degrees exactly, next to it, and half-turn yaw or roll
Z1(h) == IF h = 0 THEN RandV(2, -3, 3) ELSE IF h = 1 THEN RandV(2, -6, 6)
         ELSE TLCEval([i \in 1..2 |-> RandomElement({-1, 1})])
Z2(h) == IF h \in {0, 1} THEN RandV(2, -4, 4)
         ELSE IF h = 2 THEN TLCEval([i \in 1..2 |-> RandomElement({-1, 1})])              \* 90 degrees
         ELSE IF h = 3 THEN TLCEval(<<RandomElement({99, 100, 101}), RandomElement({-100, 100})>>)
         ELSE IF h = 4 THEN TLCEval(<<RandomElement({1000, 1001}), RandomElement({-1000, 1000})>>)
         ELSE TLCEval(<<RandomElement({40, 41}) , RandomElement({-1, 0, 1})>>)
InitS == SIM /\ ax = <<1, 0>> /\ ay = <<1, 0>> /\ az = <<1, 0>> /\ step = 0 /\ out = <<>>
A2 == {p \in ((-AL)..AL) \X ((-AL)..AL) : p # <<0, 0>> /\ (AL < 2 \/ Gcd(p[1], p[2]) = 1)}
InitX == ~SIM /\ ax \in A2 /\ ay \in A2 /\ az \in A2 /\ step = 0 /\ out = <<EvNew(0, Floats)>> \o Obs(ax, ay, az)
Init == InitS \/ InitX
Nz(p, q) == IF p = <<0, 0>> THEN q ELSE p
Set(x, y, z) == ax' = x /\ ay' = y /\ az' = z /\ out' = Obs(x, y, z)
Next == /\ SIM /\ step' = step + 1
        /\ IF step = 0 THEN UNCHANGED <<ax, ay, az>> /\ out' = <<EvNew(0, Floats)>>
           ELSE \E h \in Pick(0..2) : \E g \in Pick(0..5) : \E k \in Pick(0..2) :
                \E p \in {Z1(IF g = 4 /\ h = 1 THEN 0 ELSE h)} : \E q \in {Z2(g)} : \E r \in {Z1(IF g = 4 /\ k = 1 THEN 0 ELSE k)} :
                Set(Nz(p, <<2, -1>>), Nz(q, <<1, 1>>), Nz(r, <<1, 3>>))
Spec == Init /\ [][Next]_vars
\* a product of rotations is a rotation
Laws == \A s \in {"XYX", "YZX", "none"} : QN(QSeq(s, ax, ay, az)) = DZ(ax[1], ax[2]) * DZ(ay[1], ay[2]) * DZ(az[1], az[2])
=============================================================================
