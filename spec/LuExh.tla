-------------------------------- MODULE LuExh --------------------------------
(* Exhaustive generation: every non-singular matrix with entries in a small    *)
(* set (2x2, 3x3), and every permutation matrix times a triangular one.       *)
EXTENDS Lin, Machine
CONSTANTS NS, ENT
VARIABLES n, A
vars == <<step, out, n, A>>
Perm(m) == {p \in [1..m -> 1..m] : \A i, j \in 1..m : i # j => p[i] # p[j]}
\* every pivoting pattern: a permuted lower triangular matrix with dominant diagonal
Tri(m) == [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN 3 ELSE IF i > j THEN ((i + 2 * j) % 3) - 1 ELSE 0]]
Tru(m) == [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN 2 ELSE IF i < j THEN ((2 * i + j) % 3) - 1 ELSE 0]]
Init == /\ step = 0 /\ n \in NS
        /\ IF n <= 2 THEN A \in [1..n -> [1..n -> (-ENT)..ENT]]
           ELSE IF n = 3 THEN A \in [1..n -> [1..n -> {-1, 0, 1}]]
           ELSE \E p \in Perm(n) : A = LET T == MMul(Tri(n), Tru(n)) IN [i \in 1..n |-> T[p[i]]]
        /\ out = IF Det(A) = 0 THEN <<>> ELSE <<EvNew(0, Floats), Ev("lu_parts", << Mat(A) >>)>>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Laws == TRUE
=============================================================================
