------------------------------ MODULE Machine ------------------------------
(* The part common to all machines: a state carries the events (calls on the  *)
(* library, each with the outcome the model demands) of the step that led to  *)
(* it. They are printed when the state is visited, and replayed on the code.  *)
EXTENDS Wire

VARIABLES step,   \* position in the behaviour
          out     \* the events of the last step

Emit == OutAll(out)
=============================================================================
