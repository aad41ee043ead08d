---- MODULE GenCurveTable ----
(* Prints the table of GenCurve. *)
EXTENDS GenCurve
ASSUME \A s \in Table : PrintT(ToJson([steps |-> s, shared |-> FALSE]))
==============================
