---- MODULE GenCurveShared ----
(* Prints the scenarios of GenCurve with shared objects. *)
EXTENDS GenCurve
ASSUME \A s \in SharedTable : PrintT(ToJson(s))
===============================
