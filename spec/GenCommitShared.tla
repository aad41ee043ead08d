---- MODULE GenCommitShared ----
(* Prints a table of GenCommit. *)
EXTENDS GenCommit
ASSUME \A s \in SharedTable : PrintT(ToJson(s))
============================
