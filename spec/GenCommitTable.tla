---- MODULE GenCommitTable ----
(* Prints a table of GenCommit. *)
EXTENDS GenCommit
ASSUME \A s \in Table : PrintT(ToJson(s))
============================
