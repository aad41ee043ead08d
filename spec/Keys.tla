---------------------------------- MODULE Keys ---------------------------------
(* The files of a committee. A private key is three positive numbers, written  *)
(* one after another as a length (two digits, the lower one first) and digits. *)
(* A member's file is an encoded private key and an identifier; the            *)
(* committee's file is a sequence of public keys and addresses.                *)
EXTENDS Integers, Sequences
CONSTANTS Base,         \* digits are 0..Base-1
          Num(_),       \* the number that is written in a sequence of digits, the highest first
          Nil           \* the number zero
Fail == [ok |-> FALSE, v |-> << >>]
RECURSIVE Fields(_, _)
\* k numbers that make up all of s
Fields(s, k) ==
    IF k = 0 THEN [ok |-> s = << >>, v |-> << >>]
    ELSE IF Len(s) < 2 THEN Fail
    ELSE LET l == s[1] + (Base * s[2])
         IN IF Len(s) < l + 2 THEN Fail
            ELSE LET x == Num(SubSeq(s, 3, l + 2))
                     r == Fields(SubSeq(s, l + 3, Len(s)), k - 1)
                 IN IF x = Nil \/ ~r.ok THEN Fail ELSE [ok |-> TRUE, v |-> <<x>> \o r.v]
Decode(s) == Fields(s, 3)
Field(digits) == <<Len(digits) % Base, Len(digits) \div Base>> \o digits
\* digits of the three numbers
Encode(d) == Field(d[1]) \o Field(d[2]) \o Field(d[3])

(* What a signer does with its two files: member is [ok, key, pid], committee  *)
(* a sequence of [ok, key, addr].                                              *)
Usable(member, committee) == /\ member.ok
                             /\ Len(committee) >= 2
                             /\ \A k \in DOMAIN committee : committee[k].ok
                             /\ member.pid \in 0..(Len(committee) - 1)
=============================================================================
