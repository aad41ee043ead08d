---------------------------------- MODULE Mta ----------------------------------
(* Multiplication of two additively shared secrets modulo Q: every pair of     *)
(* parties splits the product of their shares by an exchange under additively  *)
(* homomorphic encryption, whose plaintexts are numbers modulo the key N of    *)
(* the party that decrypts. A ciphertext is represented by its plaintext.      *)
EXTENDS Integers
CONSTANTS Q
\* B (share b, mask t) answers A's encrypted a
Answer(a, b, t, N) == (a * b + ((N - t) % N)) % N
\* A decrypts; the upper half stands for negative numbers
Decrypted(x, N) == IF x > N \div 2 THEN x - N ELSE x
Half(a, b, t, N) == Decrypted(Answer(a, b, t, N), N)
Big(N) == N \div 2 > Q * Q
=============================================================================
