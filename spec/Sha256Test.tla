----------------------------- MODULE Sha256Test -----------------------------
EXTENDS Naturals, Sequences, TLC, Sha256, Sha256Fast
CONSTANT N
T(k) == [i \in 1..64 |-> (k * 131 + i * i * (k + 7) + (i * k) \div 3) % 256]
VARIABLE k
Init == k \in 0..N-1
Next == UNCHANGED k
Same == Digest(T(k)) = Digest64(T(k))
\* known answer: SHA-256 of 64 zero bytes, f5a5fd42d16a2030...
Zero == Digest64([i \in 1..64 |-> 0]) = <<
  245, 165, 253, 66, 209, 106, 32, 48, 39, 152, 239, 110, 211, 9, 151, 155,
  67, 0, 61, 35, 32, 217, 240, 232, 234, 152, 49, 169, 39, 89, 251, 75>>
ASSUME Zero
=============================================================================
