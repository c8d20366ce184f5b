------------------------------- MODULE Bytes -------------------------------
(* Byte-sequence arithmetic used by every other module.                    *)
(* TLC integers are 32 bits wide, so anything that may need more than 30   *)
(* bits is represented as a big-endian sequence of bytes (ints 0..255).    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Byte == 0..255

\* 2^n as a table (TLC evaluates ^ through BigInteger-free pow, the table is faster)
P2 == [n \in 0..30 |-> 2^n]

Zeros(n) == [i \in 1..n |-> 0]
Fill(n, b) == [i \in 1..n |-> b]

\* the bits hi-n+1 .. hi of the non-negative int v placed in an n-bit member
\* contribution of member value v (n bits, most significant bit at position hi of
\* a 32-bit word) to byte number k (1 = most significant byte) of that word
\* Byte k holds word bits  (4-k)*8+7 .. (4-k)*8.
MemberByte(v, hi, n, k) ==
  LET lo   == hi - n + 1
      blo  == (4 - k) * 8
      bhi  == blo + 7
      l    == IF lo > blo THEN lo ELSE blo      \* overlap, low end
      h    == IF hi < bhi THEN hi ELSE bhi      \* overlap, high end
  IN IF h < l THEN 0
     ELSE ((v \div P2[l - lo]) % P2[h - l + 1]) * P2[l - blo]

\* members: sequence of records [v, hi, n]; ranges are disjoint
Word(members) ==
  [k \in 1..4 |-> FoldSeq(LAMBDA m, acc : acc + MemberByte(m.v, m.hi, m.n, k), 0, members)]

\* the member of width n with most significant bit hi of the 4-byte word w, n <= 30
Extract(w, hi, n) ==
  LET lo == hi - n + 1
      part(k) == LET blo == (4 - k) * 8
                     bhi == blo + 7
                     l == IF lo > blo THEN lo ELSE blo
                     h == IF hi < bhi THEN hi ELSE bhi
                 IN IF h < l THEN 0
                    ELSE ((w[k] \div P2[l - blo]) % P2[h - l + 1]) * P2[l - lo]
  IN part(1) + part(2) + part(3) + part(4)

\* big-endian encoding of a small int into n bytes
BE(v, n) == [i \in 1..n |-> IF (n - i) * 8 > 30 THEN 0 ELSE (v \div P2[(n - i) * 8]) % 256]
\* and back (only for values below 2^30)
FromBE(b) == FoldSeq(LAMBDA x, acc : acc * 256 + x, 0, b)

Sub(b, from, n) == SubSeq(b, from, from + n - 1)

\* number of bytes to add to reach a multiple of four
Pad4(n) == (4 - (n % 4)) % 4
Padded(b) == b \o Zeros(Pad4(Len(b)))

\* Concatenation of a sequence of byte sequences
Cat(ss) == FlattenSeq(ss)
=============================================================================
