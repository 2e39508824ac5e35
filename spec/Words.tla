------------------------------- MODULE Words -------------------------------
(* 32-bit words as <<high 16 bits, low 16 bits>>: TLC integers are 32-bit   *)
(* signed, so a word does not fit in one of them.                           *)
EXTENDS Integers, Sequences, Bitwise

XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrW(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
NotW(a)    == <<65535 - a[1], 65535 - a[2]>>

AddW(a, b) ==
    LET lo == a[2] + b[2]
        hi == a[1] + b[1] + (lo \div 65536)
    IN  <<hi % 65536, lo % 65536>>

LOCAL Pow2 == [i \in 0..16 |-> 2^i]

\* rotate left by n bits
Rot(a, n) ==
    LET m == n % 32
        x == IF m >= 16 THEN a[2] ELSE a[1]
        y == IF m >= 16 THEN a[1] ELSE a[2]
        k == m % 16
    IN  << ((x * Pow2[k]) % 65536) + (y \div Pow2[16 - k]),
           ((y * Pow2[k]) % 65536) + (x \div Pow2[16 - k]) >>

\* shift right by n bits
ShrW(a, n) ==
    IF n >= 16 THEN <<0, a[1] \div Pow2[n - 16]>>
    ELSE << a[1] \div Pow2[n],
            ((a[1] % Pow2[n]) * Pow2[16 - n]) + (a[2] \div Pow2[n]) >>

\* the i-th (from 0) big-endian word of a byte sequence
WordAt(b, i) == <<b[4*i+1] * 256 + b[4*i+2], b[4*i+3] * 256 + b[4*i+4]>>

WordBytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
=============================================================================
