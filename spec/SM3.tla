-------------------------------- MODULE SM3 --------------------------------
(* SM3 (GM/T 0004-2012): padding, iteration, output, for byte sequences and *)
(* for long messages given as <<pattern, repetitions>>.                     *)
EXTENDS SM3CF

\* The 8-byte big-endian bit length of a message of  mb*2^20 + lo  bytes
\* (0 <= lo < 2^20): TLC integers end at 2^31-1, message lengths do not.
BitLen(mb, lo) ==
    LET l == lo * 8
        h == mb \div 2
    IN  << 0, h \div 16777216, (h \div 65536) % 256, (h \div 256) % 256, h % 256,
           (l \div 65536) + 128 * (mb % 2), (l \div 256) % 256, l % 256 >>

\* what is appended to a message of mb*2^20 + lo bytes
Padding(mb, lo) ==
    <<128>> \o [i \in 1..((55 - lo) % 64) |-> 0] \o BitLen(mb, lo)

Out(v) == FlattenSeq([i \in 1..8 |-> WordBytes(v[i])])

BlockAt(m, i) == SubSeq(m, 64 * i - 63, 64 * i)

\* chaining value after the whole blocks of m
Blocks(v, m) ==
    FoldLeft(LAMBDA a, i : CF(a, BlockAt(m, i)), v, [i \in 1..(Len(m) \div 64) |-> i])

SM3Digest(m) ==
    LET n == Len(m)
    IN  Out(Blocks(IV, m \o Padding(n \div 1048576, n % 1048576)))

\* Digest of  pat repeated n times, followed by tail;  Len(pat) % 64 = 0,
\* and the total length is mb*2^20 + lo.
SM3Long(pat, n, tail, mb, lo) ==
    Out(Blocks(CFIter(IV, pat, n), tail \o Padding(mb, lo)))

\* ---- key derivation function of GM/T 0003.4 (5.4.3): klen bytes
BE32(i) == <<i \div 16777216, (i \div 65536) % 256, (i \div 256) % 256, i % 256>>
KDF(z, klen) ==
    SubSeq(FlattenSeq([i \in 1..((klen + 31) \div 32) |-> SM3Digest(z \o BE32(i))]), 1, klen)
=============================================================================
