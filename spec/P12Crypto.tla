------------------------------ MODULE P12Crypto ------------------------------
(* What PKCS#12 stores are protected with: the key derivation of RFC 7292   *)
(* (appendix B.2), RC2 (RFC 2268) and triple DES (FIPS 46-3), in CBC mode.  *)
(* spec/java/P12Crypto.java replaces P12KDF, RC2CBC and DES3CBC; SelfCheck     *)
(* compares.                                                                *)
EXTENDS Hashes

LOCAL Words16 == [j \in 0..16 |-> 2^j]
----------------------------------------------------------------------------
(* RC2.  A key schedule is 64 words of 16 bits. *)
PiTable == <<
  217, 120, 249, 196, 25, 221, 181, 237, 40, 233, 253, 121, 74, 160, 216, 157, 198, 126, 55, 131, 43, 118, 83, 142, 98, 76, 100, 136, 68, 139, 251, 162,
  23, 154, 89, 245, 135, 179, 79, 19, 97, 69, 109, 141, 9, 129, 125, 50, 189, 143, 64, 235, 134, 183, 123, 11, 240, 149, 33, 34, 92, 107, 78, 130,
  84, 214, 101, 147, 206, 96, 178, 28, 115, 86, 192, 20, 167, 140, 241, 220, 18, 117, 202, 31, 59, 190, 228, 209, 66, 61, 212, 48, 163, 60, 182, 38,
  111, 191, 14, 218, 70, 105, 7, 87, 39, 242, 29, 155, 188, 148, 67, 3, 248, 17, 199, 246, 144, 239, 62, 231, 6, 195, 213, 47, 200, 102, 30, 215,
  8, 232, 234, 222, 128, 82, 238, 247, 132, 170, 114, 172, 53, 77, 106, 42, 150, 26, 210, 113, 90, 21, 73, 116, 75, 159, 208, 94, 4, 24, 164, 236,
  194, 224, 65, 110, 15, 81, 203, 204, 36, 145, 175, 80, 161, 244, 112, 57, 153, 124, 58, 133, 35, 184, 180, 122, 252, 2, 54, 91, 37, 85, 151, 49,
  45, 93, 250, 152, 227, 138, 146, 174, 5, 223, 41, 16, 103, 108, 186, 201, 211, 0, 230, 207, 225, 158, 168, 44, 99, 22, 1, 63, 88, 226, 137, 169,
  13, 56, 52, 27, 171, 51, 255, 176, 187, 72, 12, 95, 185, 177, 205, 46, 197, 243, 219, 71, 229, 165, 156, 119, 10, 166, 32, 104, 254, 127, 193, 173 >>
LOCAL Pi(j) == PiTable[(j % 256) + 1]
\* t1: the effective key length in bits
RC2Possible(keylen, t1) == keylen \in 1..128 /\ t1 \in 1..1024
RC2Schedule(key, t1) ==
    LET t8 == (t1 + 7) \div 8
        tm == 255 % 2^(8 + t1 - (8 * t8))
        \* L[0..127] as l[1..128]
        a == FoldLeft(LAMBDA l, j : Append(l, Pi(l[j - 1] + l[j - Len(key)])), key, [j \in 1..(128 - Len(key)) |-> Len(key) + j])
        b == [a EXCEPT ![128 - t8 + 1] = Pi(@ & tm)]
        c == FoldLeft(LAMBDA l, j : [l EXCEPT ![j + 1] = Pi(l[j + 2] ^^ l[j + t8 + 1])], b, [j \in 1..(128 - t8) |-> 128 - t8 - j])
    IN  [j \in 1..64 |-> c[(2 * j) - 1] + (256 * c[2 * j])]
LOCAL Rot == <<1, 2, 3, 5>>
LOCAL Rol(x, n) == ((x * Words16[n]) % 65536) + (x \div Words16[16 - n])
LOCAL Ror(x, n) == Rol(x, 16 - n)
LOCAL R(r, j) == r[((j + 7) % 4) + 1]        \* R[j], j any index from -4 on
\* mixing with word k (from 0) into R[i], i = k mod 4
LOCAL Mix(K, r, k) ==
    LET i == (k % 4) + 1
        x == r[i] + K[k + 1] + (R(r, i - 1) & R(r, i - 2)) + ((65535 - R(r, i - 1)) & R(r, i - 3))
    IN  [r EXCEPT ![i] = Rol(x % 65536, Rot[i])]
LOCAL Mash(K, r) == FoldLeft(LAMBDA s, i : [s EXCEPT ![i] = (@ + K[(R(s, i - 1) % 64) + 1]) % 65536], r, <<1, 2, 3, 4>>)
LOCAL Mixes(K, r, from, to) == FoldLeft(LAMBDA s, k : Mix(K, s, k), r, [j \in 1..(to - from + 1) |-> from + j - 1])
LOCAL Unmix(K, r, k) ==
    LET i == (k % 4) + 1
        x == Ror(r[i], Rot[i]) - K[k + 1] - (R(r, i - 1) & R(r, i - 2)) - ((65535 - R(r, i - 1)) & R(r, i - 3))
    IN  [r EXCEPT ![i] = (x + 262144) % 65536]
LOCAL Unmash(K, r) == FoldLeft(LAMBDA s, i : [s EXCEPT ![i] = (@ + 65536 - K[(R(s, i - 1) % 64) + 1]) % 65536], r, <<4, 3, 2, 1>>)
LOCAL Unmixes(K, r, from, to) == FoldLeft(LAMBDA s, k : Unmix(K, s, k), r, [j \in 1..(from - to + 1) |-> from - j + 1])
LOCAL In4(b) == [j \in 1..4 |-> b[(2 * j) - 1] + (256 * b[2 * j])]
LOCAL Out4(r) == FlattenSeq([j \in 1..4 |-> <<r[j] % 256, r[j] \div 256>>])
RC2Encrypt(K, blk) == Out4(Mixes(K, Mash(K, Mixes(K, Mash(K, Mixes(K, In4(blk), 0, 19)), 20, 43)), 44, 63))
RC2Decrypt(K, blk) == Out4(Unmixes(K, Unmash(K, Unmixes(K, Unmash(K, Unmixes(K, In4(blk), 63, 44)), 43, 20)), 19, 0))

----------------------------------------------------------------------------
(* DES, on sequences of bits *)
LOCAL Bits(b) == FlattenSeq([j \in 1..Len(b) |-> [k \in 1..8 |-> (b[j] \div Words16[8 - k]) % 2]])
LOCAL Octets(s) == [j \in 1..(Len(s) \div 8) |-> FoldLeft(LAMBDA acc, k : (2 * acc) + s[(8 * (j - 1)) + k], 0, [k \in 1..8 |-> k])]
LOCAL Perm(tab, s) == [j \in 1..Len(tab) |-> s[tab[j]]]
LOCAL XorBits(s, t) == [j \in 1..Len(s) |-> (s[j] + t[j]) % 2]
LOCAL IP == [j \in 1..64 |-> LET row == (j - 1) \div 8 col == (j - 1) % 8
                             IN  (IF row < 4 THEN (2 * row) + 2 ELSE (2 * (row - 4)) + 1) + (8 * (7 - col))]
LOCAL FP == [j \in 1..64 |-> CHOOSE k \in 1..64 : IP[k] = j]
LOCAL EX == [j \in 1..48 |-> LET g == (j - 1) \div 6 k == (j - 1) % 6 IN (((4 * g) + k + 31) % 32) + 1]
LOCAL PP == <<16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25>>
LOCAL PC1 == <<57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,
               63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4>>
LOCAL PC2 == <<14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,
               41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32>>
LOCAL Shifts == <<1, 2, 4, 6, 8, 10, 12, 14, 15, 17, 19, 21, 23, 25, 27, 28>>     \* totals
LOCAL SBox == <<
  <<14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13>>,
  <<15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9>>,
  <<10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12>>,
  <<7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14>>,
  <<2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3>>,
  <<12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13>>,
  <<4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12>>,
  <<13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11>> >>
LOCAL SubKeys(key) ==
    LET cd == Perm(PC1, Bits(key))
        half(o, n) == [j \in 1..28 |-> cd[o + ((j - 1 + n) % 28) + 1]]
    IN  [r \in 1..16 |-> Perm(PC2, half(0, Shifts[r]) \o half(28, Shifts[r]))]
LOCAL F(rr, k) ==
    LET x == XorBits(Perm(EX, rr), k)
        s == FlattenSeq([g \in 1..8 |->
                LET o == 6 * (g - 1)
                    v == SBox[g][(16 * ((2 * x[o + 1]) + x[o + 6])) + (8 * x[o + 2]) + (4 * x[o + 3]) + (2 * x[o + 4]) + x[o + 5] + 1]
                IN  <<v \div 8, (v \div 4) % 2, (v \div 2) % 2, v % 2>>])
    IN  Perm(PP, s)
LOCAL Des(keys, s) ==
    LET x == Perm(IP, s)
        lr == FoldLeft(LAMBDA a, k : <<a[2], XorBits(a[1], F(a[2], k))>>, <<SubSeq(x, 1, 32), SubSeq(x, 33, 64)>>, keys)
    IN  Perm(FP, lr[2] \o lr[1])
LOCAL Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
LOCAL K3(key) == [j \in 1..3 |-> SubKeys(SubSeq(key, (8 * j) - 7, 8 * j))]
DES3Decrypt(key, blk) == LET k == K3(key) IN Octets(Des(Rev(k[1]), Des(k[2], Des(Rev(k[3]), Bits(blk)))))
DES3Encrypt(key, blk) == LET k == K3(key) IN Octets(Des(k[3], Des(Rev(k[2]), Des(k[1], Bits(blk)))))

----------------------------------------------------------------------------
(* CBC decryption of whole blocks of 8 *)
LOCAL XorO(s, t) == [j \in 1..Len(s) |-> s[j] ^^ t[j]]
LOCAL Blk(b, j) == SubSeq(b, (8 * j) - 7, 8 * j)
LOCAL Cbc(D(_), iv, b) == FlattenSeq([j \in 1..(Len(b) \div 8) |-> XorO(D(Blk(b, j)), IF j = 1 THEN iv ELSE Blk(b, j - 1))])
RC2CBCDef(key, t1, iv, b) == LET K == RC2Schedule(key, t1) IN Cbc(LAMBDA x : RC2Decrypt(K, x), iv, b)
DES3CBCDef(key, iv, b) == Cbc(LAMBDA x : DES3Decrypt(key, x), iv, b)
RC2CBC(key, t1, iv, b) == RC2CBCDef(key, t1, iv, b)
DES3CBC(key, iv, b) == DES3CBCDef(key, iv, b)

----------------------------------------------------------------------------
(* RFC 7292, B.2, with SHA-1: u = 20 octets, v = 64 octets; r >= 1 *)
LOCAL Fill(s) == IF s = <<>> THEN <<>> ELSE [j \in 1..(64 * ((Len(s) + 63) \div 64)) |-> s[((j - 1) % Len(s)) + 1]]
LOCAL HashR(m, r) == FoldLeft(LAMBDA acc, j : SHA1Def(acc), m, [j \in 1..r |-> j])
\* (x + y + 1) mod 2^512, big-endian
LOCAL AddOne(x, y) == FoldLeft(LAMBDA acc, j : LET t == x[65 - j] + y[65 - j] + acc[2] IN << <<t % 256>> \o acc[1], t \div 256 >>,
                               << <<>>, 1 >>, [j \in 1..64 |-> j])[1]
LOCAL StepC(I, A1) == LET B == [j \in 1..64 |-> A1[((j - 1) % 20) + 1]]
                      IN  FlattenSeq([j \in 1..(Len(I) \div 64) |-> AddOne(SubSeq(I, (64 * j) - 63, 64 * j), B)])
P12KDFDef(id, salt, pw, r, n) ==
    LET D == [j \in 1..64 |-> id]
        c == (n + 19) \div 20
        res == FoldLeft(LAMBDA acc, j : LET A1 == HashR(D \o acc[2], r) IN <<acc[1] \o A1, IF j < c THEN StepC(acc[2], A1) ELSE <<>> >>,
                        << <<>>, Fill(salt) \o Fill(pw) >>, [j \in 1..c |-> j])
    IN  SubSeq(res[1], 1, n)
P12KDF(id, salt, pw, r, n) == P12KDFDef(id, salt, pw, r, n)
=============================================================================
