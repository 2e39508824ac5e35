------------------------------- MODULE Hashes -------------------------------
(* MD5 (RFC 1321), SHA-1 and SHA-2 (FIPS 180-4), SHA-3 (FIPS 202),          *)
(* RIPEMD-160, HMAC (RFC 2104) and MGF1 (RFC 8017) on byte sequences.       *)
(* A word is a sequence of 16-bit limbs, most significant first: two limbs  *)
(* for 32-bit words, four for 64-bit words.                                 *)
(* spec/java/Hashes.java replaces the digests; SelfCheckPki compares.       *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

LOCAL P2 == [j \in 0..16 |-> 2^j]
LOCAL X(u, v) == [j \in 1..Len(u) |-> u[j] ^^ v[j]]
LOCAL A(u, v) == [j \in 1..Len(u) |-> u[j] & v[j]]
LOCAL O(u, v) == [j \in 1..Len(u) |-> u[j] | v[j]]
LOCAL N(u)    == [j \in 1..Len(u) |-> 65535 - u[j]]
LOCAL Add(u, v) ==
    FoldLeft(LAMBDA acc, j :
        LET t == u[Len(u) + 1 - j] + v[Len(u) + 1 - j] + acc[2]
        IN  << <<t % 65536>> \o acc[1], t \div 65536 >>,
        << <<>>, 0 >>, [j \in 1..Len(u) |-> j])[1]
LOCAL Sum(ws) == FoldLeft(Add, ws[1], SubSeq(ws, 2, Len(ws)))
\* rotate right, shift right
LOCAL RotR(u, n) ==
    LET L == Len(u)
        q == n \div 16
        k == n % 16
        at(j) == u[((j - 1 - q + 8 * L) % L) + 1]
    IN  [j \in 1..L |-> (at(j) \div P2[k]) + ((at(j - 1) % P2[k]) * P2[16 - k])]
LOCAL RotL(u, n) == RotR(u, (16 * Len(u)) - n)
LOCAL ShR(u, n) ==
    LET L == Len(u)
        q == n \div 16
        k == n % 16
        at(j) == IF j - q >= 1 THEN u[j - q] ELSE 0
    IN  [j \in 1..L |-> (at(j) \div P2[k]) + ((at(j - 1) % P2[k]) * P2[16 - k])]
\* big-endian octets <-> words of L limbs
LOCAL WAt(b, o, L) == [j \in 1..L |-> b[o + (2 * j) - 1] * 256 + b[o + (2 * j)]]
LOCAL WBytes(u) == FlattenSeq([j \in 1..Len(u) |-> <<u[j] \div 256, u[j] % 256>>])
LOCAL Zeros(n) == [j \in 1..n |-> 0]

\* 1 bit, zeros, length in bits (messages below 2^28 octets)
LOCAL LenBE(n) == <<(n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, (n * 8) % 256>>
LOCAL Reverse4(s) == <<s[4], s[3], s[2], s[1]>>
LOCAL PadZeros(n, blk, tail) == (((blk - ((n + 1 + tail) % blk)) % blk))
LOCAL PadBE(m, blk, tail) ==
    m \o <<128>> \o Zeros(PadZeros(Len(m), blk, tail) + tail - 4) \o LenBE(Len(m))
LOCAL PadLE(m) ==
    m \o <<128>> \o Zeros(PadZeros(Len(m), 64, 8)) \o Reverse4(LenBE(Len(m))) \o Zeros(4)

----------------------------------------------------------------------------
(* SHA-2 *)
LOCAL Ch(x, y, z)  == X(A(x, y), A(N(x), z))
LOCAL Maj(x, y, z) == X(X(A(x, y), A(x, z)), A(y, z))

LOCAL K256 == <<
  <<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>, <<14678,49755>>, <<23025,4593>>,
  <<37439,33444>>, <<43804,24277>>, <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>,
  <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>, <<58523,27073>>, <<61374,18310>>,
  <<4033,40390>>, <<9228,41420>>, <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>,
  <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>, <<50912,3059>>, <<54695,37191>>,
  <<1738,25425>>, <<5161,10599>>, <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>,
  <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>, <<41663,59553>>, <<43034,26187>>,
  <<49739,35696>>, <<51052,20899>>, <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>,
  <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>, <<14620,3251>>, <<20184,43594>>,
  <<23452,51791>>, <<26670,28659>>, <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>,
  <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>> >>
LOCAL K512 == <<
  <<17034,12184,55080,44578>>, <<28983,17553,9199,26061>>, <<46528,64463,60493,15151>>,
  <<59829,56229,33161,56252>>, <<14678,49755,62280,46392>>, <<23025,4593,46597,53273>>,
  <<37439,33444,44825,20379>>, <<43804,24277,55917,33048>>, <<55303,43672,41731,578>>,
  <<4739,23297,17776,28606>>, <<9265,34238,20196,45708>>, <<21772,32195,54783,46306>>,
  <<29374,23924,62075,35183>>, <<32990,45566,15126,38577>>, <<39900,1703,9671,4661>>,
  <<49563,61812,53097,9876>>, <<58523,27073,40689,19154>>, <<61374,18310,14415,9699>>,
  <<4033,40390,35724,54709>>, <<9228,41420,30636,40037>>, <<11753,11375,22827,629>>,
  <<19060,33962,28326,58499>>, <<23728,43484,48449,64468>>, <<30457,35034,33553,21429>>,
  <<38974,20818,61030,57259>>, <<43057,50797,11700,12816>>, <<45059,10184,39163,8511>>,
  <<48985,32711,48879,3812>>, <<50912,3059,15784,36802>>, <<54695,37191,37642,42789>>,
  <<1738,25425,57347,33391>>, <<5161,10599,2574,28272>>, <<10167,2693,18130,12284>>,
  <<11803,8504,23590,51494>>, <<19756,28156,23236,10989>>, <<21304,3347,40341,46047>>,
  <<25866,29524,35759,25566>>, <<30314,2747,15479,45736>>, <<33218,51502,18413,44774>>,
  <<37490,11397,5250,13627>>, <<41663,59553,19697,868>>, <<43034,26187,48194,12289>>,
  <<49739,35696,53496,38801>>, <<51052,20899,1620,48688>>, <<53650,59417,55023,21016>>,
  <<54937,1572,21861,43280>>, <<62478,13701,22385,8234>>, <<4202,41072,12987,53688>>,
  <<6564,49430,47314,53448>>, <<7735,27656,20801,43859>>, <<10056,30540,57230,60313>>,
  <<13488,48309,57755,18600>>, <<14620,3251,50633,23139>>, <<20184,43594,58177,35531>>,
  <<23452,51791,30563,58227>>, <<26670,28659,54962,47267>>, <<29839,33518,24047,45820>>,
  <<30885,25455,17175,12128>>, <<33992,30740,41456,43890>>, <<36039,520,6756,14828>>,
  <<37054,65530,9059,7720>>, <<42064,27883,56962,48617>>, <<48889,41975,45766,30997>>,
  <<50801,30962,58226,21291>>, <<51751,16078,59942,24988>>, <<53638,47303,8640,49671>>,
  <<60122,32214,52704,60190>>, <<62845,20351,61038,53624>>, <<1776,26538,29207,28602>>,
  <<2659,32197,41672,39078>>, <<4415,38916,48889,3502>>, <<7025,2869,4892,18203>>,
  <<10459,30709,8964,32132>>, <<13002,43899,16583,9363>>, <<15518,48650,5577,48828>>,
  <<17181,26564,39952,3404>>, <<19653,54462,52030,17078>>, <<22911,10652,64613,32298>>,
  <<24523,28587,15062,64236>>, <<27716,6540,19015,22551>> >>
LOCAL H224 == <<
  <<49413,40664>>, <<13948,54535>>, <<12400,56599>>, <<63246,22841>>, <<65472,2865>>, <<26712,5393>>, <<25849,36775>>, <<48890,20388>> >>
LOCAL H256 == <<
  <<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>, <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>> >>
LOCAL H384 == <<
  <<52155,40285,49413,40664>>, <<25242,10538,13948,54535>>, <<37209,346,12400,56599>>, <<5423,60632,63246,22841>>,
  <<26419,9831,65472,2865>>, <<36532,19079,26712,5393>>, <<56076,11789,25849,36775>>, <<18357,18461,48890,20388>> >>
LOCAL H512 == <<
  <<27145,58983,62396,51464>>, <<47975,44677,33994,42811>>, <<15470,62322,65172,63531>>, <<42319,62778,24349,14065>>,
  <<20750,21119,44518,33489>>, <<39685,26764,11070,27679>>, <<8067,55723,64321,48491>>, <<23520,52505,4990,8569>> >>

\* g = [L, K, S0, S1, s0, s1]: limbs, constants, rotation amounts
LOCAL G256 == [L |-> 2, K |-> K256, S0 |-> <<2, 13, 22>>, S1 |-> <<6, 11, 25>>, s0 |-> <<7, 18, 3>>, s1 |-> <<17, 19, 10>>]
LOCAL G512 == [L |-> 4, K |-> K512, S0 |-> <<28, 34, 39>>, S1 |-> <<14, 18, 41>>, s0 |-> <<1, 8, 7>>, s1 |-> <<19, 61, 6>>]
LOCAL Big(r, x)   == X(X(RotR(x, r[1]), RotR(x, r[2])), RotR(x, r[3]))
LOCAL Small(r, x) == X(X(RotR(x, r[1]), RotR(x, r[2])), ShR(x, r[3]))

LOCAL Sha2Block(g, h, b, o) ==
    LET w == FoldLeft(LAMBDA s, j :
                 Append(s, IF j <= 16 THEN WAt(b, o + ((j - 1) * 2 * g.L), g.L)
                           ELSE Sum(<<Small(g.s1, s[j - 2]), s[j - 7], Small(g.s0, s[j - 15]), s[j - 16]>>)),
                 <<>>, [j \in 1..Len(g.K) |-> j])
        r == FoldLeft(LAMBDA v, j :
                 LET t1 == Sum(<<v[8], Big(g.S1, v[5]), Ch(v[5], v[6], v[7]), g.K[j], w[j]>>)
                     t2 == Add(Big(g.S0, v[1]), Maj(v[1], v[2], v[3]))
                 IN  <<Add(t1, t2), v[1], v[2], v[3], Add(v[4], t1), v[5], v[6], v[7]>>,
                 h, [j \in 1..Len(g.K) |-> j])
    IN  [j \in 1..8 |-> Add(h[j], r[j])]
LOCAL Sha2(g, h0, m, out) ==
    LET blk == 32 * g.L
        b   == PadBE(m, blk, 4 * g.L)
        h   == FoldLeft(LAMBDA v, j : Sha2Block(g, v, b, (j - 1) * blk), h0, [j \in 1..(Len(b) \div blk) |-> j])
    IN  SubSeq(FlattenSeq([j \in 1..8 |-> WBytes(h[j])]), 1, out)

SHA224Def(m) == Sha2(G256, H224, m, 28)
SHA256Def(m) == Sha2(G256, H256, m, 32)
SHA384Def(m) == Sha2(G512, H384, m, 48)
SHA512Def(m) == Sha2(G512, H512, m, 64)

----------------------------------------------------------------------------
(* SHA-1 *)
LOCAL K1(j) == IF j <= 20 THEN <<23170, 31129>> ELSE IF j <= 40 THEN <<28377, 60321>>
               ELSE IF j <= 60 THEN <<36635, 48348>> ELSE <<51810, 49622>>
LOCAL F1(j, x, y, z) == IF j <= 20 THEN Ch(x, y, z) ELSE IF j \in 41..60 THEN Maj(x, y, z) ELSE X(X(x, y), z)
LOCAL Sha1Block(h, b, o) ==
    LET w == FoldLeft(LAMBDA s, j :
                 Append(s, IF j <= 16 THEN WAt(b, o + (4 * (j - 1)), 2)
                           ELSE RotL(X(X(s[j - 3], s[j - 8]), X(s[j - 14], s[j - 16])), 1)),
                 <<>>, [j \in 1..80 |-> j])
        r == FoldLeft(LAMBDA v, j :
                 <<Sum(<<RotL(v[1], 5), F1(j, v[2], v[3], v[4]), v[5], K1(j), w[j]>>), v[1], RotL(v[2], 30), v[3], v[4]>>,
                 h, [j \in 1..80 |-> j])
    IN  [j \in 1..5 |-> Add(h[j], r[j])]
SHA1Def(m) ==
    LET b == PadBE(m, 64, 8)
        h == FoldLeft(LAMBDA v, j : Sha1Block(v, b, (j - 1) * 64),
                 << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>> >>,
                 [j \in 1..(Len(b) \div 64) |-> j])
    IN  FlattenSeq([j \in 1..5 |-> WBytes(h[j])])

----------------------------------------------------------------------------
(* MD5: little-endian words *)
LOCAL T5 == <<
  <<55146,42104>>, <<59591,46934>>, <<9248,28891>>, <<49597,52974>>, <<62844,4015>>, <<18311,50730>>,
  <<43056,17939>>, <<64838,38145>>, <<27008,39128>>, <<35652,63407>>, <<65535,23473>>, <<35164,55230>>,
  <<27536,4386>>, <<64920,29075>>, <<42617,17294>>, <<18868,2081>>, <<63006,9570>>, <<49216,45888>>,
  <<9822,23121>>, <<59830,51114>>, <<54831,4189>>, <<580,5203>>, <<55457,59009>>, <<59347,64456>>,
  <<8673,52710>>, <<49975,2006>>, <<62677,3463>>, <<17754,5357>>, <<43491,59653>>, <<64751,41976>>,
  <<26479,729>>, <<36138,19594>>, <<65530,14658>>, <<34673,63105>>, <<28061,24866>>, <<64997,14348>>,
  <<42174,59972>>, <<19422,53161>>, <<63163,19296>>, <<48831,48240>>, <<10395,32454>>, <<60065,10234>>,
  <<54511,12421>>, <<1160,7429>>, <<55764,53305>>, <<59099,39397>>, <<8098,31992>>, <<50348,22117>>,
  <<62505,8772>>, <<17194,65431>>, <<43924,9127>>, <<64659,41017>>, <<25947,22979>>, <<36620,52370>>,
  <<65519,62589>>, <<34180,24017>>, <<28584,32335>>, <<65068,59104>>, <<41729,17172>>, <<19976,4513>>,
  <<63315,32386>>, <<48442,62005>>, <<10967,53947>>, <<60294,54161>> >>
LOCAL S5 == << <<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>> >>
LOCAL LAt(b, o) == <<b[o + 4] * 256 + b[o + 3], b[o + 2] * 256 + b[o + 1]>>
LOCAL LBytes(u) == <<u[2] % 256, u[2] \div 256, u[1] % 256, u[1] \div 256>>
LOCAL Md5Block(h, b, o) ==
    LET r == FoldLeft(LAMBDA v, j :            \* j from 0
                 LET q == j \div 16
                     f == IF q = 0 THEN Ch(v[2], v[3], v[4])
                          ELSE IF q = 1 THEN Ch(v[4], v[2], v[3])
                          ELSE IF q = 2 THEN X(X(v[2], v[3]), v[4])
                          ELSE X(v[3], O(v[2], N(v[4])))
                     k == IF q = 0 THEN j ELSE IF q = 1 THEN ((5 * j) + 1) % 16
                          ELSE IF q = 2 THEN ((3 * j) + 5) % 16 ELSE (7 * j) % 16
                     t == Sum(<<v[1], f, LAt(b, o + (4 * k)), T5[j + 1]>>)
                 IN  <<v[4], Add(v[2], RotL(t, S5[q + 1][(j % 4) + 1])), v[2], v[3]>>,
                 h, [j \in 1..64 |-> j - 1])
    IN  [j \in 1..4 |-> Add(h[j], r[j])]
MD5Def(m) ==
    LET b == PadLE(m)
        h == FoldLeft(LAMBDA v, j : Md5Block(v, b, (j - 1) * 64),
                 << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>,
                 [j \in 1..(Len(b) \div 64) |-> j])
    IN  FlattenSeq([j \in 1..4 |-> LBytes(h[j])])

----------------------------------------------------------------------------
(* SHA-512/t (FIPS 180-4, 5.3.6): the initial values are themselves digests *)
LOCAL H512t(name) ==
    LET h0 == [j \in 1..8 |-> X(H512[j], <<42405, 42405, 42405, 42405>>)]
        o  == Sha2(G512, h0, name, 64)
    IN  [j \in 1..8 |-> WAt(o, 8 * (j - 1), 4)]
LOCAL H512_224 == H512t(<<83, 72, 65, 45, 53, 49, 50, 47, 50, 50, 52>>)    \* "SHA-512/224"
LOCAL H512_256 == H512t(<<83, 72, 65, 45, 53, 49, 50, 47, 50, 53, 54>>)    \* "SHA-512/256"
SHA512_224Def(m) == Sha2(G512, H512_224, m, 28)
SHA512_256Def(m) == Sha2(G512, H512_256, m, 32)

----------------------------------------------------------------------------
(* SHA-3 (FIPS 202): 25 lanes of 64 bits, lane (x, y) at 1 + x + 5y         *)
LOCAL LaneBytes(u) == <<u[4] % 256, u[4] \div 256, u[3] % 256, u[3] \div 256, u[2] % 256, u[2] \div 256, u[1] % 256, u[1] \div 256>>
LOCAL LaneAt(b, o) == <<b[o + 8] * 256 + b[o + 7], b[o + 6] * 256 + b[o + 5], b[o + 4] * 256 + b[o + 3], b[o + 2] * 256 + b[o + 1]>>
\* rotation amounts: along (x, y) -> (y, 2x + 3y) from (1, 0)
LOCAL RhoPath == FoldLeft(LAMBDA s, t : Append(s, <<s[t][2], ((2 * s[t][1]) + (3 * s[t][2])) % 5>>), << <<1, 0>> >>, [t \in 1..23 |-> t])
LOCAL Rho == [i \in 1..25 |-> IF i = 1 THEN 0
              ELSE LET t == CHOOSE t \in 1..24 : 1 + RhoPath[t][1] + 5 * RhoPath[t][2] = i IN ((t * (t + 1)) \div 2) % 64]
\* the round constants: bits of an LFSR
LOCAL Lfsr == FoldLeft(LAMBDA s, t : LET v == 2 * s[t] IN Append(s, IF v >= 256 THEN v ^^ 369 ELSE v), <<1>>, [t \in 1..254 |-> t])
LOCAL RcBit(t) == Lfsr[1 + (t % 255)] % 2
LOCAL RC == [r \in 1..24 |->
    LET at(j) == RcBit(j + 7 * (r - 1))      \* bit 2^j - 1 of the lane
    IN  <<at(6) * 32768, 0, at(5) * 32768, at(4) * 32768 + at(3) * 128 + at(2) * 8 + at(1) * 2 + at(0)>>]
LOCAL At(s, x, y) == s[1 + (x % 5) + 5 * (y % 5)]
LOCAL Xi(i) == (i - 1) % 5
LOCAL Yi(i) == (i - 1) \div 5
LOCAL KeccakRound(s, r) ==
    LET c == [x \in 1..5 |-> X(X(X(X(s[x], s[x + 5]), s[x + 10]), s[x + 15]), s[x + 20])]
        d == [x \in 1..5 |-> X(c[((x + 3) % 5) + 1], RotL(c[(x % 5) + 1], 1))]
        a == [i \in 1..25 |-> X(s[i], d[Xi(i) + 1])]
        \* lane (y, 2x + 3y) of b is lane (x, y) of a rotated: x = X + 3Y, y = X for (X, Y)
        b == [i \in 1..25 |-> LET q == 1 + ((Xi(i) + 3 * Yi(i)) % 5) + 5 * Xi(i) IN IF Rho[q] = 0 THEN a[q] ELSE RotL(a[q], Rho[q])]
        e == [i \in 1..25 |-> X(b[i], A(N(At(b, Xi(i) + 1, Yi(i))), At(b, Xi(i) + 2, Yi(i))))]
    IN  [e EXCEPT ![1] = X(@, RC[r])]
LOCAL Keccak(s) == FoldLeft(KeccakRound, s, [r \in 1..24 |-> r])
LOCAL Sha3(m, out) ==
    LET rate == 200 - 2 * out
        q == rate - (Len(m) % rate)
        pad == IF q = 1 THEN <<134>> ELSE <<6>> \o Zeros(q - 2) \o <<128>>
        b == m \o pad
        s == FoldLeft(LAMBDA v, k : Keccak([i \in 1..25 |-> IF 8 * i <= rate THEN X(v[i], LaneAt(b, (k - 1) * rate + 8 * (i - 1))) ELSE v[i]]),
                 [i \in 1..25 |-> <<0, 0, 0, 0>>], [k \in 1..(Len(b) \div rate) |-> k])
    IN  SubSeq(FlattenSeq([i \in 1..8 |-> LaneBytes(s[i])]), 1, out)
SHA3_224Def(m) == Sha3(m, 28)
SHA3_256Def(m) == Sha3(m, 32)
SHA3_384Def(m) == Sha3(m, 48)
SHA3_512Def(m) == Sha3(m, 64)

----------------------------------------------------------------------------
(* RIPEMD-160: two lines of five rounds                                     *)
LOCAL RL == <<
  0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8, 3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,
  1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13 >>
LOCAL RR == <<
  5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2, 15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,
  8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11 >>
LOCAL SL == <<
  11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12, 11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,
  11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6 >>
LOCAL SR == <<
  8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11, 9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,
  15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11 >>
LOCAL KL == << <<0, 0>>, <<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<43347, 64846>> >>
LOCAL KR == << <<20642, 35814>>, <<23629, 53540>>, <<28016, 16115>>, <<31341, 30441>>, <<0, 0>> >>
\* the five functions
LOCAL FR(q, x, y, z) ==
    CASE q = 1 -> X(X(x, y), z) [] q = 2 -> O(A(x, y), A(N(x), z)) [] q = 3 -> X(O(x, N(y)), z)
      [] q = 4 -> O(A(x, z), A(y, N(z))) [] q = 5 -> X(x, O(y, N(z)))
LOCAL RmdLine(h, b, o, left) ==
    FoldLeft(LAMBDA v, j :
        LET q == 1 + ((j - 1) \div 16)
            t == Sum(<<v[1], FR(IF left THEN q ELSE 6 - q, v[2], v[3], v[4]), LAt(b, o + 4 * (IF left THEN RL[j] ELSE RR[j])), IF left THEN KL[q] ELSE KR[q]>>)
        IN  <<v[5], Add(RotL(t, IF left THEN SL[j] ELSE SR[j]), v[5]), v[2], RotL(v[3], 10), v[4]>>,
        h, [j \in 1..80 |-> j])
LOCAL RmdBlock(h, b, o) ==
    LET l == RmdLine(h, b, o, TRUE)
        r == RmdLine(h, b, o, FALSE)
        s3(j, k, n) == Sum(<<h[j], l[k], r[n]>>)
    IN  <<s3(2, 3, 4), s3(3, 4, 5), s3(4, 5, 1), s3(5, 1, 2), s3(1, 2, 3)>>
RIPEMD160Def(m) ==
    LET b == PadLE(m)
        h == FoldLeft(LAMBDA v, j : RmdBlock(v, b, (j - 1) * 64), << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>> >>, [j \in 1..(Len(b) \div 64) |-> j])
    IN  FlattenSeq([j \in 1..5 |-> LBytes(h[j])])

MD5(m)    == MD5Def(m)
SHA1(m)   == SHA1Def(m)
SHA224(m) == SHA224Def(m)
SHA256(m) == SHA256Def(m)
SHA384(m) == SHA384Def(m)
SHA512(m) == SHA512Def(m)
SHA512t224(m) == SHA512_224Def(m)
SHA512t256(m) == SHA512_256Def(m)
SHA3n224(m) == SHA3_224Def(m)
SHA3n256(m) == SHA3_256Def(m)
SHA3n384(m) == SHA3_384Def(m)
SHA3n512(m) == SHA3_512Def(m)
RIPEMD160(m) == RIPEMD160Def(m)

\* by name; "" is no hash
HashOf(name, m) ==
    CASE name = "md5" -> MD5(m) [] name = "sha1" -> SHA1(m) [] name = "sha224" -> SHA224(m)
      [] name = "sha256" -> SHA256(m) [] name = "sha384" -> SHA384(m) [] name = "sha512" -> SHA512(m)
      [] name = "sha512-224" -> SHA512t224(m) [] name = "sha512-256" -> SHA512t256(m)
      [] name = "sha3-224" -> SHA3n224(m) [] name = "sha3-256" -> SHA3n256(m)
      [] name = "sha3-384" -> SHA3n384(m) [] name = "sha3-512" -> SHA3n512(m) [] name = "ripemd160" -> RIPEMD160(m)
HashLen(name) ==
    CASE name = "md5" -> 16 [] name = "sha1" -> 20 [] name = "sha224" -> 28
      [] name = "sha256" -> 32 [] name = "sha384" -> 48 [] name = "sha512" -> 64
      [] name = "sha512-224" -> 28 [] name = "sha512-256" -> 32 [] name = "ripemd160" -> 20
      [] name = "sha3-224" -> 28 [] name = "sha3-256" -> 32 [] name = "sha3-384" -> 48 [] name = "sha3-512" -> 64 [] OTHER -> 0
HashBlock(name) ==
    CASE name \in {"sha384", "sha512", "sha512-224", "sha512-256"} -> 128
      [] name = "sha3-224" -> 144 [] name = "sha3-256" -> 136 [] name = "sha3-384" -> 104 [] name = "sha3-512" -> 72
      [] OTHER -> 64

HMAC(name, key, m) ==
    LET blk == HashBlock(name)
        k0  == IF Len(key) > blk THEN HashOf(name, key) ELSE key
        k   == k0 \o Zeros(blk - Len(k0))
        pad(c) == [j \in 1..blk |-> k[j] ^^ c]
    IN  HashOf(name, pad(92) \o HashOf(name, pad(54) \o m))

MGF1(name, seed, n) ==
    LET cnt == (n + HashLen(name) - 1) \div HashLen(name)
    IN  SubSeq(FlattenSeq([j \in 1..cnt |-> HashOf(name, seed \o <<0, 0, (j - 1) \div 256, (j - 1) % 256>>)]), 1, n)
=============================================================================
