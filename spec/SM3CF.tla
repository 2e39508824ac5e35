------------------------------- MODULE SM3CF -------------------------------
(* The SM3 compression function of GM/T 0004-2012 (5.3), as a definition.   *)
(* CF and CFIter may be replaced by spec/java/SM3CF.java for speed; the     *)
(* replacement is cross-checked against these definitions by SelfCheck.tla. *)
EXTENDS Words, SequencesExt

LOCAL P0(x) == XorW(x, XorW(Rot(x, 9), Rot(x, 17)))
LOCAL P1(x) == XorW(x, XorW(Rot(x, 15), Rot(x, 23)))

LOCAL FF(j, x, y, z) ==
    IF j < 16 THEN XorW(x, XorW(y, z))
    ELSE OrW(OrW(AndW(x, y), AndW(x, z)), AndW(y, z))

LOCAL GG(j, x, y, z) ==
    IF j < 16 THEN XorW(x, XorW(y, z))
    ELSE OrW(AndW(x, y), AndW(NotW(x), z))

LOCAL T(j) == IF j < 16 THEN <<31180, 17689>>      \* 79CC4519
                        ELSE <<31367, 40330>>      \* 7A879D8A

\* W_0 .. W_67
LOCAL Expand(b) ==
    FoldLeft(LAMBDA w, j :
        Append(w, XorW(P1(XorW(XorW(w[j-15], w[j-8]), Rot(w[j-2], 15))),
                       XorW(Rot(w[j-12], 7), w[j-5]))),
        [i \in 1..16 |-> WordAt(b, i-1)],
        [i \in 1..52 |-> i + 15])

LOCAL Round(W, v, j) ==
    LET ss1 == Rot(AddW(AddW(Rot(v[1], 12), v[5]), Rot(T(j), j)), 7)
        ss2 == XorW(ss1, Rot(v[1], 12))
        tt1 == AddW(AddW(FF(j, v[1], v[2], v[3]), v[4]),
                    AddW(ss2, XorW(W[j+1], W[j+5])))
        tt2 == AddW(AddW(GG(j, v[5], v[6], v[7]), v[8]),
                    AddW(ss1, W[j+1]))
    IN  <<tt1, v[1], Rot(v[2], 9), v[3], P0(tt2), v[5], Rot(v[6], 19), v[7]>>

\* definition of one compression: v is 8 words, b is 64 bytes
CFDef(v, b) ==
    LET W == Expand(b)
        r == FoldLeft(LAMBDA a, j : Round(W, a, j), v, [i \in 1..64 |-> i-1])
    IN  [i \in 1..8 |-> XorW(r[i], v[i])]

CF(v, b) == CFDef(v, b)

\* the chaining value after all of the whole blocks of p, n times over
CFIter(v, p, n) ==
    FoldLeft(LAMBDA a, j :
                FoldLeft(LAMBDA c, i : CF(c, SubSeq(p, 64*i - 63, 64*i)),
                         a, [i \in 1..(Len(p) \div 64) |-> i]),
             v, [j \in 1..n |-> j])

IV == << <<29568, 5743>>,  <<18708, 45753>>, <<5924, 17111>>,  <<55946, 1536>>,
         <<43375, 12476>>, <<5681, 14506>>,  <<58253, 61005>>, <<45307, 3662>> >>
=============================================================================
