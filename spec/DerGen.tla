-------------------------------- MODULE DerGen --------------------------------
(* Small documents: every octet string of at most MaxOctets telling octets,  *)
(* and every tree of at most MaxNodes elements with telling tags and contents *)
(* (in preorder: a constructed element takes the elements after it, down to   *)
(* its level).                                                                *)
EXTENDS DER, FiniteSets, TLC, Json

CONSTANTS MaxOctets, MaxNodes, Octets, ConsTags, LeafTags, Leaves
SomeLeaves == {<<>>, <<0>>, <<1>>, <<255>>}
VARIABLES what, doc, tree

\* a tree is a sequence of [tag, body, level]; level of the first is 0 and each is at most one more than the one before, if that is constructed
Compound(t) == (t \div 32) % 2 = 1
RECURSIVE EncFrom(_, _), EncAll(_, _, _)
\* the children of the element before place j, which are at level l, one after the other
EncAll(tr, j, l) ==
    IF j > Len(tr) THEN <<>>
    ELSE IF tr[j].level < l THEN <<>>
    ELSE IF tr[j].level > l THEN EncAll(tr, j + 1, l)
    ELSE EncFrom(tr, j) \o EncAll(tr, j + 1, l)
EncFrom(tr, j) == Enc(tr[j].tag, IF Compound(tr[j].tag) THEN EncAll(tr, j + 1, tr[j].level + 1) ELSE tr[j].body)

Nodes(lo, hi) == [tag : ConsTags, body : {<<>>}, level : lo..hi] \cup [tag : LeafTags, body : Leaves, level : lo..hi]
Init == tree = <<>> /\ doc = <<>> /\ what \in {"octets", "tree"}
Next == /\ what' = what
        /\ \/ /\ what = "octets" /\ Len(doc) < MaxOctets /\ \E o \in Octets : doc' = Append(doc, o) /\ tree' = tree
           \/ /\ what = "tree" /\ Len(tree) < MaxNodes
              /\ \E nd \in IF tree = <<>> THEN Nodes(0, 0)
                           ELSE LET l == tree[Len(tree)] IN Nodes(1, IF Compound(l.tag) THEN l.level + 1 ELSE l.level) :
                   /\ tree' = Append(tree, nd)
                   /\ doc' = EncFrom(tree', 1)
Spec == Init /\ [][Next]_<<what, doc, tree>>

----------------------------------------------------------------------------
\* the strictness the judges ask for makes encodings unique: what is well-formed all the way down is what is written for it
RECURSIVE Again(_, _)
Again(b, nd) == Enc(nd.tag, IF Compound(nd.tag) THEN FlattenSeq([j \in 1..Len(Kids(b, nd)) |-> Again(b, Kids(b, nd)[j])]) ELSE Body(b, nd))
Unique == LET w == Whole(doc) IN w.ok /\ DeepOk(doc, w) => Again(doc, w) = doc
\* nothing that is a document begins another one
PrefixFree == Whole(doc).ok => \A k \in 1..(Len(doc) - 1) : ~Whole(SubSeq(doc, 1, k)).ok
\* a tree is written as a document, which reads back well
Written == tree # <<>> => Whole(doc).ok /\ DeepOk(doc, Whole(doc))
Emit == PrintT("@SCN@" \o ToJson([case |-> "small: " \o ToString(doc), doc |-> doc]))
=============================================================================
