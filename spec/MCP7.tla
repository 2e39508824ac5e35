-------------------------------- MODULE MCP7 --------------------------------
(* The design of signed messages against an adversary, with ideal           *)
(* cryptography.  Ann signs contents of her choice, with signed attributes  *)
(* or without; Eve knows every message of Ann's, holds keys of her own, may *)
(* make certificates naming anybody, and assembles any message.  What does  *)
(* a message that verifies establish?                                       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxSigned,    \* how many messages Ann signs
          MaxSigners    \* how many signers a message of Eve's has
VARIABLES signed,       \* what Ann meant to sign: set of [content, attrs]
          m             \* the message presented

\* names are [issuer, serial]; a certificate binds a name to a key
Names == {"ann", "eve"}
Keys == {"annkey", "evekey"}
AnnCert == [name |-> "ann", key |-> "annkey"]
Certs == {AnnCert} \cup {[name |-> n, key |-> "evekey"] : n \in Names}

\* octets: a text, or the encoding of attributes (values: the digest of a text, or a content type)
Text(t) == [text |-> t, attrs |-> {}]
Enc(as) == [text |-> "", attrs |-> as]
Texts == {Text("c1"), Text("c2")}
Digest(c) == c.text \o " digest"
Attr(t, v) == [type |-> t, val |-> v]
\* the attributes worth considering: with the digest of a text or of two, of the encoding of attributes, with or without a content type
AttrSets == {{}, {Attr("type", "data")}, {Attr("digest", Digest(Text("c1"))), Attr("digest", Digest(Text("c2")))}, {Attr("digest", Digest(Enc({})))}}
            \cup {{Attr("digest", Digest(c))} : c \in Texts} \cup {{Attr("digest", Digest(c)), Attr("type", "data")} : c \in Texts}
Contents == Texts \cup {Enc(as) : as \in AttrSets \ {{}}}
\* what the signature is over: the attributes' encoding, or the content
ToSign(c, as) == IF as = {} THEN c ELSE Enc(as)
Sig(k, x) == [key |-> k, over |-> x]

\* Ann produces: attributes always carry the digest of the content (NewSignedData); or a bare signature
AnnMay == {[content |-> c, attrs |-> {Attr("digest", Digest(c)), Attr("type", "data")}] : c \in Texts} \cup {[content |-> c, attrs |-> {}] : c \in Texts}
AnnSigs == {Sig("annkey", ToSign(s.content, s.attrs)) : s \in signed}
EveSigs == {Sig("evekey", x) : x \in Contents}
Signers == [name : Names, attrs : AttrSets, sig : AnnSigs \cup EveSigs]
Lists(S, k) == UNION {[1..j -> S] : j \in 0..k}

None == [content |-> Text(""), certs |-> {}, signers |-> <<>>]
Init == signed \in {S \in SUBSET AnnMay : Cardinality(S) <= MaxSigned} /\ m = None
Present == /\ m = None
           /\ \E c \in Contents, cs \in SUBSET Certs, ss \in Lists(Signers, MaxSigners) : m' = [content |-> c, certs |-> cs, signers |-> ss]
           /\ UNCHANGED signed
Next == Present
Spec == Init /\ [][Next]_<<signed, m>>

\* verification (P7!SignerMay without the encoding): some certificate named by the signer, a digest of the content among its attributes
SignerOk(msg, s, c) == /\ c \in msg.certs /\ c.name = s.name
                       /\ s.attrs # {} => Attr("digest", Digest(msg.content)) \in s.attrs
                       /\ s.sig = Sig(c.key, ToSign(msg.content, s.attrs))
Verify(msg) == msg.signers # <<>> /\ \A j \in DOMAIN msg.signers : \E c \in Certs : SignerOk(msg, msg.signers[j], c)

\* a signer whose only certificate in the message is Ann's
IsAnns(msg, s) == s.name = "ann" /\ {c \in msg.certs : c.name = "ann"} = {AnnCert}
\* 1. a message that verifies with Ann as a signer holds what Ann signed - or, under a signature stripped of its
\*    attributes, exactly the encoding of attributes Ann signed (RFC 2315's known ambiguity, the only one)
Established ==
    Verify(m) => \A j \in DOMAIN m.signers : IsAnns(m, m.signers[j]) =>
        \/ \E s \in signed : s.content = m.content /\ s.attrs = m.signers[j].attrs
        \/ m.signers[j].attrs = {} /\ \E s \in signed : s.attrs # {} /\ m.content = Enc(s.attrs)
\* 2. without an honest signature nothing verifies as Ann's
NothingFromNothing == (signed = {} /\ Verify(m)) => \A j \in DOMAIN m.signers : ~IsAnns(m, m.signers[j])
\* 3. every signer counts: one bad signer spoils the message
EveryOne == Verify(m) => \A j \in DOMAIN m.signers : Verify([m EXCEPT !.signers = <<m.signers[j]>>])
\* 4. what changes in a verified message without the attributes' or the content's owner makes it fail
Brittle == (Verify(m) /\ Len(m.signers) = 1 /\ IsAnns(m, m.signers[1])) =>
             /\ \A c \in Contents \ {m.content} : ~Verify([m EXCEPT !.content = c])
             /\ \A as \in AttrSets \ {m.signers[1].attrs} : Verify([m EXCEPT !.signers[1].attrs = as]) =>
                    \* only if the signature covered nothing but these octets all along
                    ToSign(m.content, as) = ToSign(m.content, m.signers[1].attrs)
             /\ \A g \in (AnnSigs \cup EveSigs) \ {m.signers[1].sig} : ~Verify([m EXCEPT !.signers[1].sig = g])
             /\ ~Verify([m EXCEPT !.certs = @ \ {AnnCert}])
             /\ ~Verify([m EXCEPT !.signers = <<>>])
=============================================================================
