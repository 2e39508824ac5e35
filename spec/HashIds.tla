------------------------------ MODULE HashIds ------------------------------
(* The identifiers of package x509: digests, signature algorithms, kinds of *)
(* public keys.  Which function each digest identifier means, whether it    *)
(* comes with the package, and what the identifiers print as.               *)
EXTENDS Hashes, SM3

Id(str, size, alg) == [str |-> str, size |-> size, alg |-> alg]
\* identifier j is entry j
HashTable == <<
    Id("MD4", 16, ""), Id("MD5", 16, "md5"), Id("SHA-1", 20, "sha1"), Id("SHA-224", 28, "sha224"),
    Id("SHA-256", 32, "sha256"), Id("SHA-384", 48, "sha384"), Id("SHA-512", 64, "sha512"), Id("MD5+SHA1", 36, ""),
    Id("RIPEMD-160", 20, "ripemd160"), Id("SHA3-224", 28, "sha3-224"), Id("SHA3-256", 32, "sha3-256"), Id("SHA3-384", 48, "sha3-384"),
    Id("SHA3-512", 64, "sha3-512"), Id("SHA-512/224", 28, "sha512-224"), Id("SHA-512/256", 32, "sha512-256"),
    Id("BLAKE2s-256", 32, ""), Id("BLAKE2b-256", 32, ""), Id("BLAKE2b-384", 48, ""), Id("BLAKE2b-512", 64, ""), Id("SM3", 32, "sm3") >>
Ids == 1..Len(HashTable)
Linked(j) == HashTable[j].alg # ""
DigestOf(alg, m) == IF alg = "sm3" THEN SM3Digest(m) ELSE HashOf(alg, m)
BlockOf(alg) == IF alg = "sm3" THEN 64 ELSE HashBlock(alg)

\* SignatureAlgorithm 1..16, PublicKeyAlgorithm 1..5
SigNames == << "MD5-RSA", "SHA1-RSA", "SHA256-RSA", "SHA384-RSA", "SHA512-RSA", "DSA-SHA1", "DSA-SHA256", "ECDSA-SHA1", "ECDSA-SHA256",
               "ECDSA-SHA384", "ECDSA-SHA512", "SHA256-RSAPSS", "SHA384-RSAPSS", "SHA512-RSAPSS", "Ed25519", "SM2WithSM3" >>
KeyNames == << "RSA", "DSA", "ECDSA", "Ed25519", "SM2" >>
=============================================================================
