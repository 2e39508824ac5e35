"""Writes MANIFEST.json and known-findings.json (run by hand after changing the list of checks)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("TLA+ definition of SM3 and exhaustive streaming model; TLC-enumerated transitions replayed on the code, results judged by TLC",
         "Streaming design exhaustively checked at tiny size; recorded digests compared with the TLA+ definition of GM/T 0004. Assumes TLC and, for long inputs, the cross-checked Java accelerator."),
 "C02": ("TLA+ state machine of hash objects; TLC-simulated histories replayed, traces validated action by action",
         "Every recorded history of several concurrent objects must be a behaviour of the specification."),
 "C03": ("TLA+ SM2 signing protocol (exhaustive on a tiny curve); recorded signatures validated by TLC on the real curve",
         "Tiny-curve protocol exhaustive; recorded signatures of all entry points judged with 256-bit arithmetic in TLA+."),
 "C04": ("TLA+ verification relation (exhaustive equivalence with signability on a tiny curve); crafted and altered pairs judged by TLC",
         "Crafted extremes (infinity, doubling, x=0, n<=x<p, t=0) and alterations; answers compared with the TLA+ relation."),
 "C05": ("TLA+ strict DER reader as oracle for recorded encodings and decodings, incl. an exhaustive small space",
         "Accept/reject and values compared with an independent strict reader."),
 "C06": ("TLA+: nonces recovered from recorded signatures (ImpliedK, proved exact on a tiny curve by TLC) and judged for freshness, range, spread, source",
         "Nonces are observed, not assumed; redraws forced with crafted digests; failing sources at every octet below 32."),
 "C07": ("TLA+ definition of Z and digest; recorded digests judged by TLC", "Compared with the definition over id lengths, message lengths and key shapes."),
 "C08": ("TLA+ encryption/decryption relation; recorded ciphertexts judged by TLC", "Every recorded ciphertext must satisfy the GM/T 0003.4 relation for the known key."),
 "C09": ("TLA+ decryption relation; altered, truncated and crafted ciphertexts judged by TLC", "Accept/reject and plaintext compared with the relation; every octet of sample ciphertexts altered."),
 "C11": ("TLA+ key-format readers as oracle for every recorded encoding and re-reading", "Encodings of all supported key kinds judged octet by octet by the TLA+ strict readers; stdlib and openssl read them too."),
 "C12": ("TLA+ document generator (model checked against the reader) whose documents are replayed on the parsers, answers judged by TLC",
         "All documents with one (thorough: two) deviations from a valid one, plus random combinations; acceptance and value compared with the TLA+ reader."),
 "C10": ("TLA+ key relation and source accounting over recorded key generations", "Scalars, points, spread and source use judged; extreme and failing sources."),
 "C13": ("TLA+ specification of what a signed message must hold, and independent TLA+ reader; recorded productions judged by TLC",
         "Contents of many sizes, certificates of many shapes, wrong keys, failing and odd callbacks; every produced message read and verified in TLA+."),
 "C14": ("TLA+ design model of signed messages against an adversary; TLA+ generator of message designs replayed on the code; parses and verdicts judged by TLC",
         "Every single deviation of 20 message parts (thorough: every pair) and random triples, altered messages, content exchanged after parsing; accept/reject against the TLA+ authentication relation."),
 "C15": ("TLA+ specification of what a written store must hold and an independent TLA+ PKCS#12 reader (KDF, RC2, 3DES, HMAC); recorded productions and re-readings judged by TLC; TLA+ model of the walk over bags replayed",
         "All key kinds, passwords, chains, both APIs; every store opened in TLA+ octet by octet; salts compared across stores; openssl's stores read."),
 "C16": ("TLA+ generator of store designs and TLA+ model of the decoders' walk over bags, replayed on all four decoders; answers judged by TLC with a TLA+ PKCS#12 reader",
         "Every single deviation of 21 parts (thorough: every pair) and random triples, right and wrong passwords; every sequence of at most 2 (3) bags; parts altered before and after the MAC; accept/reject and contents compared."),
 "C17": ("TLA+ definitions of the PKCS#12 KDF, RC2, triple DES and PBE; recorded cipher uses, written stores and designed stores judged by TLC",
         "RC2 for every key length and effective bits; stores with salts hunted so that the KDF's 512-bit addition carries and drops leading zeros; openssl's stores as fixtures."),
 "C18": ("TLA+ template and document generators; created and parsed certificates judged by TLC against a TLA+ specification of creation and a TLA+ certificate reader",
         "Every place of the template alone and random combinations, for all signers; documents of other shapes, other implementations' and altered ones are read by both and compared field by field; signatures judged in TLA+."),
 "C19": ("TLA+ situation generator (keys x algorithms x alterations, parent shapes) replayed on the checks, answers judged by TLC with TLA+ RSA/PSS/ECDSA/Ed25519/SM2 verification",
         "Accept/reject compared with the TLA+ definition of each signature scheme and of the authority rules."),
 "C20": ("TLA+ template, document and alteration generators; requests judged by TLC against a TLA+ specification of creation, reader and signature check",
         "As C18, plus every alteration kind of signed content, key and signature for all keys and algorithms."),
 "C21": ("TLA+ template, document and alteration generators; revocation lists judged by TLC against a TLA+ specification of creation, reader and signature check",
         "As C18 for both APIs, plus alterations and other keys."),
 "C22": ("TLA+ generators of edit plans (every single edit of every early element, random pairs) and of all small octet strings and trees; outcomes judged by TLC against a strict TLA+ reader",
         "Every parser is given every document in a child process; panics, hangs and deaths are recorded. What is accepted must be exactly one element, and the raw fields its parts."),
 "C23": ("TLA+ specification of calls (refined by an implementation model under the fresh-memory discipline; TLC refutes six others); TLC-generated overlapping histories replayed on 418 operations, also under the race detector, and validated action by action; first uses at once in processes of their own",
         "Outcomes compared with the outcome alone; every visible octet of arguments, spare capacity, templates and earlier results compared afterwards; results scribbled over before asking again; process output captured. Schedules sampled, not exhaustive."),
 "C24": ("TLA+ group law (model checked to be a group on every small curve, and equal to Jacobian arithmetic); TLC-enumerated points, scalars, pairs and encodings put to the curve object and every answer validated against the specification's own arithmetic",
         "Points and scalars sampled from the classes that matter (infinity, equal/opposite, multiples of the order, every power of two, runs, leading zeros, lengths to 96 octets), not all of them."),
 "C25": ("TLA+ state machine of digest objects and of the registry with all digest functions defined in TLA+; TLC-generated histories replayed on the code and validated action by action",
         "Messages to some thousand octets; identifiers exhaustive."),
 "C26": ("TLA+ generator of signed messages (signers, attributes with values of every ASN.1 type, certificates, lists); every question put to the parsed value and every answer judged by TLC with a TLA+ reader",
         "Every attribute type with every kind of value; messages of up to three signers, four attributes, two values each are sampled; every question of 6 types x 9 Go types, in random order, before and after verification."),
 "C27": ("TLA+ generator of bags with attributes; blocks and headers judged by TLC with a TLA+ PKCS#12 reader",
         "Every name of up to two telling UTF-16 units and every length class of local key ids on certificate and key bags; several attributes and bags sampled; deviating stores (thorough: pairs)."),
}
FIXED = [
 ("C08", "709e8bf", "encryption key derivation and coordinates were not GM/T 0003.4"),
 ("C08", "5237c60", "encrypting an empty message looped for ever"),
 ("C09", "fb9adea", "decryption panicked on short input, ignored the prefix and returned unauthenticated plaintext"),
 ("C03", "956db91", "PublicKey.VerifyRS passed message and user id in the wrong order"),
 ("C07", "4da99df", "user ids of 8192 or more bytes wrapped the 16-bit length"),
 ("C10", "1eed7a9", "private scalar n-1 was generated and could not sign"),
 ("C04", "c4a3bfb", "verification and encryption accepted points off the curve (or panicked)"),
 ("C04", "ec424f7", "valid signatures whose point has a zero coordinate were refused"),
 ("C18", "7f139be", "certificates, requests and revocation lists signed with SM2 never verified"),
 ("C19", "c337442", "Ed25519 signatures were refused as unsupported"),
 ("C19", "8402b80", "MD5 and SHA-1 signatures verified"),
 ("C19", "4b01489", "SM2 and ECDSA algorithms were interchangeable"),
 ("C20", "718df60", "certificate requests with RSA-PSS were signed with PKCS#1 v1.5"),
 ("C14", "af42147", "PKCS#7 parsing ignored errors and trailing data"),
 ("C13", "b843973", "PKCS#7 signing errors were dropped and an unsigned message returned"),
 ("C23", "722ec7e", "parsing a certificate printed to standard output"),
 ("C12", "9e610b4", "an EC private key of zero was accepted"),
 ("C16", "2c7b993", "pkcs12.ToPEM reported success on a wrong password or broken store"),
 ("C15", "34bd31e", "pkcs12 decoders dropped or leaked the duplicate-bag errors"),
 ("C13", "b51c68b", "PKCS#7 signing time was encoded in local time, which is not DER"),
 ("C16", "158f559", "pkcs12 passwords that are not valid UTF-8 were all treated alike"),
 ("C21", "b59cdfd", "revocation lists dropped issuer name attributes pkix.Name has no field for"),
 ("C21", "d06a08b", "CheckCRLSignature ignored changes of the outer signature algorithm identifier"),
 ("C17", "55d69d8", "pkcs12.New panicked on invalid RC2 key sizes"),
 ("C22", "9490069", "PKCS#12 iteration counts were unbounded (denial of service by one altered integer)"),
 ("C12", "6789579", "inconsistent RSA private keys (three primes, or pq a multiple of n) and negative versions were accepted"),
 ("C23", "dc9b17c", "MarshalPKCS1PrivateKey wrote the precomputed values into its caller's key"),
 ("C18", "c8ed658", "certificates with unique identifiers lost their extensions when parsed"),
 ("C18", "6bc87d5", "certificates without extensions were created with an empty sequence of them, which is not a certificate"),
    ("C22", "d629236", "parsing an RSA private key with long primes took hours"),
    ("C25", "e198a90", "the MD4 identifier had no name"),
]
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
extra = os.path.join(ROOT, "lib", "fixed.json")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick ./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]}
                for p in props if p in T],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in T],
     "notes": "See DESIGN.md. No hooks in /repo: the checks use the public API only."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
old = {}
p = os.path.join(ROOT, "known-findings.json")
if os.path.exists(p):
    old = json.load(open(p))
json.dump({"findings": old.get("findings", []), "fixed": ["fixed: property=%s %s %s" % f for f in FIXED]}, open(p, "w"), indent=1)
