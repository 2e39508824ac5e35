----------------------------- MODULE CertStrGen -----------------------------
(* Certificates with one name in one of the places that hold names: every   *)
(* short string over octets that mean something to some grammar of names    *)
(* (and random longer ones), to be read by the parser.                      *)
EXTENDS CertDocGen

CONSTANTS Longest,
          Mail       \* mailboxes as name constraints: the octets that their grammar tells apart, before some domain
VARIABLES str, at, end

MailOctets == {97, 46, 64, 34, 92, 32, 43, 10, 1}
Ends == {<<>>, <<64>>, <<64, 92>>, <<64, 98>>, <<64, 98, 46, 99>>, <<64, 46, 98>>, <<34, 64, 98>>, <<97, 64, 98>>}
Octets == IF Mail THEN MailOctets ELSE {97, 49, 46, 64, 32, 34, 92, 37, 58, 47, 91, 93, 42, 0, 128}
Spots == IF Mail THEN {"ncmail"} ELSE {"sandns", "sanmail", "sanuri", "sanhost", "ncdns", "ncmail", "ncuri", "ncout", "dp", "ocsp", "issuer"}
TheExt ==
    LET x(o, v) == Enc(TSeq, Enc(TOid, o) \o Enc(TOctets, v))
    IN  CASE at = "sandns" -> x(OSan, Enc(TSeq, Gn(130, str))) [] at = "sanmail" -> x(OSan, Enc(TSeq, Gn(129, str))) [] at = "sanuri" -> x(OSan, Enc(TSeq, Gn(134, str)))
          [] at = "sanhost" -> x(OSan, Enc(TSeq, Gn(134, HTTP \o str)))
          [] at = "ncdns" -> x(ONc, Nc(Sub(130, str), <<>>)) [] at = "ncmail" -> x(ONc, Nc(Sub(129, str \o end), <<>>)) [] at = "ncuri" -> x(ONc, Nc(Sub(134, str), <<>>))
          [] at = "ncout" -> x(ONc, Nc(<<>>, Sub(129, str) \o Sub(130, str)))
          [] at = "dp" -> x(OCrlDp, Enc(TSeq, Dp(Full(Gn(134, str)))))
          [] at = "ocsp" -> x(OAia, Enc(TSeq, Enc(TSeq, Enc(TOid, OOcsp) \o Gn(134, str)))) [] at = "issuer" -> x(OAia, Enc(TSeq, Enc(TSeq, Enc(TOid, OCaIss) \o Gn(134, str))))
Doc == Seal(Enc(160, Int1(<<2>>)) \o Serial("n") \o AlgNo(ch.alg) \o NameNo(ch.issuer) \o Enc(TSeq, TimeNo(ch.nb) \o TimeNo(ch.na)) \o NameNo(ch.subject)
            \o KeyNo(ch.key) \o Enc(163, Enc(TSeq, TheExt)))

StrInit == /\ Init /\ str = <<>> /\ at \in Spots /\ end \in (IF Mail THEN Ends ELSE {<<>>})
StrNext == /\ Len(str) < Longest
           /\ \E c \in Octets : str' = Append(str, c)
           /\ UNCHANGED <<fam, ch, dev, done, at, end>>
StrSpec == StrInit /\ [][StrNext]_<<fam, ch, dev, done, str, at, end>>
RECURSIVE Shown(_)
Shown(s) == IF s = <<>> THEN "" ELSE ToString(s[1]) \o " " \o Shown(Tail(s))
StrEmit == (Each \/ Len(str) = Longest) => PrintT("@SCN@" \o ToJson([fam |-> "cert", der |-> Doc, case |-> "cert " \o at \o ": " \o Shown(str \o end)]))
=============================================================================
