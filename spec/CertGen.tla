------------------------------- MODULE CertGen -------------------------------
(* Templates for certificates, requests and revocation lists: a family, a   *)
(* signer, and a choice for every place, of which at most MaxDev deviate    *)
(* from a plain template.  Text is written as strings (the driver turns     *)
(* them into octets; "{e}" is a letter outside ASCII, "{ff}" an octet that  *)
(* is no UTF-8), keys as names the driver resolves.                         *)
EXTENDS X509, FiniteSets, TLC, Json

CONSTANTS Fams, MaxDev, Each
VARIABLES fam, signer, ch, dev, done

Signers == {"rsa", "rsa2", "p224", "p256", "p384", "p521", "sm2", "ed25519"}
Main == {"sm2", "p256"}             \* signers with which every place is tried alone
Algs == <<"", "MD5-RSA", "SHA1-RSA", "SHA256-RSA", "SHA384-RSA", "SHA512-RSA", "SHA256-RSAPSS", "SHA384-RSAPSS", "SHA512-RSAPSS",
          "ECDSA-SHA1", "ECDSA-SHA256", "ECDSA-SHA384", "ECDSA-SHA512", "SM2-SM3", "Ed25519", "DSA-SHA1", "DSA-SHA256", "unknown">>
NumStr == <<"0","1","2","3","4","5","6","7","8","9","10","11","12","13">>
SigMenu == [alg |-> Algs, mode |-> <<"ok", "fails", "garbage", "nosigner", "odd", "oddsm2", "dsa">>]
NameMenu == [subject |-> <<"cn", "empty", "full", "multi", "utf8", "punct", "extra", "extraover", "raw", "rawempty", "rawtypes", "badutf8">>]
Menu(f) ==
  CASE f = "cert" -> SigMenu @@ NameMenu @@
        [issuer  |-> <<"ca", "self", "tmpl", "noski", "otherkey", "samename", "rawname", "utf8name", "badname">>,
         pub     |-> <<"sm2b", "rsa", "p224", "p256", "p384", "p521", "ed25519", "same", "bad", "odd", "oddsm2", "dsa">>,
         serial  |-> <<"n", "0", "1", "127", "128", "255", "256", "neg1", "neg128", "neg129", "big", "none">>,
         nb      |-> <<"2020", "1949", "1950", "2049", "2050", "0000", "tz", "nanos", "day", "year-1">>,
         na      |-> <<"2030", "1949", "1950", "2049", "2050", "9999", "10000", "tz", "nanos", "before", "leap">>,
         ku      |-> <<"none", "0", "1", "2", "3", "4", "5", "6", "7", "8", "all", "low", "ends">>,
         eku     |-> <<"none">> \o NumStr \o <<"14", "two", "all", "unknown", "mixed", "-1">>,
         bc      |-> <<"none", "ca", "ca0", "ca1", "ca-1", "ca200", "ca70000", "leaf", "leaf-1", "leaf0", "leaf1", "caonly", "cainvalid">>,
         ski     |-> <<"none", "20", "1", "200">>,
         aki     |-> <<"none", "20", "1">>,
         san     |-> <<"none", "dns", "dns2", "wild", "email", "ip4", "ip6", "ip4in6", "uri", "uri2", "urihost", "all", "dnsna", "emailna", "uribad", "longdns">>,
         pol     |-> <<"none", "any", "two", "big">>,
         crldp   |-> <<"none", "one", "two">>,
         aia     |-> <<"none", "ocsp", "issuer", "both", "two">>,
         nc      |-> <<"none", "pdns", "edns", "pdot", "pip4", "pip6", "eip", "pemail", "eemail", "mailbox", "puri", "euri", "all", "host", "pna", "ena", "emailna", "urina">>,
         nccrit  |-> <<"no", "yes">>,
         extra   |-> <<"none", "new", "newcrit", "ku", "eku", "bc", "ski", "aki", "san", "pol", "nc", "crldp", "aia", "two", "longer", "longer1", "shorter">>]
    [] f = "csr" -> SigMenu @@ NameMenu @@
        [san     |-> <<"none", "dns", "email", "ip4", "ip6", "ip4in6", "uri", "all", "dnsna", "emailna", "uribad">>,
         extra   |-> <<"none", "new", "newcrit", "san", "two", "ku", "longer", "shorter">>,
         attrs   |-> <<"none", "plain", "two", "values", "extreq", "extreqsan", "extreqnew", "empty", "after", "extreq2", "extreq2san", "extreqtwice", "extreqvoid">>]
    [] f = "crl" -> SigMenu @@
        [api     |-> <<"list", "crl">>,
         entries |-> <<"one", "none", "two", "many", "exts", "old", "new", "tz", "serial0", "serialneg", "serialbig", "twice", "plusminus", "same">>,
         number  |-> <<"n", "none", "0", "127", "128", "big", "neg">>,
         tu      |-> <<"2020", "1949", "2050", "tz", "nanos", "10000">>,
         nu      |-> <<"2030", "before", "same", "2050", "10000", "sub">>,
         isname  |-> <<"cn", "empty", "full", "utf8", "extra", "raw", "badutf8">>,
         isski   |-> <<"20", "none", "1">>,
         isku    |-> <<"crl", "none", "cert", "allbutcrl", "both">>,
         extra   |-> <<"none", "new", "newcrit", "two">>]
Places(f) == DOMAIN Menu(f)
Right(f) == [pl \in Places(f) |-> Menu(f)[pl][1]]

Init == /\ fam \in Fams
        /\ signer \in Signers
        /\ ch \in {Right(fam)} \cup (IF fam = "crl" THEN {[Right(fam) EXCEPT !.api = "crl"]} ELSE {})
        /\ dev = {}
        /\ done = FALSE
\* places that have to do with one another are tried together, whatever MaxDev
Related(f) ==
  CASE f = "cert" -> {{"nc", "nccrit"}, {"subject", "san"}, {"subject", "issuer"}, {"ku", "bc"}, {"ku", "eku"}, {"bc", "nc"}, {"nb", "na"}, {"ski", "aki"}, {"ski", "bc"},
                      {"aki", "issuer"}, {"ski", "issuer"}, {"crldp", "aia"}, {"pub", "ski"}, {"alg", "mode"}} \cup
                     {{"extra", pl} : pl \in {"ku", "eku", "bc", "ski", "aki", "san", "pol", "nc", "nccrit", "crldp", "aia", "subject"}}
    [] f = "csr" -> {{"subject", "san"}, {"san", "extra"}, {"san", "attrs"}, {"extra", "attrs"}, {"alg", "mode"}}
    [] f = "crl" -> {{"api", "entries"}, {"api", "number"}, {"api", "tu"}, {"api", "nu"}, {"tu", "nu"}, {"api", "isname"}, {"api", "isski"}, {"api", "isku"}, {"api", "extra"},
                     {"entries", "number"}, {"entries", "extra"}, {"number", "extra"}, {"isski", "isku"}, {"isname", "isski"}, {"alg", "mode"}, {"api", "alg"}}
Deviate ==
        /\ \E pl \in Places(fam) \ dev :
              /\ \/ Cardinality(dev) < MaxDev
                 \/ Each /\ signer = "sm2" /\ \E p \in dev : dev = {p} /\ {p, pl} \in Related(fam)
              /\ (Each /\ MaxDev = 1 /\ signer \notin Main) => pl \in {"alg", "mode"}
              /\ \E j \in 2..Len(Menu(fam)[pl]) :
                 /\ ch' = [ch EXCEPT ![pl] = Menu(fam)[pl][j]]
                 /\ dev' = dev \cup {pl}
        /\ UNCHANGED <<fam, signer, done>>
Finish == /\ ~Each /\ ~done /\ Cardinality(dev) = MaxDev
          /\ done' = TRUE /\ UNCHANGED <<fam, signer, ch, dev>>
Next == Deviate \/ Finish
Spec == Init /\ [][Next]_<<fam, signer, ch, dev, done>>

----------------------------------------------------------------------------
(* building blocks *)
Rep(k, v) == [j \in 1..k |-> v]
Cnt(k) == [j \in 1..k |-> (j * 7) % 256]
SInt(neg, mag) == [neg |-> neg, mag |-> mag]
Num(s) == CASE s = "n" -> SInt(FALSE, <<18, 52, 86>>) [] s = "0" -> SInt(FALSE, <<>>) [] s = "1" -> SInt(FALSE, <<1>>)
            [] s = "127" -> SInt(FALSE, <<127>>) [] s = "128" -> SInt(FALSE, <<128>>) [] s = "255" -> SInt(FALSE, <<255>>)
            [] s = "256" -> SInt(FALSE, <<1, 0>>) [] s = "neg1" -> SInt(TRUE, <<1>>) [] s = "neg" -> SInt(TRUE, <<1, 0>>)
            [] s = "neg128" -> SInt(TRUE, <<128>>) [] s = "neg129" -> SInt(TRUE, <<129>>)
            [] s = "big" -> SInt(FALSE, <<128>> \o Rep(19, 7)) [] s = "none" -> SInt(FALSE, <<>>)
TheDay == 86400
Time(s) ==
    CASE s = "2030" -> <<DayNumber(2030, 12, 31), 86399>>
      [] s = "1949" -> <<DayNumber(1949, 12, 31), 86399>> [] s = "1950" -> <<DayNumber(1950, 1, 1), 0>>
      [] s = "2049" -> <<DayNumber(2049, 12, 31), 86399>> [] s = "2050" -> <<DayNumber(2050, 1, 1), 0>>
      [] s = "0000" -> <<DayNumber(0, 1, 1), 0>> [] s = "9999" -> <<DayNumber(9999, 12, 31), 86399>>
      [] s = "10000" -> <<DayNumber(9999, 12, 31) + 1, 0>> [] s = "year-1" -> <<DayNumber(0, 1, 1) - 1, 86399>>
      [] s \in {"tz", "nanos"} -> <<DayNumber(2024, 2, 29), 82000>> [] s = "day" -> <<DayNumber(2021, 3, 1), 0>>
      [] s = "before" -> <<DayNumber(2001, 1, 1), 1>> [] s = "leap" -> <<DayNumber(2400, 2, 29), 5>>
      [] OTHER -> <<DayNumber(2020, 2, 29), 3723>>
Zone(s) == IF s = "tz" THEN 28800 ELSE 0
\* a fraction of the second: cut off
Nanos(s) == CASE s = "nanos" -> 999999999 [] s = "sub" -> 1 [] OTHER -> 0

A(o, v) == [oid |-> o, val |-> v]
Name0 == [c |-> <<>>, o |-> <<>>, ou |-> <<>>, l |-> <<>>, st |-> <<>>, street |-> <<>>, pc |-> <<>>, cn |-> "", sn |-> "", extra |-> <<>>, raw |-> <<>>]
DnQ == ONameAttr(46)
Mail == <<42,134,72,134,247,13,1,9,1>>
RawAttr(o, tag, v) == Enc(TSeq, Enc(TOid, o) \o Enc(tag, v))
RawRdn(as) == Enc(TSet, FlattenSeq(as))
\* a name with a set of two attributes, kinds of strings other than the ones written here, and an attribute without a field
RawName == Enc(TSeq, RawRdn(<< RawAttr(ONameAttr(6), TPrintable, <<67, 78>>) >>)
               \o RawRdn(<< RawAttr(ONameAttr(3), TUtf8, <<195, 169, 42>>), RawAttr(DnQ, TPrintable, <<49>>) >>)
               \o RawRdn(<< RawAttr(Mail, TIA5, <<97, 64, 98>>) >>))
RawTypes == Enc(TSeq, RawRdn(<< RawAttr(ONameAttr(10), TBmp, <<0, 65, 1, 66, 254, 255>>) >>)
               \o RawRdn(<< RawAttr(ONameAttr(11), TT61, <<65, 66>>) >>)
               \o RawRdn(<< RawAttr(ONameAttr(3), 18, <<49, 32, 50>>) >>)
               \o RawRdn(<< RawAttr(ONameAttr(3), TUtf8, <<>>) >>))
Name(s) ==
    CASE s = "cn" -> [Name0 EXCEPT !.cn = "leaf one"] [] s = "empty" -> Name0
      [] s = "full" -> [Name0 EXCEPT !.c = <<"CN">>, !.o = <<"Org">>, !.ou = <<"Unit">>, !.l = <<"Town">>, !.st = <<"Land">>,
                                     !.street = <<"Road 1">>, !.pc = <<"123">>, !.cn = "Full", !.sn = "77"]
      [] s = "multi" -> [Name0 EXCEPT !.o = <<"B Org", "A Org", "A Org">>, !.ou = <<"z", "yy", "x">>, !.cn = "m"]
      [] s = "utf8" -> [Name0 EXCEPT !.o = <<"Soci{e}t{e}">>, !.cn = "{e}"]
      [] s = "punct" -> [Name0 EXCEPT !.o = <<"a*b", "c&d", "e@f", "g_h">>, !.cn = "(x)+,-./:=?'"]
      [] s = "extra" -> [Name0 EXCEPT !.cn = "x", !.extra = << A(Mail, "a@b.example"), A(DnQ, "q") >>]
      [] s = "extraover" -> [Name0 EXCEPT !.cn = "hidden", !.o = <<"gone">>, !.ou = <<"kept">>, !.extra = << A(ONameAttr(3), "seen"), A(ONameAttr(10), "new") >>]
      [] s \in {"raw", "rawname"} -> [Name0 EXCEPT !.cn = "ignored", !.raw = RawName]
      [] s = "rawempty" -> [Name0 EXCEPT !.raw = <<48, 0>>]
      [] s = "rawtypes" -> [Name0 EXCEPT !.raw = RawTypes]
      [] s \in {"badutf8", "badname"} -> [Name0 EXCEPT !.cn = "a{ff}"]
      [] s = "utf8name" -> [Name0 EXCEPT !.o = <<"CA {e}">>, !.cn = "root"]
CaName == [Name0 EXCEPT !.o = <<"Authority">>, !.cn = "CA"]

Ip4 == <<192, 0, 2, 1>>
Ip6 == <<32, 1, 13, 184, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>
Ip46 == <<0,0,0,0,0,0,0,0,0,0,255,255,192,0,2,2>>
San(T, s) ==
    CASE s = "none" -> T [] s = "dns" -> [T EXCEPT !.dns = <<"a.example">>]
      [] s = "dns2" -> [T EXCEPT !.dns = <<"b.example", "a.example", "xn--bcher-kva.example">>] [] s = "wild" -> [T EXCEPT !.dns = <<"*.example", "_x.example">>]
      [] s = "email" -> [T EXCEPT !.emails = <<"a@b.example", "c@d.example">>]
      [] s = "ip4" -> [T EXCEPT !.ips = <<Ip4>>] [] s = "ip6" -> [T EXCEPT !.ips = <<Ip6>>] [] s = "ip4in6" -> [T EXCEPT !.ips = <<Ip46, Ip6, Ip4>>]
      [] s = "uri" -> [T EXCEPT !.uris = <<"http://a.example/x">>]
      [] s = "uri2" -> [T EXCEPT !.uris = <<"https://u:p@b.example:80/%41?q=1#f", "urn:x:y", "mailto:a@b">>]
      [] s = "urihost" -> [T EXCEPT !.uris = <<"ldap://[2001:db8::1]:389/x">>]
      [] s = "all" -> [T EXCEPT !.dns = <<"a.example", "c.example">>, !.emails = <<"a@b.example">>, !.ips = <<Ip6, Ip4>>, !.uris = <<"http://a.example">>]
      [] s = "dnsna" -> [T EXCEPT !.dns = <<"ok.example", "{e}.example">>] [] s = "emailna" -> [T EXCEPT !.emails = <<"{e}@b.example">>]
      [] s = "uribad" -> [T EXCEPT !.uris = <<"http://a.example/", "urn:{e}">>]
      [] s = "longdns" -> [T EXCEPT !.dns = [j \in 1..40 |-> "host.of.a.long.list.example"]]
Net4 == [ip |-> <<10, 1, 2, 3>>, mask |-> <<255, 255, 0, 0>>]
Net46 == [ip |-> Ip46, mask |-> <<255, 255, 255, 254>>]
Net6 == [ip |-> Ip6, mask |-> Rep(5, 255) \o <<240>> \o Rep(10, 0)]
NetAll == [ip |-> <<0, 0, 0, 0>>, mask |-> <<0, 0, 0, 0>>]
Host6 == [ip |-> Ip6, mask |-> Rep(16, 255)]
Nc(T, s) ==
    CASE s = "none" -> T [] s = "pdns" -> [T EXCEPT !.pdns = <<"example", "b.example">>] [] s = "edns" -> [T EXCEPT !.edns = <<"bad.example">>]
      [] s = "pdot" -> [T EXCEPT !.pdns = <<".example">>] [] s = "pip4" -> [T EXCEPT !.pip = <<Net4, Net46>>] [] s = "pip6" -> [T EXCEPT !.pip = <<Net6>>]
      [] s = "eip" -> [T EXCEPT !.eip = <<NetAll, Host6>>] [] s = "pemail" -> [T EXCEPT !.pemail = <<"example", ".b.example">>]
      [] s = "eemail" -> [T EXCEPT !.eemail = <<"c.example">>] [] s = "mailbox" -> [T EXCEPT !.pemail = <<"joe@b.example">>]
      [] s = "puri" -> [T EXCEPT !.puri = <<"example", ".b.example">>] [] s = "euri" -> [T EXCEPT !.euri = <<"c.example">>]
      [] s = "all" -> [T EXCEPT !.pdns = <<"p.example">>, !.edns = <<"e.example">>, !.pip = <<Net4>>, !.eip = <<Net6>>, !.pemail = <<"pm.example">>,
                                !.eemail = <<"em.example">>, !.puri = <<"pu.example">>, !.euri = <<"eu.example">>]
      [] s = "host" -> [T EXCEPT !.pdns = <<"">>]
      [] s = "pna" -> [T EXCEPT !.pdns = <<"{e}">>] [] s = "ena" -> [T EXCEPT !.edns = <<"ok", "{e}">>]
      [] s = "emailna" -> [T EXCEPT !.eemail = <<"{e}">>] [] s = "urina" -> [T EXCEPT !.puri = <<"{e}">>]
UnkOid == <<43, 6, 1, 4, 1, 130, 55, 99, 7>>
Bc(T, s) ==
    LET b(ca, l, z) == [T EXCEPT !.bcv = TRUE, !.isca = ca, !.mpl = l, !.mplz = z]
    IN  CASE s = "none" -> T [] s = "ca" -> b(TRUE, 0, FALSE) [] s = "ca0" -> b(TRUE, 0, TRUE) [] s = "ca1" -> b(TRUE, 1, FALSE)
          [] s = "ca-1" -> b(TRUE, -1, FALSE) [] s = "ca200" -> b(TRUE, 200, FALSE) [] s = "ca70000" -> b(TRUE, 70000, TRUE)
          [] s = "leaf" -> b(FALSE, 0, FALSE) [] s = "leaf-1" -> b(FALSE, -1, FALSE) [] s = "leaf0" -> b(FALSE, 0, TRUE) [] s = "leaf1" -> b(FALSE, 3, FALSE)
          [] s = "caonly" -> [T EXCEPT !.isca = TRUE] [] s = "cainvalid" -> [T EXCEPT !.isca = TRUE, !.mpl = 3]
Eku(T, s) ==
    CASE s = "none" -> T [] s = "two" -> [T EXCEPT !.eku = <<2, 1>>] [] s = "all" -> [T EXCEPT !.eku = [j \in 1..14 |-> j - 1]]
      [] s = "unknown" -> [T EXCEPT !.ueku = <<UnkOid>>] [] s = "mixed" -> [T EXCEPT !.eku = <<8, 1>>, !.ueku = <<UnkOid, <<42, 3, 4>> >>]
      [] s = "14" -> [T EXCEPT !.eku = <<1, 14>>] [] s = "-1" -> [T EXCEPT !.eku = <<-1>>]
      [] OTHER -> [T EXCEPT !.eku = << (CHOOSE j \in 1..14 : NumStr[j] = s) - 1 >>]
Ku(s) == CASE s = "none" -> 0 [] s = "all" -> 511 [] s = "low" -> 255 [] s = "ends" -> 257
           [] s = "0" -> 1 [] s = "1" -> 2 [] s = "2" -> 4 [] s = "3" -> 8 [] s = "4" -> 16 [] s = "5" -> 32 [] s = "6" -> 64 [] s = "7" -> 128 [] s = "8" -> 256

\* extra extensions; those of known kinds say something else than the template does
Known == <<OKu, OEku, OBc, OSki, OAki, OSan, OPol, ONc, OCrlDp, OAia>>
Ex(o, c, v) == [oid |-> o, crit |-> c, val |-> v]
Extra(s) ==
    CASE s = "none" -> <<>>
      [] s = "new" -> << Ex(UnkOid, FALSE, <<4, 2, 9, 9>>) >> [] s = "newcrit" -> << Ex(OExt(99), TRUE, <<5, 0>>) >>
      [] s = "ku" -> << Ex(OKu, FALSE, <<3, 2, 5, 160>>) >>
      [] s = "eku" -> << Ex(OEku, TRUE, Enc(TSeq, Enc(TOid, EkuOids[4]))) >>
      [] s = "bc" -> << Ex(OBc, FALSE, Enc(TSeq, Enc(TBool, <<255>>) \o Enc(TInteger, <<5>>))) >>
      [] s = "ski" -> << Ex(OSki, FALSE, Enc(TOctets, <<1, 2, 3>>)) >>
      [] s = "aki" -> << Ex(OAki, FALSE, Enc(TSeq, Enc(128, <<4, 5, 6>>))) >>
      [] s = "san" -> << Ex(OSan, FALSE, Enc(TSeq, Enc(130, <<120, 46, 121>>) \o Enc(135, Ip4))) >>
      [] s = "pol" -> << Ex(OPol, FALSE, Enc(TSeq, Enc(TSeq, Enc(TOid, <<42, 3, 4, 5>>)))) >>
      [] s = "nc" -> << Ex(ONc, TRUE, Enc(TSeq, Enc(160, Enc(TSeq, Enc(130, <<122>>))))) >>
      [] s = "crldp" -> << Ex(OCrlDp, FALSE, Enc(TSeq, Enc(TSeq, Enc(160, Enc(160, Enc(134, HTTP \o <<122>>)))))) >>
      [] s = "aia" -> << Ex(OAia, FALSE, Enc(TSeq, Enc(TSeq, Enc(TOid, OOcsp) \o Enc(134, HTTP \o <<113>>)))) >>
      \* identifiers that only begin as those of known kinds do
      [] s = "longer" -> [j \in 1..Len(Known) |-> Ex(Known[j] \o <<1>>, FALSE, <<4, 1, j>>)]
      [] s = "longer1" -> << Ex(OSan \o <<0>>, FALSE, <<5, 0>>), Ex(SubSeq(OKu, 1, 2) \o <<129, 15>>, FALSE, <<5, 0>>) >>
      [] s = "shorter" -> << Ex(SubSeq(OSan, 1, 2), FALSE, <<5, 0>>), Ex(<<85, 30, 17>>, FALSE, <<5, 0>>), Ex(<<69, 29, 17>>, FALSE, <<5, 0>>) >>
      [] s = "two" -> << Ex(UnkOid, FALSE, <<5, 0>>), Ex(OExt(98), TRUE, <<>>) >>

----------------------------------------------------------------------------
(* scenarios *)
Cert ==
    LET T0 == [hasserial |-> ch.serial # "none", serial |-> Num(ch.serial), subject |-> Name(ch.subject), nb |-> Time(ch.nb), na |-> Time(ch.na),
               ku |-> Ku(ch.ku), eku |-> <<>>, ueku |-> <<>>, bcv |-> FALSE, isca |-> FALSE, mpl |-> 0, mplz |-> FALSE,
               ski |-> CASE ch.ski = "none" -> <<>> [] ch.ski = "20" -> Cnt(20) [] ch.ski = "1" -> <<0>> [] ch.ski = "200" -> Cnt(200),
               aki |-> CASE ch.aki = "none" -> <<>> [] ch.aki = "20" -> Rep(20, 9) [] ch.aki = "1" -> <<255>>,
               dns |-> <<>>, emails |-> <<>>, ips |-> <<>>, uris |-> <<>>,
               policies |-> CASE ch.pol = "none" -> <<>> [] ch.pol = "any" -> << <<85, 29, 32, 0>> >> [] ch.pol = "two" -> << <<42, 3>>, <<42, 3, 4>> >>
                              [] ch.pol = "big" -> << <<42, 143, 255, 255, 127>> >>,
               crldp |-> CASE ch.crldp = "none" -> <<>> [] ch.crldp = "one" -> <<"http://c.example/a.crl">> [] ch.crldp = "two" -> <<"http://c.example/b.crl", "ldap://c.example/x">>,
               ocsp |-> CASE ch.aia \in {"ocsp", "both"} -> <<"http://o.example">> [] ch.aia = "two" -> <<"http://o.example", "http://p.example">> [] OTHER -> <<>>,
               issuers |-> CASE ch.aia \in {"issuer", "both"} -> <<"http://i.example/ca.crt">> [] ch.aia = "two" -> <<"http://i.example/1", "http://i.example/2">> [] OTHER -> <<>>,
               permcrit |-> ch.nccrit = "yes", pdns |-> <<>>, edns |-> <<>>, pip |-> <<>>, eip |-> <<>>, pemail |-> <<>>, eemail |-> <<>>, puri |-> <<>>, euri |-> <<>>,
               extra |-> Extra(ch.extra), alg |-> ch.alg]
        T == Nc(San(Bc(Eku(T0, ch.eku), ch.bc), ch.san), ch.nc)
        P0 == [name |-> CaName, ski |-> Rep(20, 3), ku |-> 96, key |-> signer]
        P == CASE ch.issuer = "ca" -> P0 [] ch.issuer = "self" -> [name |-> T.subject, ski |-> T.ski, ku |-> T.ku, key |-> ""]
               [] ch.issuer = "tmpl" -> [P0 EXCEPT !.key = ""] [] ch.issuer = "noski" -> [P0 EXCEPT !.ski = <<>>]
               [] ch.issuer = "otherkey" -> [P0 EXCEPT !.key = IF signer = "sm2" THEN "sm2b" ELSE "sm2"]
               [] ch.issuer = "samename" -> [P0 EXCEPT !.name = T.subject]
               [] OTHER -> [P0 EXCEPT !.name = Name(ch.issuer)]
    IN  [T |-> T, P |-> P, self |-> ch.issuer = "self", pub |-> IF ch.pub = "same" THEN signer ELSE ch.pub]

Attr(o, vs) == [oid |-> o, values |-> vs]
OUnstr == <<42,134,72,134,247,13,1,9,2>>
SanVal == Enc(TSeq, Enc(130, <<122, 46, 122>>))
Csr ==
    LET plain == Attr(OUnstr, << << A(OUnstr, <<1, 2>>) >> >>)
        plain2 == Attr(UnkOid, << << A(OUnstr, <<>>), A(UnkOid, <<9>>) >> >>)
        req(as) == Attr(OExtReq, << as >>)
        T0 == [subject |-> Name(ch.subject), dns |-> <<>>, emails |-> <<>>, ips |-> <<>>, uris |-> <<>>, extra |-> Extra(ch.extra), alg |-> ch.alg,
               attrs |-> CASE ch.attrs = "none" -> <<>> [] ch.attrs = "plain" -> <<plain>> [] ch.attrs = "two" -> <<plain2, plain>>
                           [] ch.attrs = "values" -> << Attr(OUnstr, << << A(OUnstr, <<7, 7>>) >>, << A(OUnstr, <<1>>) >> >>) >>
                           [] ch.attrs = "extreq" -> << req(<< A(OExt(97), <<5, 0>>) >>) >>
                           [] ch.attrs = "extreqsan" -> << req(<< A(OSan, SanVal) >>) >>
                           [] ch.attrs = "extreqnew" -> << plain, req(<< A(UnkOid, <<3>>), A(OKu, <<3, 2, 5, 160>>) >>) >>
                           [] ch.attrs = "empty" -> << Attr(OUnstr, <<>>) >>
                           [] ch.attrs = "extreq2" -> << Attr(OExtReq, << << A(OExt(97), <<5, 0>>) >>, << A(OSan, SanVal), A(UnkOid, <<9>>) >> >>) >>
                           [] ch.attrs = "extreq2san" -> << Attr(OExtReq, << << A(OSan, SanVal) >>, << A(UnkOid, <<9>>), A(OKu, <<3, 2, 5, 160>>) >> >>), plain >>
                           [] ch.attrs = "extreqtwice" -> << req(<< A(OExt(97), <<5, 0>>) >>), req(<< A(OExt(96), <<9>>) >>) >>
                           [] ch.attrs = "extreqvoid" -> << Attr(OExtReq, <<>>), req(<< A(OExt(96), <<9>>) >>) >>
                           [] ch.attrs = "after" -> << req(<< A(OExt(97), <<5, 0>>) >>), plain >>]
    IN  [T |-> San(T0, ch.san)]

Entry(z, t, x) == [serial |-> z, t |-> t, exts |-> x]
OReason == OExt(21)
Crl ==
    LET t0 == Time("day")
        one == << Entry(Num("n"), t0, <<>>) >>
        T == [api |-> ch.api, alg |-> ch.alg, hasnumber |-> ch.number # "none", number |-> Num(ch.number), tu |-> Time(ch.tu), nu |-> Time(ch.nu),
              extra |-> Extra(ch.extra),
              entries |-> CASE ch.entries \in {"one", "tz"} -> one [] ch.entries = "none" -> <<>>
                            [] ch.entries = "two" -> one \o << Entry(Num("1"), Time("2020"), <<>>) >>
                            [] ch.entries = "many" -> [j \in 1..30 |-> Entry(SInt(FALSE, <<j, 200>>), <<t0[1] + j, j>>, <<>>)]
                            [] ch.entries = "exts" -> << Entry(Num("128"), t0, << Ex(OReason, FALSE, <<10, 1, 1>>), Ex(UnkOid, TRUE, <<5, 0>>) >>), Entry(Num("1"), t0, <<>>) >>
                            [] ch.entries = "old" -> << Entry(Num("n"), Time("1949"), <<>>), Entry(Num("1"), Time("1950"), <<>>) >>
                            [] ch.entries = "new" -> << Entry(Num("n"), Time("2049"), <<>>), Entry(Num("1"), Time("2050"), <<>>) >>
                            [] ch.entries = "serial0" -> << Entry(Num("0"), t0, <<>>) >> [] ch.entries = "serialneg" -> << Entry(Num("neg129"), t0, <<>>) >>
                            [] ch.entries = "serialbig" -> << Entry(Num("big"), t0, <<>>) >>
                            [] ch.entries = "twice" -> one \o << Entry(Num("1"), t0, <<>>), Entry(Num("n"), Time("2020"), << Ex(OReason, FALSE, <<10, 1, 1>>) >>) >>
                            [] ch.entries = "plusminus" -> << Entry(SInt(FALSE, <<129>>), t0, <<>>), Entry(Num("neg129"), t0, <<>>) >>
                            [] ch.entries = "same" -> one \o one]
        P == [name |-> Name(ch.isname), ski |-> CASE ch.isski = "20" -> Cnt(20) [] ch.isski = "1" -> <<0>> [] OTHER -> <<>>,
              ku |-> CASE ch.isku = "crl" -> 64 [] ch.isku = "none" -> 0 [] ch.isku = "cert" -> 32 [] ch.isku = "allbutcrl" -> 447 [] ch.isku = "both" -> 96,
              key |-> signer]
    IN  [T |-> T, P |-> P]

\* CreateCRL chooses the algorithm itself and takes neither number nor extra extensions
Useful == fam = "crl" /\ ch.api = "crl" => ch.alg = "" /\ ch.extra = "none" /\ ch.number = "n"
NbOf == CASE fam = "cert" -> ch.nb [] fam = "crl" -> ch.tu [] OTHER -> ""
NaOf == CASE fam = "cert" -> ch.na [] fam = "crl" -> ch.nu [] OTHER -> ""
Scenario == [fam |-> fam, mode |-> ch.mode, key |-> signer, zb |-> Zone(NbOf), za |-> Zone(NaOf), ze |-> IF fam = "crl" THEN Zone(ch.entries) ELSE 0,
             fb |-> Nanos(NbOf), fa |-> Nanos(NaOf),
             case |-> fam \o " by " \o signer \o FoldLeft(LAMBDA acc, pl : acc \o " " \o pl \o "=" \o ch[pl], "", SetToSeq(dev \cup {pl \in Places(fam) : pl = "api"}))]
            @@ (CASE fam = "cert" -> Cert [] fam = "csr" -> Csr [] fam = "crl" -> Crl)
Emit == Useful /\ (Each \/ done) => PrintT("@SCN@" \o ToJson(Scenario))
=============================================================================
