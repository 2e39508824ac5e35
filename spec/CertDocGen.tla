----------------------------- MODULE CertDocGen -----------------------------
(* Certificates, requests and revocation lists written octet by octet, not  *)
(* by the package: a plain document deviating in at most MaxDev places, to  *)
(* be read by the parsers.  Signatures are of no matter here.               *)
EXTENDS X509, KeyDocs, FiniteSets

CONSTANTS Fams, MaxDev, Each
VARIABLES fam, ch, dev, done

Str(tag, c) == Enc(tag, c)
Cn == ONameAttr(3)
Attrs(o, body) == Enc(TSeq, Enc(TOid, o) \o body)
Rdn(as) == Enc(TSet, as)
Abc == <<65, 98, 99>>
One(body) == Enc(TSeq, Rdn(Attrs(Cn, body)))
Names == <<
    <<"utf8", One(Str(TUtf8, Abc))>>, <<"printable", One(Str(TPrintable, Abc))>>, <<"star", One(Str(TPrintable, <<42, 38>>))>>,
    <<"at", One(Str(TPrintable, <<97, 64, 98>>))>>, <<"under", One(Str(TPrintable, <<97, 95>>))>>, <<"t61", One(Str(TT61, Abc))>>,
    <<"t61high", One(Str(TT61, <<65, 228>>))>>, <<"bmp", One(Str(TBmp, <<0, 65, 32, 172>>))>>, <<"bmpodd", One(Str(TBmp, <<0, 65, 0>>))>>,
    <<"bmpterm", One(Str(TBmp, <<0, 65, 0, 0>>))>>, <<"bmpsur", One(Str(TBmp, <<216, 61, 222, 0>>))>>, <<"bmplone", One(Str(TBmp, <<216, 61, 0, 65>>))>>,
    <<"bmpempty", One(Str(TBmp, <<>>))>>, <<"bmpnul", One(Str(TBmp, <<0, 0>>))>>,
    <<"ia5", One(Str(TIA5, <<97, 64, 98>>))>>, <<"ia5high", One(Str(TIA5, <<97, 128>>))>>, <<"numeric", One(Str(18, <<49, 32>>))>>,
    <<"numericbad", One(Str(18, <<49, 65>>))>>, <<"universal", One(Str(28, <<0, 0, 0, 65>>))>>, <<"visible", One(Str(26, Abc))>>,
    <<"badutf8", One(Str(TUtf8, <<195, 40>>))>>, <<"overlong", One(Str(TUtf8, <<192, 128>>))>>, <<"utf8sur", One(Str(TUtf8, <<237, 160, 128>>))>>,
    <<"nul", One(Str(TUtf8, <<0, 65>>))>>, <<"long", One(Str(TUtf8, [j \in 1..200 |-> 97]))>>,
    <<"multi", Enc(TSeq, Rdn(Attrs(ONameAttr(10), Str(TUtf8, Abc)) \o Attrs(Cn, Str(TUtf8, <<100>>))) \o Rdn(Attrs(ONameAttr(46), Str(TPrintable, <<49>>))))>>,
    <<"all", Enc(TSeq, FlattenSeq([j \in 1..8 |-> Rdn(Attrs(ONameAttr(<<6, 8, 7, 9, 17, 10, 11, 5>>[j]), Str(TPrintable, <<67, 64 + j>>)))])
             \o Rdn(Attrs(<<9,146,38,137,147,242,44,100,1,25>>, Str(TIA5, <<100, 99>>))))>>,
    <<"empty", <<48, 0>> >>, <<"emptyset", Enc(TSeq, Rdn(<<>>))>>, <<"seqset", Enc(TSeq, Enc(TSeq, Attrs(Cn, Str(TUtf8, Abc))))>>,
    <<"attr3", One(Str(TUtf8, Abc) \o DerNull)>>, <<"attr1", One(<<>>)>>, <<"int", One(Enc(TInteger, <<5>>))>>, <<"boolval", One(Enc(TBool, <<255>>))>>,
    <<"oidbad", Enc(TSeq, Rdn(Enc(TSeq, Enc(TOid, <<85, 128, 3>>) \o Str(TUtf8, Abc))))>>, <<"oidempty", Enc(TSeq, Rdn(Enc(TSeq, Enc(TOid, <<>>) \o Str(TUtf8, Abc))))>>,
    <<"oidopen", Enc(TSeq, Rdn(Enc(TSeq, Enc(TOid, <<85, 132>>) \o Str(TUtf8, Abc))))>>, <<"bigarc", Enc(TSeq, Rdn(Attrs(<<42, 143, 255, 255, 255, 127>>, Str(TUtf8, Abc))))>>,
    <<"asset", Enc(TSet, Rdn(Attrs(Cn, Str(TUtf8, Abc))))>>, <<"nonmin", <<48, 129, 0>> >> >>
NameNo(s) == Names[CHOOSE j \in 1..Len(Names) : Names[j][1] = s][2]
NamesOf(t) == [j \in 1..Len(t) |-> t[j][1]]

\* text of times
U(s) == Enc(TUTCTime, s)
G(s) == Enc(TGenTime, s)
T20 == <<50,48,48,50,50,57,48,49,48,50,48,51,90>>                      \* 200229010203Z
D(y, r) == y \o r
R0 == <<48,50,50,57,48,49,48,50,48,51,90>>                              \* 0229010203Z
R1 == <<48,50,50,56,48,49,48,50,48,51,90>>                              \* 0228010203Z
Y(a1, b1) == <<48 + (a1 \div 10), 48 + (a1 % 10), 48 + (b1 \div 10), 48 + (b1 % 10)>>
Times == <<
    <<"utc", U(T20)>>, <<"gen2052", G(D(Y(20, 52), R0))>>, <<"gen2020", G(D(Y(20, 20), R0))>>, <<"gen1949", G(D(Y(19, 49), R1))>>, <<"gen0000", G(D(Y(0, 0), R0))>>,
    <<"gen9999", G(D(Y(99, 99), R1))>>, <<"gen1900", G(D(Y(19, 0), R0))>>, <<"gen2100", G(D(Y(21, 0), R1))>>,
    <<"utc50", U(<<53, 48>> \o R1)>>, <<"utc49", U(<<52, 57>> \o R1)>>, <<"utc00", U(<<48, 48>> \o R0)>>,
    <<"nosec", U(<<50,48,48,50,50,57,48,49,48,50,90>>)>>, <<"plus", U(<<50,48,48,50,50,57,48,49,48,50,48,51,43,48,56,48,48>>)>>,
    <<"minus", U(<<50,48,48,50,50,57,50,51,48,50,48,51,45,48,56,51,48>>)>>, <<"plus0", U(<<50,48,48,50,50,57,48,49,48,50,48,51,43,48,48,48,48>>)>>,
    <<"minus0", U(<<50,48,48,50,50,57,48,49,48,50,48,51,45,48,48,48,48>>)>>,
    <<"genplus", G(Y(20, 52) \o <<48,50,50,57,48,49,48,50,48,51,43,48,56,48,48>>)>>,
    <<"frac", U(<<50,48,48,50,50,57,48,49,48,50,48,51,46,53,90>>)>>, <<"genfrac", G(Y(20, 52) \o <<48,50,50,57,48,49,48,50,48,51,46,53,90>>)>>,
    <<"lower", U(<<50,48,48,50,50,57,48,49,48,50,48,51,122>>)>>, <<"noz", U(<<50,48,48,50,50,57,48,49,48,50,48,51>>)>>, <<"gennoz", G(Y(20, 52) \o <<48,50,50,57,48,49,48,50,48,51>>)>>,
    <<"month0", U(<<50,48,48,48,50,57,48,49,48,50,48,51,90>>)>>, <<"month13", U(<<50,48,49,51,50,57,48,49,48,50,48,51,90>>)>>, <<"day0", U(<<50,48,48,50,48,48,48,49,48,50,48,51,90>>)>>,
    <<"feb30", U(<<50,48,48,50,51,48,48,49,48,50,48,51,90>>)>>, <<"feb29", U(<<50,49,48,50,50,57,48,49,48,50,48,51,90>>)>>, <<"h24", U(<<50,48,48,50,50,57,50,52,48,50,48,51,90>>)>>,
    <<"m60", U(<<50,48,48,50,50,57,48,49,54,48,48,51,90>>)>>, <<"s60", U(<<50,48,48,50,50,57,48,49,48,50,54,48,90>>)>>, <<"letters", U(<<50,48,48,50,50,57,65,49,48,50,48,51,90>>)>>,
    <<"space", U(<<50,48,32,50,50,57,48,49,48,50,48,51,90>>)>>, <<"sign", U(<<50,48,43,50,50,57,48,49,48,50,48,51,90>>)>>,
    <<"empty", U(<<>>)>>, <<"genempty", G(<<>>)>>, <<"utf8", Enc(TUtf8, T20)>>, <<"seq", Enc(TSeq, <<>>)>>, <<"utc4", U(D(Y(20, 20), R0))>>, <<"gen2", G(T20)>>, <<"absent", <<>> >> >>
TimeNo(s) == Times[CHOOSE j \in 1..Len(Times) : Times[j][1] = s][2]

\* algorithm identifiers
PssPar(h, mgf, mgfh, salt, hn, tr) == Enc(TSeq, Enc(160, Enc(TSeq, Enc(TOid, HashOid(h)) \o hn)) \o Enc(161, Enc(TSeq, Enc(TOid, mgf) \o Enc(TSeq, Enc(TOid, HashOid(mgfh)) \o hn)))
                                         \o Enc(162, Enc(TInteger, <<salt>>)) \o tr)
Pss(h, mgfh, salt, hn, tr) == Enc(TSeq, Enc(TOid, OPss) \o PssPar(h, OMgf1, mgfh, salt, hn, tr))
AlgOidOf(nm) == SigOids[CHOOSE j \in 1..Len(SigOids) : SigOids[j][1] = nm][2]
Ai(nm, par) == Enc(TSeq, Enc(TOid, AlgOidOf(nm)) \o par)
Algs == <<
    <<"sm2", Ai("SM2-SM3", <<>>)>>, <<"sm2null", Ai("SM2-SM3", DerNull)>>, <<"rsa", Ai("SHA256-RSA", DerNull)>>, <<"rsanonull", Ai("SHA384-RSA", <<>>)>>,
    <<"rsa512", Ai("SHA512-RSA", DerNull)>>, <<"rsaseq", Ai("SHA256-RSA", Enc(TSeq, <<>>))>>, <<"md5", Ai("MD5-RSA", DerNull)>>, <<"sha1", Ai("SHA1-RSA", DerNull)>>,
    <<"dsa", Ai("DSA-SHA1", <<>>)>>, <<"dsa256", Ai("DSA-SHA256", <<>>)>>, <<"ecdsa1", Ai("ECDSA-SHA1", <<>>)>>, <<"ecdsa", Ai("ECDSA-SHA256", <<>>)>>,
    <<"ecdsa384", Ai("ECDSA-SHA384", <<>>)>>, <<"ecdsa512", Ai("ECDSA-SHA512", DerNull)>>,
    <<"ed", Ai("Ed25519", <<>>)>>, <<"ednull", Ai("Ed25519", DerNull)>>,
    <<"pss256", Pss("sha256", "sha256", 32, DerNull, <<>>)>>, <<"pss384", Pss("sha384", "sha384", 48, DerNull, <<>>)>>, <<"pss512", Pss("sha512", "sha512", 64, DerNull, <<>>)>>,
    <<"pssnonull", Pss("sha256", "sha256", 32, <<>>, <<>>)>>, <<"psstr1", Pss("sha256", "sha256", 32, DerNull, Enc(163, Enc(TInteger, <<1>>)))>>,
    <<"psstr2", Pss("sha256", "sha256", 32, DerNull, Enc(163, Enc(TInteger, <<2>>)))>>, <<"psssalt", Pss("sha256", "sha256", 20, DerNull, <<>>)>>,
    <<"pssmix", Pss("sha256", "sha512", 32, DerNull, <<>>)>>, <<"pssmgf", Enc(TSeq, Enc(TOid, OPss) \o PssPar("sha256", OPss, "sha256", 32, DerNull, <<>>))>>,
    <<"pssempty", Enc(TSeq, Enc(TOid, OPss) \o Enc(TSeq, <<>>))>>, <<"pssabsent", Enc(TSeq, Enc(TOid, OPss))>>, <<"pssnull", Enc(TSeq, Enc(TOid, OPss) \o DerNull)>>,
    <<"psshpar", Pss("sha256", "sha256", 32, Enc(TSeq, <<>>), <<>>)>>,
    <<"unknown", Enc(TSeq, Enc(TOid, UnknownOid))>>, <<"unknownpar", Enc(TSeq, Enc(TOid, UnknownOid) \o Enc(TOctets, <<1>>))>>,
    <<"sm2key", Enc(TSeq, Enc(TOid, OidEC) \o OidOf(CurveOid("SM2")))>>,
    <<"oidbad", Enc(TSeq, Enc(TOid, <<42, 128>>))>>, <<"empty", Enc(TSeq, <<>>)>>, <<"notseq", Enc(TSet, Enc(TOid, UnknownOid))>>,
    <<"three", Enc(TSeq, Enc(TOid, AlgOidOf("SM2-SM3")) \o DerNull \o DerNull)>> >>
AlgNo(s) == Algs[CHOOSE j \in 1..Len(Algs) : Algs[j][1] = s][2]

\* public keys (KeyDocs)
Pk0 == [alg |-> "right", par |-> "right", pt |-> "right", pad |-> "0", tail |-> ""]
Dsa0 == [field |-> "none", how |-> "plus2", par |-> "right", pt |-> "right", pad |-> "0", tail |-> ""]
Keys == <<
    <<"sm2", Pkix("SM2", Pk0)>>, <<"p224", Pkix("P-224", Pk0)>>, <<"p256", Pkix("P-256", Pk0)>>, <<"p384", Pkix("P-384", Pk0)>>, <<"p521", Pkix("P-521", Pk0)>>,
    <<"rsa", Pkix("RSA", Pk0)>>, <<"ed", Pkix("Ed", Pk0)>>, <<"unknown", Pkix("SM2", [Pk0 EXCEPT !.alg = "unknown"])>>, <<"x25519", Pkix("Ed", [Pk0 EXCEPT !.alg = "X25519"])>>,
    <<"off", Pkix("SM2", [Pk0 EXCEPT !.pt = "off"])>>, <<"p256off", Pkix("P-256", [Pk0 EXCEPT !.pt = "off"])>>, <<"compressed", Pkix("SM2", [Pk0 EXCEPT !.pt = "compressed"])>>,
    <<"hybrid", Pkix("SM2", [Pk0 EXCEPT !.pt = "hybrid"])>>, <<"infinity", Pkix("SM2", [Pk0 EXCEPT !.pt = "infinity"])>>, <<"xbig", Pkix("SM2", [Pk0 EXCEPT !.pt = "xbig"])>>,
    <<"zero", Pkix("SM2", [Pk0 EXCEPT !.pt = "zero"])>>, <<"long", Pkix("SM2", [Pk0 EXCEPT !.pt = "long"])>>, <<"noparams", Pkix("SM2", [Pk0 EXCEPT !.par = "absent"])>>,
    <<"nullparams", Pkix("SM2", [Pk0 EXCEPT !.par = "null"])>>, <<"othercurve", Pkix("SM2", [Pk0 EXCEPT !.par = "other"])>>, <<"unknowncurve", Pkix("SM2", [Pk0 EXCEPT !.par = "unknown"])>>,
    <<"rsanoparams", Pkix("RSA", [Pk0 EXCEPT !.par = "absent"])>>, <<"rsaneg", Pkix("RSA", [Pk0 EXCEPT !.pt = "rsaneg"])>>, <<"rsazero", Pkix("RSA", [Pk0 EXCEPT !.pt = "rsazero"])>>,
    <<"rsatail", Pkix("RSA", [Pk0 EXCEPT !.pt = "rsatail"])>>, <<"ednull", Pkix("Ed", [Pk0 EXCEPT !.par = "null"])>>, <<"edshort", Pkix("Ed", [Pk0 EXCEPT !.pt = "short"])>>,
    <<"pad1", Pkix("SM2", [Pk0 EXCEPT !.pad = "1"])>>, <<"inside", Pkix("SM2", [Pk0 EXCEPT !.tail = "inside"])>>, <<"octets", Pkix("SM2", [Pk0 EXCEPT !.tail = "octets"])>>,
    <<"dsakey", DsaPix(Dsa0)>>, <<"dsaneg", DsaPix([Dsa0 EXCEPT !.field = "g", !.how = "neg"])>>, <<"dsazero", DsaPix([Dsa0 EXCEPT !.field = "y", !.how = "zero"])>>,
    <<"dsanoparams", DsaPix([Dsa0 EXCEPT !.par = "absent"])>>, <<"dsatwo", DsaPix([Dsa0 EXCEPT !.par = "two"])>> >>
KeyNo(s) == Keys[CHOOSE j \in 1..Len(Keys) : Keys[j][1] = s][2]

\* extensions: name, id, value
Gn(t, c) == Enc(t, c)
Dns1 == <<97, 46, 98>>
Uri1 == HTTP \o <<97, 46, 98, 47, 99>>
Ipv4 == <<192, 0, 2, 1>>
Ipv6 == <<32, 1>> \o [j \in 1..14 |-> j]
DirName == Enc(164, One(Str(TUtf8, Abc)))
Sub(t, c) == Enc(TSeq, Enc(t, c))
Nc(p, x) == Enc(TSeq, (IF p = <<>> THEN <<>> ELSE Enc(160, p)) \o (IF x = <<>> THEN <<>> ELSE Enc(161, x)))
B1(c) == Enc(TBitString, c)
Dp(c) == Enc(TSeq, c)
Full(c) == Enc(160, Enc(160, c))
Exts == <<
    <<"ku", OKu, B1(<<5, 160>>)>>, <<"ku0", OKu, B1(<<0>>)>>, <<"kuempty", OKu, B1(<<>>)>>, <<"ku9", OKu, B1(<<7, 1, 128>>)>>, <<"kuloose", OKu, B1(<<0, 160>>)>>,
    <<"kuzero", OKu, B1(<<5, 160, 0>>)>>, <<"kupad", OKu, B1(<<5, 161>>)>>, <<"ku8pad", OKu, B1(<<8, 160>>)>>, <<"kulong", OKu, B1(<<0, 255, 255, 255>>)>>, <<"kutail", OKu, B1(<<5, 160>>) \o DerNull>>,
    <<"kuoct", OKu, Enc(TOctets, <<5, 160>>)>>, <<"kunone", OKu, <<>> >>, <<"kupadonly", OKu, B1(<<3>>)>>,
    <<"bcempty", OBc, <<48, 0>> >>, <<"bcca", OBc, Enc(TSeq, Enc(TBool, <<255>>))>>, <<"bc0", OBc, Enc(TSeq, Enc(TBool, <<255>>) \o Enc(TInteger, <<0>>))>>,
    <<"bc5", OBc, Enc(TSeq, Enc(TBool, <<255>>) \o Enc(TInteger, <<5>>))>>, <<"bcfalse", OBc, Enc(TSeq, Enc(TBool, <<0>>))>>, <<"bcleaf5", OBc, Enc(TSeq, Enc(TInteger, <<5>>))>>,
    <<"bcone", OBc, Enc(TSeq, Enc(TBool, <<1>>))>>, <<"bcneg", OBc, Enc(TSeq, Enc(TBool, <<255>>) \o Enc(TInteger, <<255>>))>>, <<"bcneg2", OBc, Enc(TSeq, Enc(TBool, <<255>>) \o Enc(TInteger, <<254>>))>>,
    <<"bcbig", OBc, Enc(TSeq, Enc(TBool, <<255>>) \o Enc(TInteger, <<1, 0, 0>>))>>, <<"bcnonmin", OBc, Enc(TSeq, Enc(TBool, <<255>>) \o Enc(TInteger, <<0, 5>>))>>,
    <<"bcbool2", OBc, Enc(TSeq, Enc(TBool, <<255, 255>>))>>, <<"bctail", OBc, Enc(TSeq, Enc(TBool, <<255>>)) \o DerNull>>, <<"bcin", OBc, Enc(TSeq, Enc(TBool, <<255>>) \o Enc(TInteger, <<5>>) \o DerNull)>>,
    <<"bcset", OBc, Enc(TSet, Enc(TBool, <<255>>))>>,
    <<"sandns", OSan, Enc(TSeq, Gn(130, Dns1))>>, <<"sanmail", OSan, Enc(TSeq, Gn(129, <<97, 64, 98>>))>>, <<"sanip", OSan, Enc(TSeq, Gn(135, Ipv4) \o Gn(135, Ipv6))>>,
    <<"sanip5", OSan, Enc(TSeq, Gn(135, Append(Ipv4, 1)))>>, <<"sanip0", OSan, Enc(TSeq, Gn(135, <<>>))>>, <<"sanuri", OSan, Enc(TSeq, Gn(134, Uri1))>>,
    <<"sanuribad", OSan, Enc(TSeq, Gn(134, HTTP \o <<37>>))>>, <<"sanhighs", OSan, Enc(TSeq, Gn(130, <<97, 128>>))>>, <<"sanmailhigh", OSan, Enc(TSeq, Gn(129, <<200>>))>>,
    <<"sandir", OSan, Enc(TSeq, DirName)>>, <<"sanother", OSan, Enc(TSeq, Enc(160, Enc(TOid, UnknownOid) \o Enc(160, DerNull)))>>, <<"sanrid", OSan, Enc(TSeq, Gn(136, UnknownOid))>>,
    <<"sanmix", OSan, Enc(TSeq, Gn(135, Ipv4) \o DirName \o Gn(130, Dns1) \o Gn(129, <<97, 64, 98>>) \o Gn(130, <<122>>) \o Gn(134, Uri1))>>, <<"sanempty", OSan, <<48, 0>> >>,
    <<"sannul", OSan, Enc(TSeq, Gn(130, <<>>))>>, <<"santail", OSan, Enc(TSeq, Gn(130, Dns1)) \o DerNull>>, <<"santag9", OSan, Enc(TSeq, Gn(137, Dns1))>>, <<"santaguniv", OSan, Enc(TSeq, Gn(TUtf8, Dns1))>>,
    <<"sancut", OSan, Enc(TSeq, <<130, 9, 97>>)>>, <<"sanset", OSan, Enc(TSet, Gn(130, Dns1))>>, <<"sanconstr", OSan, Enc(TSeq, Enc(162, Enc(TIA5, Dns1)))>>,
    <<"ncp", ONc, Nc(Sub(130, Dns1), <<>>)>>, <<"ncx", ONc, Nc(<<>>, Sub(130, Dns1))>>, <<"ncboth", ONc, Nc(Sub(130, Dns1) \o Sub(135, Ipv4 \o <<255, 255, 0, 0>>), Sub(129, <<97, 64, 98>>) \o Sub(134, <<46>> \o Dns1))>>,
    <<"ncempty", ONc, <<48, 0>> >>, <<"ncpempty", ONc, Enc(TSeq, Enc(160, <<>>))>>, <<"ncpx", ONc, Enc(TSeq, Enc(160, <<>>) \o Enc(161, Sub(130, Dns1)))>>, <<"ncmin", ONc, Nc(Enc(TSeq, Gn(130, Dns1) \o Enc(128, <<0>>)), <<>>)>>,
    <<"ncip6", ONc, Nc(Sub(135, Ipv6 \o [j \in 1..16 |-> IF j < 6 THEN 255 ELSE 0]), <<>>)>>, <<"ncip5", ONc, Nc(Sub(135, <<1, 2, 3, 4, 5>>), <<>>)>>, <<"ncmask", ONc, Nc(Sub(135, Ipv4 \o <<255, 0, 255, 0>>), <<>>)>>,
    <<"ncmask2", ONc, Nc(Sub(135, Ipv4 \o <<255, 253, 0, 0>>), <<>>)>>, <<"ncdir", ONc, Nc(Enc(TSeq, DirName), <<>>)>>, <<"ncdirmix", ONc, Nc(Enc(TSeq, DirName) \o Sub(130, Dns1), Enc(TSeq, DirName))>>,
    <<"ncdot", ONc, Nc(Sub(130, <<46>> \o Dns1), Sub(129, <<46>> \o Dns1))>>, <<"ncnull", ONc, Nc(Sub(130, <<>>), Sub(134, <<>>))>>, <<"ncmail", ONc, Nc(Sub(129, Dns1), <<>>)>>,
    <<"ncmailbad", ONc, Nc(Sub(129, <<64, 98>>), <<>>)>>, <<"nchigh", ONc, Nc(Sub(130, <<200>>), <<>>)>>, <<"ncspace", ONc, Nc(Sub(130, <<97, 32, 98>>), <<>>)>>, <<"ncdots", ONc, Nc(Sub(130, <<97, 46, 46, 98>>), <<>>)>>,
    <<"ncuriip", ONc, Nc(Sub(134, <<49, 46, 50, 46, 51, 46, 52>>), <<>>)>>, <<"nctail", ONc, Nc(Sub(130, Dns1), <<>>) \o DerNull>>, <<"ncorder", ONc, Enc(TSeq, Enc(161, Sub(130, Dns1)) \o Enc(160, Sub(130, Dns1)))>>,
    <<"dp", OCrlDp, Enc(TSeq, Dp(Full(Gn(134, Uri1))))>>, <<"dp2", OCrlDp, Enc(TSeq, Dp(Full(Gn(134, Uri1) \o Gn(134, Dns1))) \o Dp(Full(Gn(134, Dns1))))>>, <<"dpdir", OCrlDp, Enc(TSeq, Dp(Full(DirName \o Gn(134, Uri1))))>>,
    <<"dpuridir", OCrlDp, Enc(TSeq, Dp(Full(Gn(134, Uri1) \o DirName)))>>, <<"dpreason", OCrlDp, Enc(TSeq, Dp(Full(Gn(134, Uri1)) \o Enc(129, <<1, 2>>)))>>, <<"dpissuer", OCrlDp, Enc(TSeq, Dp(Enc(162, DirName)))>>,
    <<"dprel", OCrlDp, Enc(TSeq, Dp(Enc(160, Enc(161, Attrs(Cn, Str(TUtf8, Abc))))))>>, <<"dpnone", OCrlDp, <<48, 0>> >>, <<"dpempty", OCrlDp, Enc(TSeq, Dp(<<>>))>>, <<"dpnofull", OCrlDp, Enc(TSeq, Dp(Enc(160, <<>>)))>>,
    <<"aki", OAki, Enc(TSeq, Enc(128, <<1, 2, 3>>))>>, <<"akifull", OAki, Enc(TSeq, Enc(128, <<1, 2, 3>>) \o Enc(161, DirName) \o Enc(130, <<5>>))>>, <<"akiempty", OAki, <<48, 0>> >>,
    <<"akiissuer", OAki, Enc(TSeq, Enc(161, DirName) \o Enc(130, <<5>>))>>, <<"akinull", OAki, Enc(TSeq, Enc(128, <<>>))>>, <<"akioct", OAki, Enc(TOctets, <<1>>)>>,
    <<"eku", OEku, Enc(TSeq, Enc(TOid, EkuOids[2]) \o Enc(TOid, UnknownOid) \o Enc(TOid, EkuOids[1]))>>, <<"ekuempty", OEku, <<48, 0>> >>, <<"ekubad", OEku, Enc(TSeq, Enc(TOid, <<42, 128, 1>>))>>,
    <<"ekuint", OEku, Enc(TSeq, Enc(TInteger, <<1>>))>>, <<"ekuall", OEku, Enc(TSeq, FlattenSeq([j \in 1..14 |-> Enc(TOid, EkuOids[15 - j])]))>>,
    <<"ski", OSki, Enc(TOctets, <<9, 8, 7>>)>>, <<"skiempty", OSki, Enc(TOctets, <<>>)>>, <<"skiseq", OSki, Enc(TSeq, <<>>)>>, <<"skitail", OSki, Enc(TOctets, <<9>>) \o DerNull>>, <<"skiraw", OSki, <<9, 8, 7>> >>,
    <<"pol", OPol, Enc(TSeq, Enc(TSeq, Enc(TOid, <<85, 29, 32, 0>>)) \o Enc(TSeq, Enc(TOid, UnknownOid) \o Enc(TSeq, Enc(TSeq, Enc(TOid, OOcsp) \o Enc(TIA5, Uri1)))))>>, <<"polempty", OPol, <<48, 0>> >>,
    <<"polint", OPol, Enc(TSeq, Enc(TSeq, Enc(TInteger, <<1>>)))>>, <<"polflat", OPol, Enc(TSeq, Enc(TOid, UnknownOid))>>,
    <<"aia", OAia, Enc(TSeq, Enc(TSeq, Enc(TOid, OOcsp) \o Gn(134, Uri1)) \o Enc(TSeq, Enc(TOid, OCaIss) \o Gn(134, Dns1)) \o Enc(TSeq, Enc(TOid, UnknownOid) \o Gn(134, Uri1)))>>,
    <<"aiadir", OAia, Enc(TSeq, Enc(TSeq, Enc(TOid, OOcsp) \o DirName) \o Enc(TSeq, Enc(TOid, OOcsp) \o Gn(134, Uri1)))>>, <<"aiaempty", OAia, <<48, 0>> >>, <<"aiashort", OAia, Enc(TSeq, Enc(TSeq, Enc(TOid, OOcsp)))>>,
    <<"aiabad", OAia, Enc(TSeq, Enc(TSeq, Gn(134, Uri1)))>>,
    <<"unknown", UnknownOid, <<5, 0>> >>, <<"unknownraw", UnknownOid, <<>> >>, <<"polmap", OExt(33), Enc(TSeq, <<>>)>>, <<"anypol", OExt(54), Enc(TInteger, <<0>>)>>, <<"polcon", OExt(36), Enc(TSeq, Enc(128, <<0>>))>>,
    <<"ian", OExt(18), Enc(TSeq, Gn(130, Dns1))>>, <<"nscomment", <<96,134,72,1,134,248,66,1,13>>, Enc(TIA5, Abc)>>, <<"oidbad", <<85, 29, 128>>, <<5, 0>> >> >>
ExtNames == <<"none">> \o NamesOf(Exts)
CritMenu == <<"absent", "true", "false", "one", "int", "empty", "after">>
BuildExt(s, crit) ==
    LET x == Exts[CHOOSE j \in 1..Len(Exts) : Exts[j][1] = s]
        o == Enc(TOid, x[2])
        v == Enc(TOctets, x[3])
    IN  Enc(TSeq, CASE crit = "absent" -> o \o v [] crit = "true" -> o \o Enc(TBool, <<255>>) \o v [] crit = "false" -> o \o Enc(TBool, <<0>>) \o v
                    [] crit = "one" -> o \o Enc(TBool, <<1>>) \o v [] crit = "int" -> o \o Enc(TInteger, <<1>>) \o v [] crit = "empty" -> o \o Enc(TBool, <<>>) \o v
                    [] crit = "after" -> o \o v \o Enc(TBool, <<255>>))

ExtMenu == [ext |-> ExtNames, ext2 |-> <<"none", "ku", "bcca", "sandns", "sandir", "ncp", "ski", "unknown", "aki", "eku">>, crit |-> CritMenu,
            exts |-> <<"right", "dup", "emptyseq", "bare", "extra", "str", "triple", "unclosed">>]
SigMenu == [sig |-> <<"bits", "pad", "empty", "nobits", "octets", "absent">>, tail |-> <<"", "tbs", "inside", "after">>]
Menu(f) ==
  CASE f = "cert" -> ExtMenu @@ SigMenu @@
        [version |-> <<"3", "absent", "1", "2", "4", "neg", "two", "empty", "bare">>, serial |-> <<"n", "0", "neg", "big", "huge", "nonmin", "empty", "octets", "absent">>,
         alg |-> NamesOf(Algs), outer |-> <<"same", "other", "null", "absent">>, issuer |-> NamesOf(Names), subject |-> NamesOf(Names),
         nb |-> NamesOf(Times), na |-> NamesOf(Times), third |-> <<"no", "yes">>, key |-> NamesOf(Keys), uid |-> <<"none", "issuer", "subject", "both", "constructed", "swapped">>]
    [] f = "csr" -> ExtMenu @@ SigMenu @@
        [version |-> <<"0", "1", "neg", "absent", "big">>, alg |-> NamesOf(Algs), subject |-> NamesOf(Names), key |-> NamesOf(Keys),
         attrs |-> <<"req", "none", "absent", "challenge", "both", "tworeq", "twovals", "emptyset", "notset", "notseq", "ctx1", "primitive", "novals", "oidbad", "reqseq", "three", "threeback", "pairless">>]
    [] f = "crl" -> ExtMenu @@ SigMenu @@
        [version |-> <<"1", "absent", "0", "2", "neg", "big">>, alg |-> NamesOf(Algs), outer |-> <<"same", "other", "null", "absent">>, issuer |-> NamesOf(Names),
         tu |-> NamesOf(Times), nu |-> NamesOf(Times), rt |-> NamesOf(Times),
         revoked |-> <<"one", "none", "empty", "two", "exts", "extsempty", "noserial", "notime", "notseq", "serialneg", "serialnonmin", "extra">>]
Places(f) == DOMAIN Menu(f)
Right(f) == [pl \in Places(f) |-> Menu(f)[pl][1]]
Init == /\ fam \in Fams /\ ch = Right(fam) /\ dev = {} /\ done = FALSE
\* places that matter together
Deviate == /\ Cardinality(dev) < MaxDev
        /\ \E pl \in Places(fam) \ dev :
              \E j \in 2..Len(Menu(fam)[pl]) :
                 /\ ch' = [ch EXCEPT ![pl] = Menu(fam)[pl][j]]
                 /\ dev' = dev \cup {pl}
        /\ UNCHANGED <<fam, done>>
\* every extension is also marked critical
Critical == /\ Each /\ MaxDev = 1 /\ dev = {"ext"}
            /\ ch' = [ch EXCEPT !.crit = "true"] /\ dev' = {"ext", "crit"} /\ UNCHANGED <<fam, done>>
Finish == /\ ~Each /\ ~done /\ Cardinality(dev) = MaxDev
          /\ done' = TRUE /\ UNCHANGED <<fam, ch, dev>>
Next == Deviate \/ Critical \/ Finish
Spec == Init /\ [][Next]_<<fam, ch, dev, done>>

\* the sequence of extensions asked for; with nothing asked for, one of no kind known here
ExtSeq ==
    LET x1 == IF ch.ext = "none" THEN (IF ch.crit = "absent" THEN <<>> ELSE BuildExt("unknown", ch.crit)) ELSE BuildExt(ch.ext, ch.crit)
        x2 == IF ch.ext2 = "none" THEN <<>> ELSE BuildExt(ch.ext2, "true")
        all == x1 \o x2
    IN  CASE ch.exts = "right" -> Enc(TSeq, all) [] ch.exts = "dup" -> Enc(TSeq, all \o BuildExt("ku", "true") \o BuildExt("ku9", "true"))
          [] ch.exts = "emptyseq" -> <<48, 0>> [] ch.exts = "bare" -> all \o BuildExt("ku", "true") [] ch.exts = "extra" -> Enc(TSeq, all \o BuildExt("ku", "true")) \o DerNull
          [] ch.exts = "str" -> Enc(TSeq, all \o Enc(TSeq, Enc(TOid, OSki) \o Enc(TUtf8, <<4, 1, 1>>)))
          [] ch.exts = "triple" -> Enc(TSeq, all \o Enc(TSeq, Enc(TOid, OSki) \o Enc(TOctets, <<4, 1, 1>>) \o DerNull)) [] ch.exts = "unclosed" -> Enc(TSeq, all \o <<48, 5>>)
NoExtAsked == ch.ext = "none" /\ ch.ext2 = "none" /\ ch.crit = "absent" /\ ch.exts = "right"
SigPart == CASE ch.sig = "bits" -> Enc(TBitString, <<0, 1, 2, 3>>) [] ch.sig = "pad" -> Enc(TBitString, <<3, 1, 8>>) [] ch.sig = "empty" -> Enc(TBitString, <<0>>)
             [] ch.sig = "nobits" -> Enc(TBitString, <<>>) [] ch.sig = "octets" -> Enc(TOctets, <<1, 2>>) [] ch.sig = "absent" -> <<>>
OuterAlg == IF fam = "csr" THEN AlgNo(ch.alg)
            ELSE CASE ch.outer = "same" -> AlgNo(ch.alg) [] ch.outer = "other" -> Ai("ECDSA-SHA256", <<>>) [] ch.outer = "null" -> Ai("SM2-SM3", DerNull) [] ch.outer = "absent" -> <<>>
Seal(tbs) == Enc(TSeq, Enc(TSeq, tbs \o (IF ch.tail = "tbs" THEN DerNull ELSE <<>>)) \o OuterAlg \o SigPart \o (IF ch.tail = "inside" THEN DerNull ELSE <<>>))
             \o (IF ch.tail = "after" THEN DerNull ELSE <<>>)
Int1(c) == Enc(TInteger, c)
Serial(s) == CASE s = "n" -> Int1(<<18, 52>>) [] s = "0" -> Int1(<<0>>) [] s = "neg" -> Int1(<<200>>) [] s = "big" -> Int1(<<0>> \o [j \in 1..20 |-> 200 + j])
               [] s = "huge" -> Int1([j \in 1..60 |-> j]) [] s = "nonmin" -> Int1(<<0, 5>>) [] s = "empty" -> Int1(<<>>) [] s = "octets" -> Enc(TOctets, <<5>>) [] s = "absent" -> <<>>
CertDoc ==
    LET v == CASE ch.version = "3" -> Enc(160, Int1(<<2>>)) [] ch.version = "absent" -> <<>> [] ch.version = "1" -> Enc(160, Int1(<<0>>)) [] ch.version = "2" -> Enc(160, Int1(<<1>>))
               [] ch.version = "4" -> Enc(160, Int1(<<3>>)) [] ch.version = "neg" -> Enc(160, Int1(<<255>>)) [] ch.version = "two" -> Enc(160, Int1(<<2>>) \o Int1(<<2>>))
               [] ch.version = "empty" -> Enc(160, <<>>) [] ch.version = "bare" -> Enc(128, <<2>>)
        u1 == Enc(129, <<0, 7>>)
        u2 == Enc(130, <<0, 9, 9>>)
        u == CASE ch.uid = "none" -> <<>> [] ch.uid = "issuer" -> u1 [] ch.uid = "subject" -> u2 [] ch.uid = "both" -> u1 \o u2
               [] ch.uid = "constructed" -> Enc(161, Enc(TBitString, <<0, 7>>)) [] ch.uid = "swapped" -> u2 \o u1
        x == IF NoExtAsked /\ ch.uid = "none" THEN <<>> ELSE Enc(163, IF NoExtAsked THEN Enc(TSeq, BuildExt("bcca", "true")) ELSE ExtSeq)
    IN  Seal(v \o Serial(ch.serial) \o AlgNo(ch.alg) \o NameNo(ch.issuer) \o Enc(TSeq, TimeNo(ch.nb) \o TimeNo(ch.na) \o (IF ch.third = "yes" THEN DerNull ELSE <<>>))
             \o NameNo(ch.subject) \o KeyNo(ch.key) \o u \o x)
CsrDoc ==
    LET v == CASE ch.version = "0" -> Int1(<<0>>) [] ch.version = "1" -> Int1(<<1>>) [] ch.version = "neg" -> Int1(<<255>>) [] ch.version = "absent" -> <<>> [] ch.version = "big" -> Int1(<<1, 0>>)
        e == IF NoExtAsked THEN Enc(TSeq, BuildExt("sandns", "absent")) ELSE ExtSeq
        at(o, c) == Enc(TSeq, Enc(TOid, o) \o Enc(TSet, c))
        req == at(OExtReq, e)
        pairs == at(<<42, 3>>, Enc(TSeq, Enc(TSeq, Enc(TOid, <<42, 5>>) \o Enc(TOctets, Abc)) \o Enc(TSeq, Enc(TOid, <<42, 6>>) \o Enc(TOctets, <<>>)))
                            \o Enc(TSeq, Enc(TSeq, Enc(TOid, <<42, 5>>) \o Enc(TOctets, <<1>>))))
        chal == at(<<42,134,72,134,247,13,1,9,7>>, Enc(TUtf8, Abc))
        a1 == CASE ch.attrs = "req" -> Enc(160, req) [] ch.attrs = "none" -> Enc(160, <<>>) [] ch.attrs = "absent" -> <<>> [] ch.attrs = "challenge" -> Enc(160, chal)
                [] ch.attrs = "both" -> Enc(160, chal \o req) [] ch.attrs = "tworeq" -> Enc(160, req \o at(OExtReq, Enc(TSeq, BuildExt("sanmail", "absent"))))
                [] ch.attrs = "twovals" -> Enc(160, at(OExtReq, e \o Enc(TSeq, BuildExt("sanmail", "absent")))) [] ch.attrs = "emptyset" -> Enc(160, at(OExtReq, <<>>))
                [] ch.attrs = "notset" -> Enc(160, Enc(TSeq, Enc(TOid, OExtReq) \o e)) [] ch.attrs = "notseq" -> Enc(160, Enc(TSet, Enc(TOid, OExtReq) \o Enc(TSet, e)))
                [] ch.attrs = "ctx1" -> Enc(161, req) [] ch.attrs = "primitive" -> Enc(128, req) [] ch.attrs = "novals" -> Enc(160, Enc(TSeq, Enc(TOid, OExtReq)))
                [] ch.attrs = "three" -> Enc(160, pairs \o chal \o req) [] ch.attrs = "threeback" -> Enc(160, req \o chal \o pairs)
                [] ch.attrs = "pairless" -> Enc(160, at(<<42, 3>>, Enc(TSeq, <<>>)) \o at(<<42, 4>>, <<>>) \o req)
                [] ch.attrs = "oidbad" -> Enc(160, at(<<42, 128>>, e)) [] ch.attrs = "reqseq" -> Enc(160, Enc(TSeq, Enc(TOid, OExtReq) \o Enc(TSeq, e)))
    IN  Seal(v \o NameNo(ch.subject) \o KeyNo(ch.key) \o a1)
CrlDoc ==
    LET v == CASE ch.version = "1" -> Int1(<<1>>) [] ch.version = "absent" -> <<>> [] ch.version = "0" -> Int1(<<0>>) [] ch.version = "2" -> Int1(<<2>>) [] ch.version = "neg" -> Int1(<<255>>) [] ch.version = "big" -> Int1(<<1, 0>>)
        t == TimeNo(ch.rt)
        en(c) == Enc(TSeq, c)
        r == CASE ch.revoked = "one" -> Enc(TSeq, en(Int1(<<5>>) \o t)) [] ch.revoked = "none" -> <<>> [] ch.revoked = "empty" -> Enc(TSeq, <<>>)
               [] ch.revoked = "two" -> Enc(TSeq, en(Int1(<<5>>) \o t) \o en(Int1(<<0, 200>>) \o t)) [] ch.revoked = "exts" -> Enc(TSeq, en(Int1(<<5>>) \o t \o Enc(TSeq, BuildExt("unknown", "true"))))
               [] ch.revoked = "extsempty" -> Enc(TSeq, en(Int1(<<5>>) \o t \o <<48, 0>>)) [] ch.revoked = "noserial" -> Enc(TSeq, en(t)) [] ch.revoked = "notime" -> Enc(TSeq, en(Int1(<<5>>)))
               [] ch.revoked = "notseq" -> Enc(TSeq, Enc(TSet, Int1(<<5>>) \o t)) [] ch.revoked = "serialneg" -> Enc(TSeq, en(Int1(<<128>>) \o t)) [] ch.revoked = "serialnonmin" -> Enc(TSeq, en(Int1(<<0, 1>>) \o t))
               [] ch.revoked = "extra" -> Enc(TSeq, en(Int1(<<5>>) \o t \o DerNull))
        x == IF NoExtAsked THEN <<>> ELSE Enc(160, ExtSeq)
    IN  Seal(v \o AlgNo(ch.alg) \o NameNo(ch.issuer) \o TimeNo(ch.tu) \o TimeNo(ch.nu) \o r \o x)

Scenario == [fam |-> fam, der |-> CASE fam = "cert" -> CertDoc [] fam = "csr" -> CsrDoc [] fam = "crl" -> CrlDoc,
             case |-> fam \o FoldLeft(LAMBDA acc, pl : acc \o " " \o pl \o "=" \o ch[pl], "", SetToSeq(dev))]
Emit == (Each \/ done) => PrintT("@SCN@" \o ToJson(Scenario))
=============================================================================
