------------------------------ MODULE P7AskGen ------------------------------
(* Signed messages for the accessors: signers with signed attributes of any *)
(* type whose values are of any ASN.1 type, enclosed certificates and lists,*)
(* built up step by step.  P7Trace says what the accessors may answer.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSigners, MaxAttrs, MaxVals, MaxCerts, MaxCrls, Each,
          Pairs      \* signed attributes of one type only, of telling values: every pair
VARIABLES signers, certs, crls, outer, done
vars == <<signers, certs, crls, outer, done>>

Types == IF Pairs THEN {"own"} ELSE {"ctype", "digest", "time", "own", "far"}
Telling == {"octets", "int0", "intbig", "true", "utf8", "oid", "utc", "null", "seq"}
Vals  == IF Pairs THEN Telling ELSE
         {"sm3", "sm3x", "octempty", "octets", "int0", "int128", "intneg", "int64", "intbig", "true", "false", "utf8", "print", "ia5", "oid", "oidgm",
          "utc", "gen", "null", "seq", "set", "nested", "ctx", "hightag", "long"}
Names == {"A", "B", "X", "Y", "Z"}      \* Z: nobody enclosed
Certs == {"A", "B", "X", "Y", "imp"}
Outers == {"gm2", "gm1", "gm3", "gm4", "gm5", "gm6", "rfc1", "rfc2", "rfc3", "odd", "short", "deep", "prim"}

Init == signers = <<>> /\ certs = <<>> /\ crls = 0 /\ outer = "gm2" /\ done = FALSE
Open == ~done /\ outer = "gm2"
\* one after the other: what is enumerated exhaustively stays small
Plain == Len(signers) = 1 /\ signers[1].name = "A" /\ signers[1].ok /\ certs \in {<<>>, <<"A">>}
AddSigner == Open /\ Len(signers) < MaxSigners /\ (signers # <<>> => TLCGet("level") > 12) /\ \E nm \in Names, ok \in BOOLEAN :
                signers' = Append(signers, [name |-> nm, ok |-> ok, attrs |-> <<>>]) /\ UNCHANGED <<certs, crls, outer, done>>
AddAttr == Open /\ (Each => Plain) /\ signers # <<>> /\ Len(signers[Len(signers)].attrs) < MaxAttrs /\ \E t \in Types :
                signers' = [signers EXCEPT ![Len(signers)].attrs = Append(@, [type |-> t, vals |-> <<>>])] /\ UNCHANGED <<certs, crls, outer, done>>
AddVal == LET s == Len(signers)
              a == IF s = 0 THEN 0 ELSE Len(signers[s].attrs)
          IN  /\ Open /\ s > 0 /\ a > 0 /\ Len(signers[s].attrs[a].vals) < MaxVals
              /\ \E v \in Vals : signers' = [signers EXCEPT ![s].attrs[a].vals = Append(@, v)]
              /\ UNCHANGED <<certs, crls, outer, done>>
AddCert == Open /\ (Each => signers = <<>>) /\ Len(certs) < MaxCerts /\ \E c \in Certs : certs' = Append(certs, c) /\ UNCHANGED <<signers, crls, outer, done>>
AddCrl == Open /\ crls < MaxCrls /\ crls' = crls + 1 /\ UNCHANGED <<signers, certs, outer, done>>
Other == Open /\ (IF Each THEN Plain /\ signers[1].attrs = <<>> ELSE TLCGet("level") > 14) /\ \E o \in Outers \ {"gm2"} : outer' = o /\ UNCHANGED <<signers, certs, crls, done>>
Finish == ~Each /\ ~done /\ signers # <<>> /\ TLCGet("level") > 11 /\ done' = TRUE /\ UNCHANGED <<signers, certs, crls, outer>>
Next == AddSigner \/ AddAttr \/ AddVal \/ AddCert \/ AddCrl \/ Other \/ Finish
Spec == Init /\ [][Next]_vars
Emit == (Each \/ done) => PrintT("@SCN@" \o ToJson([signers |-> signers, certs |-> certs, crls |-> crls, outer |-> outer]))
=============================================================================
