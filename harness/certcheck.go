package main

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	_ "crypto/md5"
	"crypto/rsa"
	_ "crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	drivers["certcheck"] = certCheck
}

type checkScn struct {
	Kind    string `json:"kind"`
	Key     string `json:"key"`
	Alg     string `json:"alg"`
	Signer  string `json:"signer"`
	SignAlg string `json:"signalg"`
	How     string `json:"how"`
	Version int    `json:"version"`
	Exts    bool   `json:"exts"`
	Bc      string `json:"bc"`
	Ku      string `json:"ku"`
	OddKey  bool   `json:"oddkey"`
}

func (s *checkScn) name() string {
	return fmt.Sprintf("%s %s %s signed by %s %s: %s; parent v%d exts=%v bc=%s ku=%s odd=%v", s.Kind, s.Key, s.Alg, s.Signer, s.SignAlg, s.How,
		s.Version, s.Exts, s.Bc, s.Ku, s.OddKey)
}

// signRaw signs as an algorithm says, or wrongly as how says
func signRaw(rng *Rng, key interface{}, alg string, msg []byte, how string) []byte {
	var h crypto.Hash
	switch alg {
	case "MD5-RSA":
		h = crypto.MD5
	case "SHA1-RSA", "ECDSA-SHA1":
		h = crypto.SHA1
	case "SHA256-RSA", "ECDSA-SHA256", "SHA256-RSAPSS":
		h = crypto.SHA256
	case "SHA384-RSA", "ECDSA-SHA384", "SHA384-RSAPSS":
		h = crypto.SHA384
	case "SHA512-RSA", "ECDSA-SHA512", "SHA512-RSAPSS":
		h = crypto.SHA512
	}
	digest := msg
	if h != 0 {
		f := h.New()
		f.Write(msg)
		digest = f.Sum(nil)
	}
	var sig []byte
	var err error
	switch k := key.(type) {
	case *rsa.PrivateKey:
		if len(alg) > 3 && alg[len(alg)-3:] == "PSS" {
			salt := h.Size()
			room := (k.N.BitLen()-1+7)/8 - h.Size() - 2
			switch how {
			case "saltnone":
				// crypto/rsa takes 0 as "automatic": the longest
				return pssSign(k, h, digest, nil)
			case "saltshort":
				salt--
			case "saltmax":
				salt = room
			}
			sig, err = rsa.SignPSS(rng, k, h, digest, &rsa.PSSOptions{SaltLength: salt, Hash: h})
		} else {
			switch how {
			case "nohash":
				sig, err = rsa.SignPKCS1v15(rng, k, 0, digest)
			case "wronghash":
				sig, err = rsa.SignPKCS1v15(rng, k, crypto.RIPEMD160, digest[len(digest)-16:][:16:16])
				if err != nil {
					sig, err = rsa.SignPKCS1v15(rng, k, crypto.MD5, digest[:16])
					if h == crypto.MD5 {
						return nil
					}
				}
			default:
				sig, err = rsa.SignPKCS1v15(rng, k, h, digest)
			}
		}
	case *ecdsa.PrivateKey:
		sig, err = ecdsa.SignASN1(rng, k, digest)
	case *sm2.PrivateKey:
		sig, err = sm2.Sign(rng, k, msg, nil)
	case ed25519.PrivateKey:
		if how == "prehashed" {
			f := crypto.SHA512.New()
			f.Write(msg)
			sig, err = k.Sign(rng, f.Sum(nil), crypto.SHA512)
		} else {
			sig = ed25519.Sign(k, digest)
		}
	}
	if err != nil {
		die(fmt.Sprint("signing for ", alg, " ", how, ": ", err))
	}
	return sig
}

// EMSA-PSS with the salt given
func pssSign(k *rsa.PrivateKey, h crypto.Hash, digest, salt []byte) []byte {
	emBits := k.N.BitLen() - 1
	emLen := (emBits + 7) / 8
	f := h.New()
	f.Write(make([]byte, 8))
	f.Write(digest)
	f.Write(salt)
	hh := f.Sum(nil)
	db := make([]byte, emLen-h.Size()-1)
	db[len(db)-len(salt)-1] = 1
	copy(db[len(db)-len(salt):], salt)
	mask := []byte{}
	for c := uint32(0); len(mask) < len(db); c++ {
		g := h.New()
		g.Write(hh)
		g.Write([]byte{byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)})
		mask = append(mask, g.Sum(nil)...)
	}
	for i := range db {
		db[i] ^= mask[i]
	}
	db[0] &= 255 >> uint(8*emLen-emBits)
	em := append(append(db, hh...), 0xbc)
	m := new(big.Int).Exp(new(big.Int).SetBytes(em), k.D, k.N)
	return m.FillBytes(make([]byte, (k.N.BitLen()+7)/8))
}

func orderOf(key interface{}) *big.Int {
	switch k := key.(type) {
	case *ecdsa.PrivateKey:
		return k.Params().N
	case *sm2.PrivateKey:
		return k.Params().N
	}
	return nil
}

// spoil changes a signature
func spoil(rng *Rng, key interface{}, sig []byte, how string) []byte {
	b := clone(sig)
	switch how {
	case "sigbit", "sig":
		b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
	case "sigcut":
		return b[:len(b)-1-rng.Intn(3)]
	case "siglonger":
		return append(b, 0)
	case "sigempty":
		return []byte{}
	case "sigzero":
		return make([]byte, len(b))
	case "plusn":
		switch k := key.(type) {
		case *rsa.PrivateKey:
			x := new(big.Int).Add(new(big.Int).SetBytes(b), k.N)
			if len(x.Bytes()) > len(b) {
				return x.Bytes()
			}
			return x.FillBytes(make([]byte, len(b)))
		case ed25519.PrivateKey:
			l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
			le := clone(b[32:])
			rev(le)
			x := new(big.Int).Add(new(big.Int).SetBytes(le), l)
			le = x.FillBytes(make([]byte, 32))
			rev(le)
			return append(b[:32], le...)
		}
	}
	n := orderOf(key)
	if n == nil {
		return b
	}
	var v struct{ R, S *big.Int }
	if _, err := asn1.Unmarshal(b, &v); err != nil {
		return b
	}
	enc := func() []byte {
		d, err := asn1.Marshal(v)
		if err != nil {
			die(err)
		}
		return d
	}
	switch how {
	case "complement":
		v.S.Sub(n, v.S)
	case "swapped":
		v.R, v.S = v.S, v.R
	case "negative":
		v.S.Neg(v.S)
	case "plusn":
		v.S.Add(v.S, n)
	case "rzero":
		v.R.SetInt64(0)
	case "szero":
		v.S.SetInt64(0)
	case "trailing":
		return append(b, 0)
	case "longder":
		root, _, _ := derNode(b)
		root.long = true
		return root.enc()
	case "nonminimal":
		root, _, _ := derNode(b)
		k := root.kids[rng.Intn(2)]
		k.body = append([]byte{0}, k.body...)
		return root.enc()
	default:
		return b
	}
	return enc()
}
func rev(b []byte) {
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
}

// checkKey is the key a certificate holds, and how the specification sees it
func checkKey(keys keyring, name string) (interface{}, M) {
	bad := func(what string) M { r := pubRec(nil); r["kind"] = "?" + what; return r }
	switch name {
	case "none":
		return nil, pubRec(nil)
	case "dsa":
		return &dsa.PublicKey{Parameters: dsa.Parameters{P: big.NewInt(23), Q: big.NewInt(11), G: big.NewInt(4)}, Y: big.NewInt(8)}, bad("dsa")
	case "text":
		return "a key", bad("text")
	case "rsavalue":
		return *(keys.pub("rsa").(*rsa.PublicKey)), bad("value")
	case "sm2value":
		return *(keys.pub("sm2").(*sm2.PublicKey)), bad("value")
	case "sm2private":
		return keys["sm2"], bad("private")
	case "sm2offcurve":
		k := *(keys.pub("sm2").(*sm2.PublicKey))
		k.Y = new(big.Int).Add(k.Y, big.NewInt(1))
		return &k, bad("offcurve")
	case "p256offcurve":
		k := ecdsa.PublicKey{Curve: elliptic.P256(), X: big.NewInt(5), Y: big.NewInt(7)}
		return &k, bad("offcurve")
	case "ed25519pointer":
		k := keys.pub("ed25519").(ed25519.PublicKey)
		return &k, bad("pointer")
	}
	return keys.pub(name), keys.pubRec(name)
}

// regions of a signed object: its three parts' contents
func regions(der []byte) (out [3][2]int, ok bool) {
	var outer asn1.RawValue
	if _, err := asn1.Unmarshal(der, &outer); err != nil {
		return out, false
	}
	at := len(der) - len(outer.Bytes)
	rest := outer.Bytes
	for i := 0; i < 3; i++ {
		var v asn1.RawValue
		r, err := asn1.Unmarshal(rest, &v)
		if err != nil {
			return out, false
		}
		end := at + len(v.FullBytes)
		out[i] = [2]int{end - len(v.Bytes), end}
		at, rest = end, r
	}
	return out, true
}

// editDoc alters a signed object until parses says it is still one; nil if that never happens
func editDoc(rng *Rng, key interface{}, der []byte, how, alg string, parses func([]byte) bool) []byte {
	if how == "none" || how == "otherkey" || how == "otherkind" {
		return der
	}
	reg, ok := regions(der)
	if !ok {
		die("no regions")
	}
	for try := 0; try < 400; try++ {
		b := clone(der)
		switch how {
		case "tbs":
			b[reg[0][0]+rng.Intn(reg[0][1]-reg[0][0])] ^= 1 << uint(rng.Intn(8))
		case "tbs2": // near the end
			b[reg[0][1]-1-rng.Intn(10)] ^= 1 << uint(rng.Intn(8))
		case "sig", "sigbit":
			b[reg[2][0]+1+rng.Intn(reg[2][1]-reg[2][0]-1)] ^= 1 << uint(rng.Intn(8))
		case "resigned", "sigbits":
			// the content altered and signed again, the signature's last bits then declared unused
			if how == "resigned" || try > 0 {
				b[reg[0][0]+rng.Intn(reg[0][1]-reg[0][0])] ^= 1 << uint(rng.Intn(8))
			}
			root, rest, ok := derNode(b)
			if !ok || len(rest) > 0 || len(root.kids) != 3 || !parses(b) {
				continue
			}
			sig := signRaw(rng, key, alg, root.kids[0].enc(), "")
			unused := 0
			if how == "sigbits" {
				for unused < 7 && sig[len(sig)-1]>>uint(unused)&1 == 0 && (unused == 0 || rng.Intn(2) == 0) {
					unused++
				}
				if unused == 0 {
					continue
				}
			}
			root.kids[2] = &node{tag: 3, body: append([]byte{byte(unused)}, sig...)}
			b = root.enc()
		case "siglonger":
			root, _, _ := derNode(b)
			root.kids[2] = &node{tag: 3, body: append(clone(b[reg[2][0]:reg[2][1]]), 0)}
			b = root.enc()
		case "sigcut", "sigempty":
			root, _, _ := derNode(b)
			s := root.kids[2]
			full := s.enc()
			body := full[len(full)-(reg[2][1]-reg[2][0]):]
			if how == "sigempty" {
				body = body[:1]
			} else {
				body = body[:len(body)-1]
			}
			s.kids, s.pre, s.body = nil, nil, body
			b = root.enc()
		case "outer", "inner", "both", "otheralg":
			ai := algID(rng, alg)
			if ai == nil {
				return nil
			}
			root, _, _ := derNode(b)
			n, _, _ := derNode(ai)
			if how != "inner" {
				root.kids[1] = n
			}
			if how != "outer" {
				for i, k := range root.kids[0].kids {
					if k.tag == 48 {
						root.kids[0].kids[i] = n
						break
					}
				}
			}
			b = root.enc()
		case "outerparams", "innerparams":
			root, _, _ := derNode(b)
			ai := root.kids[1]
			if how == "innerparams" {
				for _, k := range root.kids[0].kids {
					if k.tag == 48 {
						ai = k
						break
					}
				}
			}
			if len(ai.kids) > 1 && rng.Intn(2) == 0 {
				ai.kids = ai.kids[:1]
			} else {
				ai.kids = append(ai.kids[:1], &node{tag: 5, body: []byte{}})
			}
			b = root.enc()
		}
		if !bytes.Equal(b, der) && parses(b) {
			return b
		}
	}
	return nil
}

var algIDs = map[string][]byte{}

// algID is the encoding of another algorithm of the same kind
func algID(rng *Rng, alg string) []byte {
	var same []string
	for a := range algIDs {
		same = append(same, a)
	}
	if len(same) == 0 {
		die("no algorithm identifiers")
	}
	sortStrings(same)
	for try := 0; try < 50; try++ {
		a := same[rng.Intn(len(same))]
		if a != alg {
			return algIDs[a]
		}
	}
	return nil
}
func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func makeCsr(rng *Rng, key interface{}, alg string) []byte {
	t := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "check", Organization: []string{"Org"}}, DNSNames: []string{"a.example"}, SignatureAlgorithm: algOf(alg)}
	d, err := x509.CreateCertificateRequest(rng, t, &signer{key: key, mode: "ok", rng: rng})
	if err != nil {
		die(err)
	}
	return d
}

func certCheck(c *Ctx) {
	var scn []checkScn
	readJSON(c.In, &scn)
	keys, others := newKeyring(c.Rng), newKeyring(c.Rng)
	signers := map[string]string{"SHA256-RSA": "rsa", "SHA512-RSA": "rsa", "SHA384-RSAPSS": "rsa", "ECDSA-SHA256": "p256", "ECDSA-SHA1": "p256",
		"ECDSA-SHA384": "p256", "SM2-SM3": "sm2", "Ed25519": "ed25519"}
	for _, n := range keysOf(signers) {
		k := signers[n]
		root, _, _ := derNode(makeCsr(c.Rng.Fork(), keys[k], n))
		algIDs[n] = root.kids[1].enc()
	}
	reps := 1
	if !c.Quick {
		reps = 4
	}
	rngs := make([]*Rng, len(scn)*reps)
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	put(c, len(rngs), func(i int) M {
		s := scn[i%len(scn)]
		rng := rngs[i]
		switch s.Kind {
		case "sig":
			return checkSigEvent(keys, others, &s, rng)
		case "from":
			return checkFromEvent(keys, others, &s, rng)
		case "csr":
			return checkCsrEvent(keys, others, &s, rng)
		case "crl":
			return checkCrlEvent(keys, others, &s, rng)
		}
		die("kind " + s.Kind)
		return nil
	})
	// certificates of other makers, each against each
	if len(scn) > 0 && scn[0].Kind == "from" {
		fx := fixtures("cert-")
		put(c, len(fx)*len(fx), func(i int) M {
			child, cerr := x509.ParseCertificate(clone(fx[i/len(fx)].data))
			parent, perr := x509.ParseCertificate(clone(fx[i%len(fx)].data))
			if cerr != nil || perr != nil {
				return nil
			}
			e := M{"op": "checkfrom", "case": fx[i/len(fx)].name + " from " + fx[i%len(fx)].name, "child": B(fx[i/len(fx)].data), "parent": B(fx[i%len(fx)].data)}
			var err error
			p := call(func() { err = child.CheckSignatureFrom(parent) })
			e["ok"], e["panic"] = err == nil && p == "", p
			return e
		})
	}
	// the same few certificates checked against each other again and again, in every order
	if len(scn) > 0 && scn[0].Kind == "from" {
		rounds := 1
		if !c.Quick {
			rounds = 12
		}
		names := []string{"rsa", "p256", "sm2", "ed25519"}
		hist := make([][]M, rounds*len(names))
		for range hist {
			rngs = append(rngs, c.Rng.Fork())
		}
		parallel(len(hist), func(i int) {
			hist[i] = checkFromHistory(keys, others, names[i%len(names)], rngs[len(rngs)-len(hist)+i])
		})
		for _, es := range hist {
			for _, e := range es {
				c.Out.Put(e)
			}
		}
	}
	// keys the package does not know, whatever they sign
	if len(scn) > 0 && scn[0].Kind == "sig" {
		sk := unsupportedKey("oddsm2").(*sm2.PrivateKey)
		msg := []byte("whatever they sign")
		var sig []byte
		if p := call(func() { sig, _ = sm2.Sign(c.Rng, sk, msg, nil) }); p != "" || sig == nil {
			sig = []byte{48, 6, 2, 1, 1, 2, 1, 1}
		}
		for i, k := range []interface{}{&sk.PublicKey, sk, sk.PublicKey, pubOf(unsupportedKey("dsa")), "text", keys["p256"], keys["ed25519"], 7} {
			for _, a := range []string{"SM2-SM3", "ECDSA-SHA256", "Ed25519", "DSA-SHA1", "DSA-SHA256", "SHA256-RSA", "unknown", ""} {
				e := M{"op": "checksig", "case": fmt.Sprint("unsupported key ", i, " ", a), "alg": a, "key": pubRec(nil), "msg": B(msg), "sig": B(clone(sig))}
				var err error
				p := call(func() { err = (&x509.Certificate{PublicKey: k}).CheckSignature(algOf(a), msg, sig) })
				e["ok"], e["panic"] = err == nil && p == "", p
				c.Out.Put(e)
			}
		}
	}
	// a revocation list that is no more than its zero value, and one by hand
	if len(scn) > 0 && scn[0].Kind == "crl" {
		for _, n := range keysOf(keys) {
			k, rec := checkKey(keys, n)
			e := M{"op": "checksig", "case": "zero revocation list " + n, "alg": "", "key": rec, "msg": B{}, "sig": B{}}
			var err error
			p := call(func() { err = (&x509.Certificate{PublicKey: k}).CheckCRLSignature(&pkix.CertificateList{}) })
			e["ok"], e["panic"] = err == nil && p == "", p
			c.Out.Put(e)
		}
	}
}

func checkSigEvent(keys, others keyring, s *checkScn, rng *Rng) M {
	key, rec := checkKey(keys, s.Key)
	by := keys[s.Signer]
	if s.How == "otherkey" {
		by = others[s.Signer]
	}
	msg := rng.Bytes([]int{0, 1, 20, 32, 33, 64, 119, 500}[rng.Intn(8)])
	sig := signRaw(rng, by, s.SignAlg, msg, s.How)
	if sig == nil {
		return nil
	}
	m := clone(msg)
	switch s.How {
	case "msgbit":
		if len(m) == 0 {
			m = []byte{0}
		} else {
			m[rng.Intn(len(m))] ^= 1 << uint(rng.Intn(8))
		}
	case "msglonger":
		m = append(m, 0)
	case "msgshorter":
		if len(m) > 0 {
			m = m[:len(m)-1]
		} else {
			m = []byte{1}
		}
	case "sigother":
		sig = signRaw(rng, by, s.SignAlg, append(clone(msg), 1), "")
	default:
		sig = spoil(rng, by, sig, s.How)
	}
	e := M{"op": "checksig", "case": s.name(), "alg": s.Alg, "key": rec, "msg": B(clone(m)), "sig": B(clone(sig))}
	cert := &x509.Certificate{PublicKey: key}
	var err error
	p := call(func() { err = cert.CheckSignature(algOf(s.Alg), m, sig) })
	e["ok"], e["panic"] = err == nil && p == "", p
	return e
}

func otherKind(keys keyring, name string) interface{} {
	switch name {
	case "sm2":
		return keys["p256"]
	case "p256":
		return keys["sm2"]
	}
	return keys["sm2"]
}

var kus = map[string]x509.KeyUsage{"none": 0, "certsign": x509.KeyUsageCertSign, "crlsign": x509.KeyUsageCRLSign, "allbutcertsign": 511 &^ x509.KeyUsageCertSign,
	"encipheronly": x509.KeyUsageEncipherOnly, "all": 511}

// a parent of the shape asked for, made and then edited
func makeParent(rng *Rng, key interface{}, alg string, s *checkScn) []byte {
	t := &x509.Certificate{SerialNumber: big.NewInt(1 + int64(rng.Intn(1<<30))), Subject: pkix.Name{CommonName: "parent"}, NotBefore: time.Unix(1600000000, 0),
		NotAfter: time.Unix(1900000000, 0), KeyUsage: kus[s.Ku], SignatureAlgorithm: algOf(alg)}
	if s.Bc != "none" {
		t.BasicConstraintsValid, t.IsCA = true, s.Bc == "ca"
	}
	if s.Exts && s.Bc == "none" && s.Ku == "none" {
		t.SubjectKeyId = []byte{1, 2, 3}
	}
	der, err := x509.CreateCertificate(rng, t, t, pubOf(key), &signer{key: key, mode: "ok", rng: rng})
	if err != nil {
		die(err)
	}
	if s.Version == 3 && s.Exts && !s.OddKey {
		return der
	}
	root, _, _ := derNode(der)
	tbs := root.kids[0]
	var kids []*node
	for i, k := range tbs.kids {
		if k.tag == 160 && i == 0 {
			if s.Version == 1 {
				continue
			}
			k.kids[0].body = []byte{byte(s.Version - 1)}
		}
		if k.tag == 163 && !s.Exts {
			continue
		}
		if s.OddKey && k.tag == 48 && len(k.kids) == 2 && k.kids[1].tag == 3 {
			ai := k.kids[0]
			b := clone(ai.kids[0].body)
			b[len(b)-1] ^= 64
			ai.kids[0].body = b
		}
		kids = append(kids, k)
	}
	tbs.kids = kids
	return root.enc()
}

func checkFromEvent(keys, others keyring, s *checkScn, rng *Rng) M {
	pder := makeParent(rng, keys[s.Key], Plainalg(keys[s.Key]), s)
	var parent, child *x509.Certificate
	var err error
	if call(func() { parent, err = x509.ParseCertificate(pder) }) != "" || err != nil {
		return nil
	}
	by, alg := keys[s.Signer], s.SignAlg
	switch s.How {
	case "otherkey":
		by = others[s.Signer]
	case "otherkind":
		by = otherKind(keys, s.Signer)
		alg = ""
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(77), Subject: pkix.Name{CommonName: "child"}, NotBefore: time.Unix(1600000000, 0),
		NotAfter: time.Unix(1900000000, 0), SignatureAlgorithm: algOf(alg), DNSNames: []string{"c.example"}}
	issuer := &x509.Certificate{Subject: pkix.Name{CommonName: "parent"}}
	cder, err := x509.CreateCertificate(rng, t, issuer, pubOf(keys["p224"]), &signer{key: by, mode: "ok", rng: rng})
	if err != nil {
		die(err)
	}
	cder = editDoc(rng, by, cder, s.How, s.SignAlg, func(b []byte) bool {
		_, err := x509.ParseCertificate(clone(b))
		return err == nil
	})
	if cder == nil {
		return nil
	}
	if call(func() { child, err = x509.ParseCertificate(cder) }) != "" || err != nil {
		return nil
	}
	e := M{"op": "checkfrom", "case": s.name(), "child": B(clone(cder)), "parent": B(clone(pder))}
	p := call(func() { err = child.CheckSignatureFrom(parent) })
	e["ok"], e["panic"] = err == nil && p == "", p
	return e
}

// checkFromHistory asks for every pair of a root, copies of it with other signatures, what it signed and what it did not, twice
func checkFromHistory(keys, others keyring, name string, rng *Rng) []M {
	s := &checkScn{Ku: "all", Bc: "ca", Version: 3, Exts: true}
	alg := Plainalg(keys[name])
	parses := func(b []byte) bool { _, err := x509.ParseCertificate(clone(b)); return err == nil }
	root := makeParent(rng, keys[name], alg, s)
	t := &x509.Certificate{SerialNumber: big.NewInt(78), Subject: pkix.Name{CommonName: "child"}, NotBefore: time.Unix(1600000000, 0),
		NotAfter: time.Unix(1900000000, 0), SignatureAlgorithm: algOf(alg)}
	issuer := &x509.Certificate{Subject: pkix.Name{CommonName: "parent"}}
	child, err := x509.CreateCertificate(rng, t, issuer, pubOf(keys["p224"]), &signer{key: keys[name], mode: "ok", rng: rng})
	if err != nil {
		die(err)
	}
	with := func(doc, sigOf []byte) []byte {
		a, _, _ := derNode(doc)
		b, _, _ := derNode(sigOf)
		a.kids[2] = b.kids[2]
		return a.enc()
	}
	other := makeParent(rng, others[name], alg, s)
	ders := [][]byte{root, editDoc(rng, keys[name], root, "sigbit", alg, parses), with(root, other), other, child, with(child, root),
		editDoc(rng, keys[name], child, "sigbit", alg, parses), with(root, child)}
	var objs []*x509.Certificate
	var docs [][]byte
	for _, d := range ders {
		if d == nil {
			continue
		}
		if o, err := x509.ParseCertificate(clone(d)); err == nil {
			objs, docs = append(objs, o), append(docs, d)
		}
	}
	var pairs [][2]int
	for i := range objs {
		for j := range objs {
			pairs = append(pairs, [2]int{i, j}, [2]int{i, j})
		}
	}
	for i := len(pairs) - 1; i > 0; i-- {
		j := rng.Intn(i + 1)
		pairs[i], pairs[j] = pairs[j], pairs[i]
	}
	var out []M
	for k, p := range pairs {
		i, j := p[0], p[1]
		e := M{"op": "checkfrom", "case": fmt.Sprint("history ", name, ", step ", k, ": ", i, " from ", j), "child": B(docs[i]), "parent": B(docs[j])}
		var err error
		bad := call(func() { err = objs[i].CheckSignatureFrom(objs[j]) })
		e["ok"], e["panic"] = err == nil && bad == "", bad
		out = append(out, e)
	}
	return out
}

// Plainalg names an algorithm fit for the key
func Plainalg(k interface{}) string {
	switch k.(type) {
	case *rsa.PrivateKey:
		return "SHA256-RSA"
	case *ecdsa.PrivateKey:
		return "ECDSA-SHA256"
	case *sm2.PrivateKey:
		return "SM2-SM3"
	}
	return "Ed25519"
}

func checkCsrEvent(keys, others keyring, s *checkScn, rng *Rng) M {
	der := makeCsr(rng, keys[s.Key], s.SignAlg)
	switch s.How {
	case "key", "otherkey":
		// the same request for another key, or one signed by another key
		root, _, _ := derNode(der)
		oroot, _, _ := derNode(makeCsr(rng, others[s.Key], s.SignAlg))
		if s.How == "key" {
			root.kids[0].kids[2] = oroot.kids[0].kids[2]
		} else {
			root.kids[2] = oroot.kids[2]
		}
		der = root.enc()
	default:
		der = editDoc(rng, keys[s.Key], der, s.How, s.SignAlg, func(b []byte) bool {
			_, err := x509.ParseCertificateRequest(clone(b))
			return err == nil
		})
	}
	if der == nil {
		return nil
	}
	var req *x509.CertificateRequest
	var err error
	if call(func() { req, err = x509.ParseCertificateRequest(clone(der)) }) != "" || err != nil {
		return nil
	}
	e := M{"op": "csrcheck", "case": s.name(), "der": B(der)}
	p := call(func() { err = req.CheckSignature() })
	e["ok"], e["panic"] = err == nil && p == "", p
	return e
}

func checkCrlEvent(keys, others keyring, s *checkScn, rng *Rng) M {
	t := &x509.RevocationList{SignatureAlgorithm: algOf(s.SignAlg), Number: big.NewInt(9), ThisUpdate: time.Unix(1600000000, 0), NextUpdate: time.Unix(1700000000, 0),
		RevokedCertificates: []pkix.RevokedCertificate{{SerialNumber: big.NewInt(4711), RevocationTime: time.Unix(1599000000, 0)}}}
	issuer := &x509.Certificate{Subject: pkix.Name{CommonName: "parent"}, SubjectKeyId: []byte{1, 2, 3}, KeyUsage: x509.KeyUsageCRLSign}
	der, err := x509.CreateRevocationList(rng, t, issuer, &signer{key: keys[s.Signer], mode: "ok", rng: rng})
	if err != nil {
		die(err)
	}
	der = editDoc(rng, keys[s.Signer], der, s.How, s.SignAlg, func(b []byte) bool {
		_, err := x509.ParseCRL(clone(b))
		return err == nil
	})
	if der == nil {
		return nil
	}
	var key interface{} = keys[s.Key]
	switch s.How {
	case "otherkey":
		key = others[s.Key]
	case "otherkind":
		key = otherKind(keys, s.Key)
	}
	var crl *pkix.CertificateList
	if call(func() { crl, err = x509.ParseCRL(clone(der)) }) != "" || err != nil {
		return nil
	}
	e := M{"op": "crlcheck", "case": s.name(), "der": B(der), "key": pubRec(pubOf(key))}
	p := call(func() { err = (&x509.Certificate{PublicKey: pubOf(key)}).CheckCRLSignature(crl) })
	e["ok"], e["panic"] = err == nil && p == "", p
	return e
}
