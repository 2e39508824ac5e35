package main

import (
	"bytes"
	"crypto"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	drivers["p7make"] = p7Make
	drivers["p7design"] = p7Design
	drivers["p7alter"] = p7Alter
}

// ---- what is seen of a parsed message

func p7Seen(p *x509.PKCS7) M {
	if p == nil {
		return M{"content": B{}, "certs": []B{}, "crls": []B{}, "signers": []M{}}
	}
	certs, crls, signers := []B{}, []B{}, []M{}
	for _, c := range p.Certificates {
		certs = append(certs, B(c.Raw))
	}
	for _, c := range p.CRLs {
		crls = append(crls, B(c.TBSCertList.Raw))
	}
	for _, s := range p.Signers {
		as, us := []M{}, []M{}
		for _, a := range s.AuthenticatedAttributes {
			as = append(as, M{"type": oidContent(a.Type), "val": B(a.Value.FullBytes)})
		}
		for _, a := range s.UnauthenticatedAttributes {
			us = append(us, M{"type": oidContent(a.Type), "val": B(a.Value.FullBytes)})
		}
		signers = append(signers, M{"issuer": B(s.IssuerAndSerialNumber.IssuerName.FullBytes), "serial": recBig(s.IssuerAndSerialNumber.SerialNumber),
			"dig": oidContent(s.DigestAlgorithm.Algorithm), "attrs": as, "sigalg": oidContent(s.DigestEncryptionAlgorithm.Algorithm),
			"sig": B(s.EncryptedDigest), "unauth": us})
	}
	return M{"content": B(p.Content), "certs": certs, "crls": crls, "signers": signers}
}

var (
	oidCType   = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}
	oidDigest  = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}
	oidSigTime = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 5}
	oidGMData  = asn1.ObjectIdentifier{1, 2, 156, 10197, 6, 1, 4, 2, 1}
	oidSM3     = asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 401}
	oidSM2SM3  = asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 501}
)

// p7Look fills in what verification and the accessors say; swap changes the content first
func p7Look(e M, p *x509.PKCS7, swap func([]byte) []byte) {
	e["swap"], e["content2"], e["ver"], e["only"], e["asked"] = false, B{}, false, B{}, []M{}
	if p == nil {
		return
	}
	if swap != nil {
		p.Content = swap(p.Content)
		e["swap"], e["content2"] = true, B(p.Content)
	}
	trouble := call(func() {
		e["ver"] = p.Verify() == nil
		if c := p.GetOnlySigner(); c != nil {
			e["only"] = B(c.Raw)
		}
		asked := []M{}
		for _, o := range []asn1.ObjectIdentifier{oidDigest, oidCType, oidSigTime, {1, 2, 3, 4}} {
			q := M{"oid": oidContent(o), "tag": 4, "exact": true, "val": B{}}
			var err error
			switch {
			case o.Equal(oidCType):
				var v asn1.ObjectIdentifier
				err = p.UnmarshalSignedAttribute(o, &v)
				q["tag"] = 6
				if err == nil {
					q["val"] = oidContent(v)
				}
			case o.Equal(oidSigTime):
				var v time.Time
				err = p.UnmarshalSignedAttribute(o, &v)
				q["tag"], q["exact"] = 23, false
				if err == nil && (v.Year() < 1950 || v.Year() >= 2050) {
					q["tag"] = 24
				}
			default:
				var v []byte
				err = p.UnmarshalSignedAttribute(o, &v)
				if err == nil {
					q["val"] = B(v)
				}
			}
			q["ok"] = err == nil
			asked = append(asked, q)
		}
		e["asked"] = asked
	})
	if trouble != "" {
		e["panic"], e["ver"], e["only"], e["asked"] = trouble, false, B{}, []M{}
	}
}

func p7Event(der []byte, cs string, swap func([]byte) []byte) M {
	e := M{"op": "p7", "case": cs, "der": B(clone(der))}
	var p *x509.PKCS7
	var err error
	e["panic"] = call(func() { p, err = x509.ParsePKCS7(der) })
	e["err"], e["got"], e["seen"] = es(err), p != nil, p7Seen(p)
	p7Look(e, p, swap)
	return e
}

// ---- the cast

type p7cast struct {
	keys  keyring
	certs map[string]*x509.Certificate
	crls  [][]byte
}

func p7Cert(rng *Rng, keys keyring, key, issuer string, serial *big.Int) *x509.Certificate {
	t := &x509.Certificate{SerialNumber: serial, Subject: pkix.Name{CommonName: "signer " + key}, NotBefore: time.Unix(1600000000, 0),
		NotAfter: time.Unix(1900000000, 0), SignatureAlgorithm: x509.SM2WithSM3}
	der, err := x509.CreateCertificate(rng, t, &x509.Certificate{Subject: pkix.Name{CommonName: issuer, Organization: []string{"Ünï"}}}, keys.pub(key),
		&signer{key: keys["ca"], mode: "ok", rng: rng})
	if err != nil {
		die(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		die(err)
	}
	return c
}
func p7People(rng *Rng) *p7cast {
	keys := newKeyring(rng)
	n := new(big.Int).Sub(sm2.SM2P256V1().Params().N, big.NewInt(2))
	for _, k := range []string{"A", "B", "imp", "X", "Y", "ca"} {
		keys[k] = mkKey(rng.BigIn(big.NewInt(1), n))
	}
	keys["R"], keys["P"] = keys["rsa2"], keys["p256"]
	c := &p7cast{keys: keys, certs: map[string]*x509.Certificate{}}
	sa, sb := rng.BigIn(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 150)), big.NewInt(int64(1+rng.Intn(300)))
	c.certs["A"] = p7Cert(rng, keys, "A", "one", sa)
	c.certs["B"] = p7Cert(rng, keys, "B", "two", sb)
	c.certs["imp"] = p7Cert(rng, keys, "imp", "one", sa)
	c.certs["R"] = p7Cert(rng, keys, "R", "one", sa)
	c.certs["P"] = p7Cert(rng, keys, "P", "one", sa)
	c.certs["X"] = p7Cert(rng, keys, "A", "one", add(sa, i2(1)))
	c.certs["Y"] = p7Cert(rng, keys, "A", "three", sa)
	for _, f := range fixtures("crl-") {
		if f.name == "crl-sm2.der" || f.name == "crl-v1.der" || f.name == "crl-rsa.der" {
			c.crls = append(c.crls, f.data)
		}
	}
	return c
}

// ---- designs

type p7Scn struct {
	Case string            `json:"case"`
	Ch   map[string]string `json:"ch"`
}

func oidTLV(o ...int) []byte {
	b, err := asn1.Marshal(asn1.ObjectIdentifier(o))
	if err != nil {
		die(err)
	}
	return b
}
func seqOf(x ...[]byte) []byte { return tlv(48, cat(x...)) }
func setOf(x ...[]byte) []byte { return tlv(49, cat(x...)) }
func p7Attr(o asn1.ObjectIdentifier, vals ...[]byte) []byte {
	return seqOf(oidTLV(o...), setOf(vals...))
}

func sortBytes(x [][]byte) [][]byte {
	y := append([][]byte{}, x...)
	sort.Slice(y, func(i, j int) bool { return bytes.Compare(y[i], y[j]) < 0 })
	return y
}

func sm3Sum(b []byte) []byte {
	h := sm3.New()
	h.Write(b)
	return h.Sum(nil)
}

// p7Text is the content octets, and their encoding inside the explicit tag (nil: no content)
func p7Text(rng *Rng, how string) (text, enc []byte) {
	text = []byte("the quick brown fox " + fmt.Sprint(rng.Intn(1000)))
	switch how {
	case "empty":
		text = []byte{}
	case "absent":
		return text, nil
	case "emptytag":
		return []byte{}, []byte{}
	case "compound":
		return text, tlv(36, tlv(4, text))
	case "compoundempty":
		return []byte{}, tlv(36, nil)
	case "compoundtwo":
		return text, tlv(36, cat(tlv(4, text), tlv(4, []byte("and more"))))
	case "nested":
		text = tlv(4, text)
	case "utf8":
		return text, tlv(12, text)
	case "integer":
		text = rng.Bytes(5)
		text[0] = 1
		return text, tlv(2, text)
	case "big":
		text = rng.Bytes(1100)
	case "nul":
		text = make([]byte, 64)
	}
	return text, tlv(4, text)
}

func p7AttrsOf(rng *Rng, how string, text []byte) (as [][]byte) {
	h := func(b []byte) []byte { return sm3Sum(b) }
	ct := p7Attr(oidCType, oidTLV(oidGMData...))
	dg := func(d []byte) []byte { return p7Attr(oidDigest, tlv(4, d)) }
	right, wrong := dg(h(text)), dg(h(append(clone(text), 'x')))
	st := p7Attr(oidSigTime, tlv(23, []byte("260102030405Z")))
	as = [][]byte{ct, right, st}
	switch how {
	case "none", "empty":
		return nil
	case "digest":
		return [][]byte{right}
	case "nodigest", "unauthdigest":
		return [][]byte{ct, st}
	case "wrong":
		as[1] = wrong
	case "wrongfirst":
		return [][]byte{ct, wrong, right, st}
	case "rightfirst":
		return [][]byte{ct, right, wrong, st}
	case "twice":
		return [][]byte{ct, right, right, st}
	case "digest31":
		as[1] = dg(h(text)[:31])
	case "digest33":
		as[1] = dg(append(h(text), 0))
	case "digestempty":
		as[1] = dg(nil)
	case "digestbits":
		as[1] = p7Attr(oidDigest, tlv(3, append([]byte{0}, h(text)...)))
	case "digestseq":
		as[1] = p7Attr(oidDigest, seqOf(tlv(4, h(text))))
	case "novalues":
		as[1] = p7Attr(oidDigest)
	case "valueswrongfirst":
		as[1] = p7Attr(oidDigest, tlv(4, h(nil)), tlv(4, h(text)))
	case "valuesrightfirst":
		as[1] = p7Attr(oidDigest, tlv(4, h(text)), tlv(4, h(nil)))
	case "notset":
		as[1] = seqOf(oidTLV(oidDigest...), tlv(4, h(text)))
	case "sequenceof":
		as[1] = seqOf(oidTLV(oidDigest...), seqOf(tlv(4, h(text))))
	case "noctype":
		return [][]byte{right, st}
	case "wrongctype":
		as[0] = p7Attr(oidCType, oidTLV(1, 2, 840, 113549, 1, 7, 1))
	case "notime":
		return as[:2]
	case "oddtime":
		as[2] = p7Attr(oidSigTime, tlv(24, []byte("20600102030405Z")))
	case "extra":
		as = append(as, p7Attr(asn1.ObjectIdentifier{1, 2, 3, 4}, tlv(4, []byte("more"))))
	case "many":
		for i := 0; i < 20; i++ {
			as = append(as, p7Attr(asn1.ObjectIdentifier{1, 2, 3, 5, i * 7}, tlv(4, rng.Bytes(i*9))))
		}
	}
	as = sortBytes(as)
	switch how {
	case "unsorted":
		as[0], as[2] = as[2], as[0]
	case "rotated":
		as = append(as[1:], as[0])
	}
	return as
}

func algTLV(name string) []byte {
	switch name {
	case "sm3":
		return seqOf(oidTLV(oidSM3...))
	case "params":
		return seqOf(oidTLV(oidSM3...), []byte{5, 0})
	case "sha1":
		return seqOf(oidTLV(1, 3, 14, 3, 2, 26), []byte{5, 0})
	case "sha256":
		return seqOf(oidTLV(2, 16, 840, 1, 101, 3, 4, 2, 1))
	case "sm2sm3":
		return seqOf(oidTLV(oidSM2SM3...))
	case "sm2":
		return seqOf(oidTLV(1, 2, 156, 10197, 1, 301, 1))
	case "rsa":
		return seqOf(oidTLV(1, 2, 840, 113549, 1, 1, 1), []byte{5, 0})
	case "ecdsa":
		return seqOf(oidTLV(1, 2, 840, 10045, 2, 1))
	}
	return seqOf(oidTLV(1, 2, 3, 4, 5))
}
func smallInt(s string) []byte {
	var n int64
	fmt.Sscan(s, &n)
	return signedInt(big.NewInt(n))
}
func signedInt(x *big.Int) []byte {
	b, err := asn1.Marshal(x)
	if err != nil {
		die(err)
	}
	return b
}

// p7Signer writes a SignerInfo
func (c *p7cast) signer(rng *Rng, ch map[string]string, text, enc []byte) []byte {
	as := p7AttrsOf(rng, ch["attrs"], text)
	ser := c.certs["A"].SerialNumber
	iss := c.certs["A"].RawIssuer
	switch ch["ias"] {
	case "B":
		ser, iss = c.certs["B"].SerialNumber, c.certs["B"].RawIssuer
	case "X":
		ser = c.certs["X"].SerialNumber
	case "Y":
		iss = c.certs["Y"].RawIssuer
	case "rekeyed": // the same name, encoded otherwise
		iss = bytes.Replace(iss, []byte{12}, []byte{20}, 1)
	case "negative":
		ser = new(big.Int).Neg(ser)
	case "empty":
		iss = seqOf()
	}
	msg := setOf(sortBytes(as)...)
	if len(as) == 0 {
		msg = text
	}
	var uid []byte
	switch ch["over"] {
	case "assent":
		msg = setOf(as...)
	case "content":
		msg = text
	case "digest":
		msg = sm3Sum(text)
	case "tag0":
		msg = tlv(160, cat(as...))
	case "bare":
		msg = cat(as...)
	case "other":
		msg = append(clone(msg), 0)
	case "otherdigest":
		msg = setOf(sortBytes(p7AttrsOf(rng, "wrong", text))...)
	case "contentinfo":
		msg = enc
	case "ownuid":
		uid = []byte("another identity")
	}
	var sig []byte
	if k, ok := c.keys[ch["key"]].(*sm2.PrivateKey); ok {
		var err error
		if sig, err = sm2.Sign(rng, k, msg, uid); err != nil {
			die(err)
		}
	} else {
		sig = signRaw(rng, c.keys[ch["key"]], "ECDSA-SHA256", msg, "none")
	}
	if ch["sig"] == "sigother" {
		sig = append([]byte{48}, rng.Bytes(70)...)
		sig[1] = 69
	} else {
		sig = spoil(rng, c.keys[ch["key"]], sig, ch["sig"])
	}
	switch ch["tamper"] {
	case "attr":
		as = p7AttrsOf(rng, "notime", text)
	case "attrorder":
		if len(as) > 1 {
			as = append(as[1:], as[0])
		}
	case "attrgone":
		as = nil
	case "ias":
		ser = add(ser, i2(1))
	case "sigofother":
		o, err := sm2.Sign(rng, c.keys["B"].(*sm2.PrivateKey), msg, nil)
		if err != nil {
			die(err)
		}
		sig = o
	}
	out := [][]byte{smallInt(ch["siver"]), seqOf(iss, signedInt(ser)), algTLV(ch["dig"])}
	if len(as) > 0 || ch["attrs"] == "empty" {
		out = append(out, tlv(160, cat(as...)))
	}
	out = append(out, algTLV(ch["sigalg"]), tlv(4, sig))
	one := p7Attr(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 6}, tlv(4, []byte("countersignature")))
	switch {
	case ch["attrs"] == "unauthdigest":
		out = append(out, tlv(161, p7Attr(oidDigest, tlv(4, sm3Sum(text)))))
	case ch["unauth"] == "empty":
		out = append(out, tlv(161, nil))
	case ch["unauth"] == "one" || ch["tamper"] == "unauth":
		out = append(out, tlv(161, one))
	case ch["unauth"] == "two":
		out = append(out, tlv(161, cat(p7Attr(oidDigest, tlv(4, sm3Sum(nil))), one)))
	}
	return seqOf(out...)
}

func (c *p7cast) message(rng *Rng, ch map[string]string) ([]byte, func([]byte) []byte) {
	text, enc := p7Text(rng, ch["content"])
	main := c.signer(rng, ch, text, enc)
	alt := func(edit ...string) []byte {
		m := map[string]string{"attrs": "full", "over": "attrs", "sig": "none", "ias": "B", "key": "B", "dig": "sm3", "sigalg": "sm2sm3", "unauth": "absent",
			"siver": "1", "tamper": "none"}
		for i := 0; i < len(edit); i += 2 {
			m[edit[i]] = edit[i+1]
		}
		return c.signer(rng, m, text, enc)
	}
	certs := strings.Fields(ch["certs"])
	signers := [][]byte{main}
	switch ch["more"] {
	case "zero":
		signers = nil
	case "good":
		signers = [][]byte{main, alt()}
	case "goodfirst":
		signers = [][]byte{alt(), main}
	case "bad":
		signers = [][]byte{main, alt("sig", "sigbit")}
	case "badfirst":
		signers = [][]byte{alt("attrs", "wrong"), main}
	case "twice":
		signers = [][]byte{main, main}
	case "three":
		signers = [][]byte{alt("attrs", "none"), main, alt()}
	case "threebad":
		signers = [][]byte{alt(), main, alt("key", "A")}
	case "unnamed":
		signers = [][]byte{main, alt("ias", "X")}
	case "nobody":
		signers = [][]byte{main, seqOf()}
	}
	if len(signers) > 1 && ch["certs"] == "A" {
		certs = append(certs, "B")
	}
	switch ch["tamper"] {
	case "content":
		if len(enc) > 2 {
			enc = clone(enc)
			enc[len(enc)-1] ^= 1
		}
	case "contentlonger":
		enc = tlv(4, append(clone(text), 0))
	case "contentempty":
		enc = tlv(4, nil)
	}
	digs := setOf(algTLV("sm3"))
	switch ch["digs"] {
	case "none":
		digs = setOf()
	case "sha1":
		digs = setOf(algTLV("sha1"))
	case "two":
		digs = setOf(algTLV("sm3"), algTLV("sha256"))
	case "params":
		digs = setOf(algTLV("params"))
	}
	gm := func(n int) []byte { return oidTLV(1, 2, 156, 10197, 6, 1, 4, 2, n) }
	inner := gm(1)
	switch ch["inner"] {
	case "rfc":
		inner = oidTLV(1, 2, 840, 113549, 1, 7, 1)
	case "signed":
		inner = gm(2)
	}
	ci := seqOf(inner)
	if enc != nil {
		ci = seqOf(inner, tlv(160, enc))
	}
	body := [][]byte{smallInt(ch["version"]), digs, ci}
	if ch["certs"] != "absent" {
		var cs [][]byte
		for _, n := range certs {
			switch {
			case n == "none":
			case n == "junk":
				cs = append(cs, seqOf([]byte{5, 0}))
			case ch["tamper"] == "cert" && n == "A":
				// A's certificate for another key
				point := func(k string) []byte { p := c.keys[k].(*sm2.PrivateKey); return append(b32(p.X), b32(p.Y)...) }
				cs = append(cs, bytes.Replace(c.certs[n].Raw, point("A"), point("B"), 1))
			default:
				cs = append(cs, c.certs[n].Raw)
			}
		}
		body = append(body, tlv(160, cat(cs...)))
	}
	switch ch["crls"] {
	case "empty":
		body = append(body, tlv(161, nil))
	case "one":
		body = append(body, tlv(161, c.crls[0]))
	case "two":
		body = append(body, tlv(161, cat(c.crls...)))
	case "v1":
		body = append(body, tlv(161, c.crls[len(c.crls)-1]))
	}
	body = append(body, setOf(signers...))
	sd := seqOf(body...)
	if ch["outer"] == "innertrailing" {
		sd = append(sd, 5, 0)
	}
	out := seqOf(gm(2), tlv(160, sd))
	switch ch["outer"] {
	case "rfc":
		out = seqOf(oidTLV(1, 2, 840, 113549, 1, 7, 2), tlv(160, sd))
	case "data":
		out = seqOf(gm(1), tlv(160, tlv(4, sd)))
	case "enveloped":
		out = seqOf(gm(3), tlv(160, sd))
	case "primitive":
		out = seqOf(gm(2), tlv(128, sd))
	case "trailing":
		out = append(out, 0)
	}
	var swap func([]byte) []byte
	switch ch["swap"] {
	case "same":
		swap = func([]byte) []byte { return text }
	case "other":
		swap = func([]byte) []byte { return []byte("something else") }
	case "nil":
		swap = func([]byte) []byte { return nil }
	case "longer":
		swap = func(b []byte) []byte { return append(clone(b), 0) }
	case "attrs":
		swap = func([]byte) []byte { return setOf(sortBytes(p7AttrsOf(rng, ch["attrs"], text))...) }
	}
	return out, swap
}

func p7Design(c *Ctx) {
	var scn []p7Scn
	readJSON(c.In, &scn)
	casts := []*p7cast{p7People(c.Rng), p7People(c.Rng), p7People(c.Rng)}
	rngs := make([]*Rng, len(scn))
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	put(c, len(scn), func(i int) M {
		der, swap := casts[i%len(casts)].message(rngs[i], scn[i].Ch)
		return p7Event(der, scn[i].Case, swap)
	})
	c.Out.Put(p7Empty())
}

// a value nobody parsed
func p7Empty() M {
	e := M{"op": "p7empty", "case": "the zero value", "ver": false}
	e["panic"] = call(func() {
		p := &x509.PKCS7{}
		e["ver"] = p.Verify() == nil
		p.GetOnlySigner()
		var v []byte
		p.UnmarshalSignedAttribute(oidDigest, &v)
	})
	return e
}

// ---- alterations

func p7Alter(c *Ctx) {
	cast := p7People(c.Rng)
	plain := func(edit ...string) []byte {
		m := map[string]string{"certs": "A", "content": "text", "inner": "gm", "outer": "gm", "digs": "sm3", "crls": "absent", "version": "1", "more": "one",
			"ias": "A", "key": "A", "attrs": "full", "over": "attrs", "sig": "none", "dig": "sm3", "sigalg": "sm2sm3", "unauth": "absent", "siver": "1",
			"tamper": "none", "swap": "none"}
		for i := 0; i < len(edit); i += 2 {
			m[edit[i]] = edit[i+1]
		}
		der, _ := cast.message(c.Rng, m)
		return der
	}
	bases := [][]byte{plain(), plain("attrs", "none"), plain("more", "good"), plain("crls", "one"), plain("unauth", "two", "attrs", "extra"),
		plain("content", "empty", "certs", "X A"), plain("content", "absent"), plain("attrs", "digest", "content", "compound")}
	made, err := x509.NewSignedData(cast.certs["A"], cast.keys["A"], []byte("made here"))
	if err == nil {
		bases = append(bases, made)
	}
	per := 90
	if !c.Quick {
		per = 3000
	}
	rngs := make([]*Rng, len(bases))
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	put(c, len(bases)*per, func(i int) M {
		b := bases[i/per]
		rng := NewRng(int64(i) + c.Seed<<20)
		if i%per == 0 {
			return p7Event(b, fmt.Sprint("message ", i/per), nil)
		}
		d, how := alter(rng, b)
		if i%4 == 3 {
			d2, how2 := alter(rng, d)
			d, how = d2, how+", "+how2
		}
		return p7Event(d, fmt.Sprint("message ", i/per, ": ", how), nil)
	})
	// every length of prefix, every byte changed (a sample of them unless thorough)
	b := bases[0]
	step := 7
	if !c.Quick {
		step = 1
	}
	put(c, len(b)/step, func(i int) M { return p7Event(b[:i*step], fmt.Sprint("cut at ", i*step), nil) })
	put(c, len(b)/step, func(i int) M {
		at := (i*step + int(c.Seed)) % len(b)
		d := clone(b)
		d[at] ^= 1 << uint((i+int(c.Seed))%8)
		return p7Event(d, fmt.Sprint("bit at ", at), nil)
	})
	max := 260
	if !c.Quick {
		max = 3000
	}
	for i, b := range bases {
		if c.Quick && i > 1 {
			max = 50
		}
		ds, hows := someNear(rngs[i], b, max)
		i := i
		put(c, len(ds), func(k int) M { return p7Event(ds[k], fmt.Sprint("message ", i, ": ", hows[k]), nil) })
	}
	c.Out.Put(p7Event([]byte{}, "nothing", nil))
	c.Out.Put(p7Event(nil, "nil", nil))
}

// ---- production

func p7Make(c *Ctx) {
	time.Local = time.FixedZone("far", 9*3600+1800)
	cast := p7People(c.Rng)
	rng := c.Rng
	one := big.NewInt(1)
	n := sm2.SM2P256V1().Params().N
	type job struct {
		cert             *x509.Certificate
		key              interface{}
		cb               x509.Callback
		content          []byte
		good, sound      bool
		what             string
		gotCB, sentBack  []byte
		usesCB, reported bool
	}
	var jobs []*job
	lens := []int{0, 1, 31, 32, 33, 55, 56, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 100000}
	for _, l := range lens {
		jobs = append(jobs, &job{cert: cast.certs["A"], key: cast.keys["A"], content: rng.Bytes(l), good: true, sound: true, what: fmt.Sprint("content of ", l)})
		jobs = append(jobs, &job{cert: cast.certs["B"], key: cast.keys["B"], content: rng.Bytes(l), good: true, sound: true, usesCB: true, what: fmt.Sprint("callback, content of ", l)})
	}
	jobs = append(jobs, &job{cert: cast.certs["A"], key: cast.keys["A"], content: nil, good: true, sound: true, what: "nil content"},
		&job{cert: cast.certs["A"], key: cast.keys["A"], content: nil, good: true, sound: true, usesCB: true, what: "callback, nil content"})
	// other people's certificates and odd names and serial numbers
	reps := 12
	if !c.Quick {
		reps = 200
	}
	for i := 0; i < reps; i++ {
		k := mkKey(rng.BigIn(one, sub(n, i2(2))))
		if i%4 == 3 {
			ds := shortKeys(rng, 1)
			k = mkKey(ds[0])
		}
		cast.keys["new"] = k
		serials := []*big.Int{i2(0), i2(1), i2(127), i2(128), i2(-1), i2(-129), i2(255), i2(256), new(big.Int).Lsh(one, 159), sub(new(big.Int).Lsh(one, 160), one), new(big.Int).Lsh(one, 400)}
		names := []string{"x", "", "ñandú", strings.Repeat("long ", 40), "*"}
		ct := p7Cert(rng, cast.keys, "new", names[i%len(names)], serials[i%len(serials)])
		jobs = append(jobs, &job{cert: ct, key: k, content: rng.Bytes(rng.Intn(300)), good: true, sound: true, usesCB: i%2 == 1, what: fmt.Sprint("another certificate, ", i)})
	}
	for _, f := range fixtures("cert-sm2") {
		ct, err := x509.ParseCertificate(f.data)
		if err != nil {
			die(err)
		}
		jobs = append(jobs, &job{cert: ct, key: cast.keys["A"], content: []byte("text"), good: true, sound: false, what: f.name + ", not its key"})
	}
	jobs = append(jobs, &job{cert: cast.certs["B"], key: cast.keys["A"], content: []byte("text"), good: true, sound: false, what: "another's key"})
	jobs = append(jobs, &job{cert: cast.certs["imp"], key: cast.keys["A"], content: []byte("text"), good: true, sound: false, what: "another's key, same name"})
	for name, k := range map[string]interface{}{"none": nil, "rsa": cast.keys["rsa"], "p256": cast.keys["p256"], "ed25519": cast.keys["ed25519"], "text": "key",
		"value": *(cast.keys["A"].(*sm2.PrivateKey)), "public": cast.keys.pub("A"), "signer": &signer{key: cast.keys["A"], mode: "ok", rng: rng}} {
		jobs = append(jobs, &job{cert: cast.certs["A"], key: k, content: []byte("text"), what: "key: " + name})
	}
	for name, f := range map[string]x509.Callback{
		"fails": func([]byte) ([]byte, error) { return nil, errors.New("verif: no") },
		"both":  func(b []byte) ([]byte, error) { return clone(b), errors.New("verif: no") },
	} {
		jobs = append(jobs, &job{cert: cast.certs["A"], cb: f, content: []byte("text"), usesCB: true, what: "callback " + name})
	}
	// one that fails at first only
	for _, mode := range []string{"nothing", "something", "a signature"} {
		mode, calls, key := mode, 0, cast.keys["A"].(*sm2.PrivateKey)
		jobs = append(jobs, &job{cert: cast.certs["A"], content: []byte("text"), usesCB: true, what: "callback fails once with " + mode, cb: func(b []byte) ([]byte, error) {
			calls++
			s, err := sm2.Sign(rng, key, b, nil)
			if err == nil && calls == 1 {
				switch mode {
				case "nothing":
					s = nil
				case "something":
					s = []byte{48, 0}
				}
				err = errors.New("verif: not now")
			}
			return s, err
		}})
	}
	for name, f := range map[string]func([]byte) []byte{
		"empty":   func([]byte) []byte { return []byte{} },
		"nil":     func([]byte) []byte { return nil },
		"garbage": func(b []byte) []byte { return sm3Sum(b) },
		"long":    func(b []byte) []byte { return make([]byte, 300) },
	} {
		f := f
		jb := &job{cert: cast.certs["A"], content: []byte("text"), usesCB: true, good: true, what: "callback " + name, reported: true}
		jb.cb = func(b []byte) ([]byte, error) {
			jb.gotCB = clone(b)
			s := f(b)
			jb.sentBack = clone(s)
			return s, nil
		}
		jobs = append(jobs, jb)
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].what < jobs[j].what })
	for _, jb := range jobs {
		jb := jb
		if jb.usesCB && jb.cb == nil {
			k := jb.key.(*sm2.PrivateKey)
			jb.cb = func(b []byte) ([]byte, error) {
				jb.gotCB = clone(b)
				s, err := sm2.Sign(rng, k, b, nil)
				jb.sentBack = clone(s)
				return s, err
			}
		}
		e := M{"op": "p7make", "case": jb.what, "good": jb.good, "sound": jb.sound, "cert": B(clone(jb.cert.Raw)), "content": B(clone(jb.content)), "panic": ""}
		var der []byte
		var err error
		e["t0"] = timeRec(time.Now())
		p := call(func() {
			if jb.usesCB {
				der, err = x509.NewSignedDataCallBack(jb.cert, jb.cb, jb.content)
			} else {
				der, err = x509.NewSignedData(jb.cert, crypto.PrivateKey(jb.key), jb.content)
			}
		})
		e["t1"] = timeRec(time.Now())
		e["panic"], e["err"], e["got"], e["der"] = p, es(err), len(der) > 0, B(clone(der))
		e["cb"], e["sig"] = B(jb.gotCB), B(jb.sentBack)
		var p7 *x509.PKCS7
		var perr error
		if len(der) > 0 {
			if p := call(func() { p7, perr = x509.ParsePKCS7(der) }); p != "" {
				e["panic"] = p
			}
		}
		e["perr"], e["seen"] = es(perr), p7Seen(p7)
		p7Look(e, p7, nil)
		c.Out.Put(e)
	}
}
