package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

// Every parser is given every document: base documents of each kind with the edits the plans name, and the short
// strings and small trees of the generator.  This happens in a child process, so that the parent can tell when it dies.

func init() {
	drivers["parse"] = parseParent
	drivers["parsechild"] = parseChild
}

type planStep struct {
	K  string `json:"k"`
	At int    `json:"at"`
}
type parseScn struct {
	Case string     `json:"case"`
	Plan []planStep `json:"plan"`
	Doc  B          `json:"doc"`
}

// ---- edits

var tagEdits = map[string]byte{}

func init() {
	for _, t := range []byte{0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 19, 22, 23, 24, 30, 48, 49, 128, 129, 130, 160, 161, 163} {
		tagEdits[fmt.Sprint("tag ", t)] = t
	}
}

func header(tag byte, length ...byte) []byte { return append([]byte{tag}, length...) }

// edit changes one element; false if there is nothing to change
func edit(root *node, k string, at int) bool {
	ps := root.places(nil, 0, nil)
	if at >= len(ps) {
		return false
	}
	p := ps[at]
	n, body := p.n, bodyOf(p.n)
	leaf := func(b []byte) bool { n.body, n.kids, n.pre = b, nil, nil; return true }
	raw := func(b []byte) bool { n.raw = b; return true }
	good := clone(n.enc())
	if t, ok := tagEdits[k]; ok {
		if n.tag == t {
			return false
		}
		n.tag = t
		return true
	}
	last := func(f func(byte) byte) bool {
		if len(body) == 0 {
			return false
		}
		b := clone(body)
		b[len(b)-1] = f(b[len(b)-1])
		return leaf(b)
	}
	first := func(f func(byte) byte) bool {
		if len(body) == 0 {
			return false
		}
		b := clone(body)
		b[0] = f(b[0])
		return leaf(b)
	}
	switch k {
	case "drop", "double", "exchange":
		if p.up == nil {
			return false
		}
		ks := append([]*node{}, p.up.kids...)
		switch k {
		case "drop":
			ks = append(ks[:p.at], ks[p.at+1:]...)
		case "double":
			ks = append(ks[:p.at+1], p.up.kids[p.at:]...)
		case "exchange":
			if p.at+1 >= len(ks) {
				return false
			}
			ks[p.at], ks[p.at+1] = ks[p.at+1], ks[p.at]
		}
		p.up.kids = ks
	case "constructed":
		n.tag ^= 32
	case "class":
		n.tag ^= 128
	case "empty":
		if len(body) == 0 {
			return false
		}
		return leaf([]byte{})
	case "cut":
		if len(body) == 0 {
			return false
		}
		return leaf(clone(body[:len(body)-1]))
	case "half":
		if len(body) < 2 {
			return false
		}
		return leaf(clone(body[:len(body)/2]))
	case "behead":
		if len(body) == 0 {
			return false
		}
		return leaf(clone(body[1:]))
	case "zero in front":
		return leaf(cat([]byte{0}, body))
	case "ff in front":
		return leaf(cat([]byte{255}, body))
	case "zero behind":
		return leaf(cat(body, []byte{0}))
	case "null behind":
		return leaf(cat(body, []byte{5, 0}))
	case "sequence behind":
		return leaf(cat(body, []byte{48, 0}))
	case "all ff":
		return leaf(bytes.Repeat([]byte{255}, len(body)))
	case "all zero":
		return leaf(make([]byte, len(body)))
	case "all 7f":
		return leaf(bytes.Repeat([]byte{127}, len(body)))
	case "one zero":
		return leaf([]byte{0})
	case "one 80":
		return leaf([]byte{128})
	case "one 01":
		return leaf([]byte{1})
	case "last up":
		return last(func(x byte) byte { return x + 1 })
	case "last down":
		return last(func(x byte) byte { return x - 1 })
	case "last zero":
		return last(func(x byte) byte { return 0 })
	case "last ff":
		return last(func(x byte) byte { return 255 })
	case "first up":
		return first(func(x byte) byte { return x + 1 })
	case "first top":
		return first(func(x byte) byte { return x ^ 128 })
	case "first zero":
		return first(func(x byte) byte { return 0 })
	case "hundredfold":
		return leaf(bytes.Repeat(body, 100))
	case "huge":
		return leaf(bytes.Repeat([]byte{0x7e}, 70000))
	case "huge number":
		return leaf(append([]byte{127}, bytes.Repeat([]byte{0xfb}, 2500)...))
	case "wrapped":
		return raw(tlv(48, good))
	case "deep":
		b := good
		for i := 0; i < 400; i++ {
			b = tlv(48, b)
		}
		return raw(b)
	case "deeper":
		// indefinite-length-like nesting: 30 80 30 80 ..
		return raw(append(bytes.Repeat([]byte{48, 128}, 3000), make([]byte, 6000)...))
	case "unwrapped":
		if n.kids == nil {
			return false
		}
		return raw(clone(body))
	case "root inside":
		return raw(clone(root.enc()))
	case "long":
		n.long = true
	case "longer":
		return raw(cat(header(n.tag, 132, byte(len(body)>>24), byte(len(body)>>16), byte(len(body)>>8), byte(len(body))), body))
	case "length up":
		return raw(cat([]byte{n.tag}, derLen(len(body)+1, false), body))
	case "length down":
		if len(body) == 0 {
			return false
		}
		return raw(cat([]byte{n.tag}, derLen(len(body)-1, false), body))
	case "length 0":
		return raw(cat(header(n.tag, 0), body))
	case "length 127":
		return raw(cat(header(n.tag, 127), body))
	case "length ffff":
		return raw(cat(header(n.tag, 130, 255, 255), body))
	case "length ffffff":
		return raw(cat(header(n.tag, 131, 255, 255, 255), body))
	case "length 7fffffff":
		return raw(cat(header(n.tag, 132, 127, 255, 255, 255), body))
	case "length ffffffff":
		return raw(cat(header(n.tag, 132, 255, 255, 255, 255), body))
	case "length 2^63-1":
		return raw(cat(header(n.tag, 136, 127, 255, 255, 255, 255, 255, 255, 255), body))
	case "length 2^64-1":
		return raw(cat(header(n.tag, 136, 255, 255, 255, 255, 255, 255, 255, 255), body))
	case "length of 127 octets":
		return raw(cat(header(n.tag, 255), body))
	case "indefinite":
		return raw(cat(header(n.tag, 128), body, []byte{0, 0}))
	case "indefinite, constructed":
		return raw(cat(header(n.tag|32, 128), tlv(n.tag&^32, body), []byte{0, 0}))
	case "header only":
		return raw([]byte{n.tag})
	case "gone":
		return raw([]byte{})
	case "high tag":
		return raw(cat([]byte{n.tag | 31, 33}, derLen(len(body), false), body))
	case "high tag, long":
		return raw(cat([]byte{n.tag | 31, 129, 129, 129, 129, 129, 129, 1}, derLen(len(body), false), body))
	case "high tag, padded":
		return raw(cat([]byte{n.tag | 31, 128, n.tag & 31}, derLen(len(body), false), body))
	default:
		die("unknown edit " + k)
	}
	return true
}

// whole changes a document as octets
func whole(b []byte, k string, at int) ([]byte, bool) {
	if len(b) == 0 {
		return nil, false
	}
	switch k {
	case "cut to":
		if at >= len(b) {
			return nil, false
		}
		return clone(b[:at]), true
	case "cut by":
		if at >= len(b) || at == 0 {
			return nil, false
		}
		return clone(b[:len(b)-at]), true
	case "without":
		if at >= len(b) {
			return nil, false
		}
		return cat(b[:at], b[at+1:]), true
	case "flip":
		if at/8 >= len(b) {
			return nil, false
		}
		b = clone(b)
		b[at/8] ^= 1 << uint(at%8)
		return b, true
	}
	after := map[string][]byte{"and 00": {0}, "and null": {5, 0}, "and ff": {255}, "and newline": {10}, "and sequence": {48, 0}, "and 30": {48},
		"and itself": b, "and 1000 zeros": make([]byte, 1000)}
	before := map[string][]byte{"after 00": {0}, "after null": {5, 0}, "after newline": {10}, "after itself cut": b[:len(b)-1]}
	if x, ok := after[k]; ok {
		return cat(b, x), at == 0
	}
	if x, ok := before[k]; ok {
		return cat(x, b), at == 0
	}
	return nil, false
}

var wholeKinds = map[string]bool{"cut to": true, "cut by": true, "without": true, "flip": true, "and 00": true, "and null": true, "and ff": true, "and newline": true, "and sequence": true,
	"and 30": true, "and itself": true, "and 1000 zeros": true, "after 00": true, "after null": true, "after newline": true, "after itself cut": true}

// applyPlan gives the edited document; false if the plan does not apply to it
func applyPlan(der []byte, plan []planStep) ([]byte, bool) {
	b := der
	for _, s := range plan {
		if wholeKinds[s.K] {
			d, ok := whole(b, s.K, s.At)
			if !ok {
				return nil, false
			}
			b = d
			continue
		}
		root, rest, ok := derNode(clone(b))
		if !ok || len(rest) > 0 {
			return nil, false
		}
		if !edit(root, s.K, s.At) {
			return nil, false
		}
		b = root.enc()
	}
	return b, !bytes.Equal(b, der)
}

// ---- parsers

type outcome struct {
	parser string
	same   bool // what is kept of the document is the document
	raws   M    // the parts kept, of certificates, requests and lists
	panic  string
}

type feeder struct {
	v    *p12env
	pub  *sm2.PublicKey
	priv *sm2.PrivateKey
	dig  []byte
	cert *x509.Certificate
	now  func(parser string)
}

// feed gives a document to every parser
func (f *feeder) feed(der []byte, pw string, file bool) (out []outcome) {
	one := func(name string, g func(in []byte) *outcome) {
		f.now(name)
		in := clone(der)
		var o *outcome
		if p := try(func() { o = g(in) }); p != "" {
			o = &outcome{panic: p}
		}
		if o != nil {
			o.parser = name
			out = append(out, *o)
		}
	}
	plain := func(ok bool) *outcome {
		if ok {
			return &outcome{same: true}
		}
		return nil
	}
	one("certificate", func(in []byte) *outcome {
		c, err := x509.ParseCertificate(in)
		if err != nil {
			return nil
		}
		c.CheckSignatureFrom(c)
		c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature)
		c.Equal(f.cert)
		return &outcome{same: bytes.Equal(c.Raw, der), raws: M{"raw": B(clone(c.Raw)), "tbs": B(clone(c.RawTBSCertificate)), "issuer": B(clone(c.RawIssuer)), "subject": B(clone(c.RawSubject)),
			"spki": B(clone(c.RawSubjectPublicKeyInfo))}}
	})
	one("certificates", func(in []byte) *outcome {
		cs, err := x509.ParseCertificates(in)
		if err != nil {
			return nil
		}
		var all []byte
		for _, c := range cs {
			all = append(all, c.Raw...)
		}
		return &outcome{same: bytes.Equal(all, der)}
	})
	one("request", func(in []byte) *outcome {
		c, err := x509.ParseCertificateRequest(in)
		if err != nil {
			return nil
		}
		c.CheckSignature()
		return &outcome{same: bytes.Equal(c.Raw, der), raws: M{"raw": B(clone(c.Raw)), "tbs": B(clone(c.RawTBSCertificateRequest)), "issuer": B{}, "subject": B(clone(c.RawSubject)),
			"spki": B(clone(c.RawSubjectPublicKeyInfo))}}
	})
	crl := func(c *pkix.CertificateList, err error) *outcome {
		if err != nil {
			return nil
		}
		f.cert.CheckCRLSignature(c)
		c.HasExpired(time.Unix(1700000000, 0))
		return &outcome{same: true, raws: M{"raw": B{}, "tbs": B(clone(c.TBSCertList.Raw)), "issuer": B{}, "subject": B{}, "spki": B{}}}
	}
	if bytes.HasPrefix(der, []byte("-----BEGIN")) {
		one("list in PEM", func(in []byte) *outcome {
			o := crl(x509.ParseCRL(in))
			if o != nil {
				o.raws = nil
			}
			return o
		})
	} else {
		one("list", func(in []byte) *outcome { return crl(x509.ParseCRL(in)) })
	}
	one("DER list", func(in []byte) *outcome { return crl(x509.ParseDERCRL(in)) })
	one("PKCS#8", func(in []byte) *outcome {
		k, err := x509.ParsePKCS8PrivateKey(in)
		return plain(err == nil && k != nil)
	})
	one("SEC 1", func(in []byte) *outcome { k, err := x509.ParseECPrivateKey(in); return plain(err == nil && k != nil) })
	one("PKCS#1", func(in []byte) *outcome {
		k, err := x509.ParsePKCS1PrivateKey(in)
		return plain(err == nil && k != nil)
	})
	one("PKCS#1 public", func(in []byte) *outcome { k, err := x509.ParsePKCS1PublicKey(in); return plain(err == nil && k != nil) })
	one("PKIX", func(in []byte) *outcome { k, err := x509.ParsePKIXPublicKey(in); return plain(err == nil && k != nil) })
	one("PKCS#7", func(in []byte) *outcome {
		p, err := x509.ParsePKCS7(in)
		if err != nil {
			return nil
		}
		p.Verify()
		p.GetOnlySigner()
		var v []byte
		p.UnmarshalSignedAttribute(oidDigest, &v)
		var t time.Time
		p.UnmarshalSignedAttribute(oidSigTime, &t)
		return plain(true)
	})
	one("PKCS#12", func(in []byte) *outcome { _, _, err := pkcs12.DecodeAll(in, pw); return plain(err == nil) })
	one("PKCS#12 single", func(in []byte) *outcome { _, _, err := pkcs12.Decode(in, pw); return plain(err == nil) })
	one("PKCS#12 to PEM", func(in []byte) *outcome { _, err := pkcs12.ToPEM(in, pw); return plain(err == nil) })
	if file {
		one("PKCS#12 file", func(in []byte) *outcome {
			name := f.v.file()
			defer os.Remove(name)
			if err := os.WriteFile(name, in, 0600); err != nil {
				die(err)
			}
			_, _, err := pkcs12.SM2P12Decrypt(name, pw)
			return plain(err == nil)
		})
	}
	one("signature", func(in []byte) *outcome { _, _, err := sm2.UnmarshalSign(in); return plain(err == nil) })
	one("signature verified", func(in []byte) *outcome { return plain(f.pub.VerifyDigest(f.dig, in)) })
	one("ciphertext", func(in []byte) *outcome { _, err := sm2.Decryt(f.priv, in); return plain(err == nil) })
	return
}

// ---- base documents

type parseBase struct {
	name, pw string
	der      []byte
	store    func(h *p12hook) ([]byte, string) // a store, rebuilt around a changed part
}

func richCert(keys keyring) *x509.Certificate {
	u, _ := url.Parse("https://example.org/a?b=c")
	_, nw, _ := net.ParseCIDR("10.1.0.0/16")
	_, n6, _ := net.ParseCIDR("2001:db8::/32")
	return &x509.Certificate{SerialNumber: big.NewInt(1 << 40), Subject: pkix.Name{CommonName: "rich", Country: []string{"CN"}, Organization: []string{"Ünï", "Two"},
		OrganizationalUnit: []string{"u"}, Locality: []string{"l"}, Province: []string{"p"}, StreetAddress: []string{"s"}, PostalCode: []string{"1"}, SerialNumber: "7",
		ExtraNames: []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{1, 2, 3}, Value: "x"}}},
		NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(4000000000, 0), KeyUsage: 511, BasicConstraintsValid: true, IsCA: true, MaxPathLen: 3,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageAny, x509.ExtKeyUsageServerAuth}, UnknownExtKeyUsage: []asn1.ObjectIdentifier{{1, 2, 4}},
		SubjectKeyId: []byte{1, 2, 3}, AuthorityKeyId: []byte{4, 5, 6}, OCSPServer: []string{"http://o/"}, IssuingCertificateURL: []string{"http://i/"},
		DNSNames: []string{"a.example", "*.b"}, EmailAddresses: []string{"a@b"}, IPAddresses: []net.IP{{1, 2, 3, 4}, net.ParseIP("::1")}, URIs: []*url.URL{u},
		PermittedDNSDomainsCritical: true, PermittedDNSDomains: []string{".x"}, ExcludedDNSDomains: []string{"y"}, PermittedIPRanges: []*net.IPNet{nw, n6}, ExcludedIPRanges: []*net.IPNet{n6},
		PermittedEmailAddresses: []string{"a@b"}, ExcludedEmailAddresses: []string{".c"}, PermittedURIDomains: []string{"h"}, ExcludedURIDomains: []string{".i"},
		CRLDistributionPoints: []string{"http://c/1", "http://c/2"}, PolicyIdentifiers: []asn1.ObjectIdentifier{{2, 5, 29, 32, 0}, {1, 2, 5}},
		ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 6}, Critical: true, Value: []byte{4, 1, 9}}}}
}

func parseBases(rng *Rng, f *feeder) (out []parseBase) {
	keys := newKeyring(rng)
	for _, pre := range []string{"cert-", "csr-", "crl-"} {
		for _, x := range fixtures(pre) {
			out = append(out, parseBase{name: x.name, der: x.data})
		}
	}
	add := func(name string, der []byte, err error) {
		if err == nil && len(der) > 0 {
			out = append(out, parseBase{name: name, der: der})
		}
	}
	for _, k := range []string{"sm2", "p256", "rsa", "ed25519"} {
		t := richCert(keys)
		sg := &signer{key: keys[k], mode: "ok", rng: rng}
		der, err := x509.CreateCertificate(rng, t, t, keys.pub(k), sg)
		add("rich certificate, "+k, der, err)
		der, err = x509.CreateCertificateRequest(rng, &x509.CertificateRequest{Subject: t.Subject, DNSNames: t.DNSNames, EmailAddresses: t.EmailAddresses, IPAddresses: t.IPAddresses, URIs: t.URIs,
			ExtraExtensions: t.ExtraExtensions}, sg)
		add("rich request, "+k, der, err)
		der, err = x509.CreateRevocationList(rng, &x509.RevocationList{Number: big.NewInt(5), ThisUpdate: t.NotBefore, NextUpdate: t.NotAfter, ExtraExtensions: t.ExtraExtensions,
			RevokedCertificates: []pkix.RevokedCertificate{{SerialNumber: big.NewInt(7), RevocationTime: t.NotBefore, Extensions: t.ExtraExtensions}, {SerialNumber: big.NewInt(300), RevocationTime: t.NotAfter}}}, t, sg)
		add("rich list, "+k, der, err)
		if k == "sm2" {
			add("list in PEM", pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: der}), err)
		}
	}
	for _, k := range []string{"rsa2", "p224", "p256", "p384", "p521", "sm2", "ed25519"} {
		for _, fm := range keyFmts {
			x := keys[k]
			if fm == "pkix" || fm == "pkcs1pub" {
				x = pubOf(x)
			}
			if (fm == "pkcs1" || fm == "pkcs1pub") != (k == "rsa2") && fm != "pkcs8" && fm != "pkix" {
				continue
			}
			if fm == "sec1" {
				if _, ok := x.(*ecdsa.PrivateKey); !ok {
					continue
				}
			}
			der, err, _ := marshalKey(fm, x)
			add(fm+" "+k, der, err)
		}
	}
	cast := p7People(rng)
	msg := func(name string, ed ...string) {
		m := map[string]string{"certs": "A", "content": "text", "inner": "gm", "outer": "gm", "digs": "sm3", "crls": "absent", "version": "1", "more": "one",
			"ias": "A", "key": "A", "attrs": "full", "over": "attrs", "sig": "none", "dig": "sm3", "sigalg": "sm2sm3", "unauth": "absent", "siver": "1", "tamper": "none", "swap": "none"}
		for i := 0; i < len(ed); i += 2 {
			m[ed[i]] = ed[i+1]
		}
		der, _ := cast.message(rng, m)
		add(name, der, nil)
	}
	msg("message")
	msg("message, two signers, list, attributes", "more", "good", "crls", "one", "unauth", "two", "attrs", "extra")
	msg("message, digest only, compound content", "attrs", "digest", "content", "compound")
	msg("message without attributes or content", "attrs", "none", "content", "absent")
	sig, err := f.priv.SignDigest(rng, f.dig)
	add("signature", sig, err)
	ct, err := sm2.Encryt(rng, f.pub, []byte("some text of some length"))
	add("ciphertext", ct, err)
	for _, x := range fixtures("p12-") {
		pw := "mcrypto ü"
		if strings.Contains(x.name, "empty") {
			pw = ""
		}
		if x.name == "p12-sm2.p12" || x.name == "p12-p256-iter1.p12" {
			out = append(out, parseBase{name: x.name, der: x.data, pw: pw})
		}
	}
	pc := p12People(rng)
	parts := []string{"cert", "pkcs8", "keybag", "certbags", "keybags", "encdata", "authsafe", "macdata", "pfx"}
	for bi, ch := range []map[string]string{p12Plain("cattrs", "all", "kattrs", "both"), p12Plain("key", "rsa", "safes", "dataenc", "pw", "empty", "certs", "A ca")} {
		for pi, part := range parts {
			ch, part, seed := ch, part, rng.Int63()
			var der []byte
			build := func(h *p12hook) ([]byte, string) { return pc.store(NewRng(seed), ch, h) }
			build(&p12hook{part, func(b []byte) []byte {
				if der == nil {
					der = clone(b)
				}
				return b
			}})
			if len(der) == 0 || (bi == 1 && pi < 2) {
				continue
			}
			out = append(out, parseBase{name: fmt.Sprint("store ", bi, ", ", part), der: der, store: func(h *p12hook) ([]byte, string) {
				h.at = part
				return build(h)
			}})
		}
	}
	return
}

// ---- the child

type outerKey struct {
	parser, head string
	n            int
	same         bool
}

func parseChild(c *Ctx) {
	var scn []parseScn
	readJSON(c.In, &scn)
	priv := mkKey(shortKeys(c.Rng, 1)[0])
	cert, err := x509.ParseCertificate(fixtures("cert-sm2-ca")[0].data)
	if err != nil {
		die(err)
	}
	v := newP12env(c)
	base := feeder{v: v, pub: &priv.PublicKey, priv: priv, dig: c.Rng.Bytes(32), cert: cert}
	bases := parseBases(c.Rng, &base)
	var jobs []parseJob
	// unless thorough, only the first elements of a document get every edit, and the others some
	for bi := range bases {
		seen := 0
		for si, s := range scn {
			if s.Plan == nil {
				continue
			}
			if len(s.Plan) == 1 && c.Quick {
				st, lot := s.Plan[0], si*7+bi*13+int(c.Seed)*5
				if st.At >= 12 && lot%13 != 0 || bases[bi].store != nil && lot%3 != 0 {
					continue
				}
			}
			if len(s.Plan) > 1 && c.Quick && (si+bi+int(c.Seed))%8 != 0 {
				continue
			}
			seen++
			jobs = append(jobs, parseJob{bi, si})
		}
		jobs = append(jobs, parseJob{bi, -1})
	}
	for si, s := range scn {
		if s.Plan == nil {
			jobs = append(jobs, parseJob{-1, si})
		}
	}
	slots, err := os.Create(filepath.Join(c.Dir, "underway"))
	if err != nil {
		die(err)
	}
	var mu sync.Mutex
	outer := map[outerKey]*[2]interface{}{}
	counts := map[string]int{}
	sampled := map[string]bool{}
	var next, docs, accepted int64 = -1, 0, 0
	var wg sync.WaitGroup
	worker := func(w int) {
		defer wg.Done()
		for {
			j := int(atomic.AddInt64(&next, 1))
			if j >= len(jobs) {
				return
			}
			var der []byte
			var pw, cs, kind string
			if p := call(func() { der, pw, cs, kind = jobs[j].doc(bases, scn) }); p != "" {
				die(fmt.Sprint("making document ", j, ": ", p))
			}
			if der == nil {
				continue
			}
			atomic.AddInt64(&docs, 1)
			f := base
			where := ""
			f.now = func(p string) { where = p }
			mark := fmt.Sprintf("%-200s", clipTo(cs, 200))
			slots.WriteAt([]byte(mark), int64(w*200))
			var outs []outcome
			store := jobs[j].b >= 0 && (bases[jobs[j].b].store != nil || strings.HasPrefix(bases[jobs[j].b].name, "p12-"))
			if p := call(func() { outs = f.feed(der, pw, store || j%64 == 0) }); p != "" {
				outs = append(outs, outcome{parser: where, panic: p})
			}
			mu.Lock()
			for _, o := range outs {
				if o.panic != "" {
					d := der
					if len(d) > 3000 {
						d = d[:3000]
					}
					c.Out.Put(M{"op": "trouble", "case": o.parser + ": " + cs, "parser": o.parser, "panic": o.panic, "der": B(d)})
					continue
				}
				accepted++
				counts[o.parser]++
				n := len(der)
				if n > 8 {
					n = 8
				}
				k := outerKey{o.parser, string(der[:n]), len(der), o.same}
				if outer[k] == nil {
					outer[k] = &[2]interface{}{cs, 0}
				}
				outer[k][1] = outer[k][1].(int) + 1
				if o.raws != nil && len(der) < 4000 {
					sk := o.parser + fmt.Sprint(jobs[j].b) + kind
					if !sampled[sk] {
						sampled[sk] = true
						o.raws["op"], o.raws["parser"], o.raws["case"], o.raws["der"] = "kept", o.parser, o.parser+": "+cs, B(der)
						c.Out.Put(o.raws)
					}
				}
			}
			mu.Unlock()
		}
	}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go worker(w)
	}
	wg.Wait()
	var ks []outerKey
	for k := range outer {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool {
		if ks[a].parser != ks[b].parser {
			return ks[a].parser < ks[b].parser
		}
		return ks[a].n < ks[b].n || ks[a].n == ks[b].n && ks[a].head < ks[b].head
	})
	for _, k := range ks {
		x := outer[k]
		c.Out.Put(M{"op": "outer", "case": fmt.Sprint(k.parser, ": ", x[0]), "parser": k.parser, "head": B(k.head), "len": k.n, "same": k.same, "times": x[1]})
	}
	for _, b := range bases {
		c.Out.Put(M{"op": "base", "case": b.name, "name": b.name})
	}
	c.Out.Put(M{"op": "count", "case": "count", "docs": docs, "accepted": accepted, "jobs": len(jobs)})
	slots.Close()
}

type parseJob struct{ b, s int }

func (j parseJob) doc(bases []parseBase, scn []parseScn) (der []byte, pw, cs, kind string) {
	if j.b < 0 {
		// of a generator's documents a few are kept for each of its places
		return append([]byte{}, scn[j.s].Doc...), "", scn[j.s].Case, strings.FieldsFunc(scn[j.s].Case+":", func(c rune) bool { return c == ':' || c == '=' })[0]
	}
	b := &bases[j.b]
	var plan []planStep
	if j.s >= 0 {
		plan = scn[j.s].Plan
		for n, s := range plan {
			if n == 0 || (j.s+j.b)%40 == 0 {
				kind += s.K + " "
			}
		}
		cs = b.name + ": " + scn[j.s].Case
	} else {
		cs = b.name
	}
	if b.store != nil {
		ok := true
		der, pw = b.store(&p12hook{"", func(x []byte) []byte {
			if plan == nil {
				return x
			}
			d, applies := applyPlan(x, plan)
			if !applies {
				ok = false
				return x
			}
			return d
		}})
		if !ok {
			return nil, "", "", ""
		}
		return
	}
	if plan == nil {
		return clone(b.der), b.pw, cs, kind
	}
	d, ok := applyPlan(b.der, plan)
	if !ok {
		return nil, "", "", ""
	}
	if d == nil {
		d = []byte{}
	}
	return d, b.pw, cs, kind
}

func clipTo(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---- the parent

func parseParent(c *Ctx) {
	dir := filepath.Join(c.Dir, fmt.Sprintf("parse-%d", os.Getpid()))
	if err := os.MkdirAll(dir, 0700); err != nil {
		die(err)
	}
	defer os.RemoveAll(dir)
	trace := filepath.Join(dir, "trace")
	tier := "quick"
	if !c.Quick {
		tier = "thorough"
	}
	cmd := exec.Command(os.Args[0], "parsechild", "-out", trace, "-in", c.In, "-seed", fmt.Sprint(c.Seed), "-tier", tier, "-dir", dir)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	late := false
	timer := time.AfterFunc(12*time.Minute, func() { late = true; cmd.Process.Kill() })
	err := cmd.Run()
	timer.Stop()
	if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 3 && strings.Contains(se.String(), "driver:") {
		die(se.String())
	}
	if late {
		die("out of time")
	}
	underway := []string{}
	if err != nil {
		b, _ := os.ReadFile(filepath.Join(dir, "underway"))
		for len(b) > 0 {
			n := 200
			if n > len(b) {
				n = len(b)
			}
			underway = append(underway, strings.TrimSpace(strings.ToValidUTF8(string(b[:n]), "?")))
			b = b[n:]
		}
	}
	c.Out.Put(M{"op": "process", "case": "the process", "died": es(err), "output": clipText(so.String() + se.String()), "underway": underway})
	b, _ := os.ReadFile(trace)
	for _, line := range bytes.Split(b, []byte("\n")) {
		if len(line) > 0 && line[len(line)-1] == '}' {
			c.Out.Put(rawLine(line))
		}
	}
}

type rawLine []byte

func (r rawLine) MarshalJSON() ([]byte, error) { return r, nil }
