package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
	"github.com/mmdet/mcrypto/x509"
)

// Histories of calls on shared values: every call's outcome, and every value anyone holds, afterwards.

func init() {
	drivers["calls"] = callsParent
	drivers["callschild"] = callsChild
}

type kept struct {
	who  string
	v    interface{}
	was  string
	cell string
}

type world struct {
	rng   *Rng
	names []string
	cells map[string]interface{}
	ops   map[string]func() (string, interface{})
	dir   string
}

// cell registers a value the callers hold
func (w *world) cell(name string, v interface{}) {
	if _, ok := w.cells[name]; ok {
		die("cell twice: " + name)
	}
	w.names = append(w.names, name)
	w.cells[name] = v
}

// buf puts octets into a larger array, the whole of which is watched
func (w *world) buf(name string, b []byte) []byte {
	a := w.rng.Bytes(24 + len(b) + 40)
	copy(a[24:], b)
	w.cell(name, a)
	return a[24 : 24+len(b)]
}
func (w *world) look() []string {
	out := make([]string, len(w.names))
	parallel(len(w.names), func(i int) { out[i] = digestOf(true, w.cells[w.names[i]]) })
	return out
}

// op registers an operation: f returns what the outcome is judged by and what the caller keeps
func (w *world) op(name string, f func() (string, interface{})) {
	if w.ops[name] != nil {
		die("op twice: " + name)
	}
	w.ops[name] = f
}

// det is an operation whose results are determined by its arguments
func (w *world) det(name string, f func() ([]interface{}, error)) {
	w.op(name, func() (string, interface{}) {
		vs, err := f()
		return digestOf(false, vs...) + " " + es(err), vs
	})
}

// yes is an operation whose result is random and judged as good or not
func (w *world) yes(name string, f func() (interface{}, error, bool)) {
	w.op(name, func() (string, interface{}) {
		v, err, good := f()
		return fmt.Sprint(good, " ", es(err)), v
	})
}

func vals(v ...interface{}) []interface{} { return v }

func newWorld(rng *Rng, dir string) *world {
	w := &world{rng: rng, cells: map[string]interface{}{}, ops: map[string]func() (string, interface{}){}, dir: dir}
	keys := newKeyring(rng)
	cast := p12People(rng)
	pcast := p7People(rng)
	one := big.NewInt(1)
	nm2 := new(big.Int).Sub(sm2.SM2P256V1().Params().N, big.NewInt(2))
	k1, k2 := mkKey(rng.BigIn(one, nm2)), mkKey(rng.BigIn(one, nm2))
	short := mkKey(shortKeys(rng, 1)[0])
	sk := []*sm2.PrivateKey{k1, k2, short}
	for i, k := range sk {
		w.cell(fmt.Sprint("sm2 key ", i), k)
	}
	w.cell("curve", sm2.SM2P256V1())
	for _, n := range []string{"rsa", "rsa2", "p256", "p384", "ed25519", "sm2", "sm2b"} {
		w.cell("key "+n, keys[n])
	}
	rawRSA := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: keys["rsa2"].(*rsa.PrivateKey).N, E: keys["rsa2"].(*rsa.PrivateKey).E}, D: keys["rsa2"].(*rsa.PrivateKey).D, Primes: keys["rsa2"].(*rsa.PrivateKey).Primes}
	w.cell("key without precomputed values", rawRSA)

	w.sm3Ops()
	w.sm2Ops(sk)
	w.keyOps(keys, rawRSA, sk)
	w.certOps(keys)
	w.p7Ops(pcast)
	w.p12Ops(cast)
	return w
}

func (w *world) sm3Ops() {
	rng := w.rng
	for i, n := range []int{0, 3, 64, 119, 1000} {
		m := w.buf(fmt.Sprint("text ", i), rng.Bytes(n))
		pre := w.buf(fmt.Sprint("prefix ", i), rng.Bytes(5+i))
		w.det(fmt.Sprint("sm3.Sum ", i), func() ([]interface{}, error) { return vals(sm3.Sum(m)), nil })
		w.det(fmt.Sprint("sm3 object ", i), func() ([]interface{}, error) {
			h := sm3.New()
			h.Write(m)
			a := h.Sum(nil)
			h.Write(m)
			b := h.Sum(clone(pre)[:len(pre):len(pre)])
			h.Reset()
			h.Write(pre)
			return vals(a, b, h.Sum(nil)), nil
		})
		w.det(fmt.Sprint("sm3 registered ", i), func() ([]interface{}, error) {
			h := x509.SM3.New()
			h.Write(m)
			return vals(h.Sum(nil), x509.SM3.Size(), x509.SM3.Available(), x509.SM3.String()), nil
		})
	}
}

func (w *world) sm2Ops(sk []*sm2.PrivateKey) {
	rng := w.rng
	k1, k2 := sk[0], sk[1]
	msgs := [][]byte{w.buf("message 0", rng.Bytes(40)), w.buf("message 1", rng.Bytes(40)), w.buf("message 2", nil)}
	uids := [][]byte{w.buf("uid 0", []byte("1234567812345678")), w.buf("uid 1", []byte("1234567812345679")), nil}
	digs := [][]byte{w.buf("digest 0", rng.Bytes(32)), w.buf("digest 1", rng.Bytes(32)), w.buf("digest short", rng.Bytes(20)), w.buf("digest long", rng.Bytes(64))}
	for ki, k := range sk {
		ki, k := ki, k
		for mi, m := range msgs {
			mi, m, u := mi, m, uids[(ki+mi)%3]
			n := fmt.Sprint(" key ", ki, " message ", mi)
			w.yes("Sign"+n, func() (interface{}, error, bool) {
				s, err := sm2.Sign(crand.Reader, k, m, u)
				return s, err, err == nil && sm2.Verify(&k.PublicKey, m, u, s)
			})
			w.yes("key.Sign"+n, func() (interface{}, error, bool) {
				s, err := k.Sign(crand.Reader, m, u)
				return s, err, err == nil && k.PublicKey.Verify(m, u, s)
			})
			w.yes("SignRS"+n, func() (interface{}, error, bool) {
				r, s, err := sm2.SignRS(crand.Reader, k, m, u)
				return vals(r, s), err, err == nil && sm2.VerifyRS(&k.PublicKey, m, u, r, s)
			})
			w.yes("key.SignRS"+n, func() (interface{}, error, bool) {
				r, s, err := k.SignRS(crand.Reader, m, u)
				return vals(r, s), err, err == nil && k.PublicKey.VerifyRS(m, u, r, s)
			})
			w.yes("Encryt"+n, func() (interface{}, error, bool) {
				ct, err := sm2.Encryt(crand.Reader, &k.PublicKey, m)
				if err != nil {
					return ct, err, false
				}
				pt, e := sm2.Decryt(k, ct)
				return ct, err, e == nil && bytes.Equal(pt, m)
			})
			w.det("SM3Digest"+n, func() ([]interface{}, error) { d, err := k.PublicKey.SM3Digest(m, u); return vals(d), err })
			sig, err := sm2.Sign(rng, k, m, u)
			if err != nil {
				continue
			}
			sig = w.buf("signature"+n, sig)
			bad := clone(sig)
			bad[len(bad)-1] ^= 1
			bad = w.buf("bad signature"+n, bad)
			r, s, err := sm2.UnmarshalSign(sig)
			if err != nil {
				continue
			}
			w.cell("r, s"+n, []*big.Int{r, s})
			w.det("Verify"+n, func() ([]interface{}, error) {
				return vals(sm2.Verify(&k.PublicKey, m, u, sig), k.PublicKey.Verify(m, u, sig), sm2.VerifyRS(&k.PublicKey, m, u, r, s), k.PublicKey.VerifyRS(m, u, r, s)), nil
			})
			w.det("Verify what is wrong"+n, func() ([]interface{}, error) {
				return vals(sm2.Verify(&k.PublicKey, m, u, bad), sm2.Verify(&k.PublicKey, msgs[(mi+1)%3], u, sig), sm2.Verify(&k.PublicKey, m, uids[(ki+mi+1)%3], sig),
					sm2.Verify(&sk[(ki+1)%3].PublicKey, m, u, sig), sm2.Verify(&k.PublicKey, m, u, sig[:len(sig)-1]), k.PublicKey.VerifyRS(m, u, s, r)), nil
			})
			w.det("UnmarshalSign"+n, func() ([]interface{}, error) { r, s, err := sm2.UnmarshalSign(sig); return vals(r, s), err })
			w.det("MarshalSign"+n, func() ([]interface{}, error) { b, err := sm2.MarshalSign(r, s); return vals(b), err })
		}
		for di, d := range digs {
			d := d
			n := fmt.Sprint(" key ", ki, " digest ", di)
			w.yes("SignDigest"+n, func() (interface{}, error, bool) {
				s, err := sm2.SignDigest(crand.Reader, k, d)
				return s, err, err == nil && sm2.VerifyDigest(&k.PublicKey, d, s)
			})
			w.yes("key.SignDigest"+n, func() (interface{}, error, bool) {
				r, s, err := k.SignDigestRS(crand.Reader, d)
				if err != nil {
					return nil, err, false
				}
				der, err := k.SignDigest(crand.Reader, d)
				return vals(r, s, der), err, err == nil && k.PublicKey.VerifyDigestRS(d, r, s) && k.PublicKey.VerifyDigest(d, der)
			})
			r, s, err := sm2.SignDigestRS(rng, k, d)
			if err != nil {
				continue
			}
			w.cell("r, s"+n, []*big.Int{r, s})
			w.det("VerifyDigest"+n, func() ([]interface{}, error) {
				return vals(sm2.VerifyDigestRS(&k.PublicKey, d, r, s), k.PublicKey.VerifyDigestRS(d, r, s), sm2.VerifyDigestRS(&sk[(ki+1)%3].PublicKey, d, r, s), sm2.VerifyDigestRS(&k.PublicKey, d, s, r)), nil
			})
		}
		for ci, l := range []int{1, 32, 77} {
			m := rng.Bytes(l)
			ct, err := sm2.Encryt(rng, &k.PublicKey, m)
			if err != nil {
				continue
			}
			ct = w.buf(fmt.Sprint("ciphertext ", ki, " ", ci), ct)
			bad := clone(ct)
			bad[len(bad)-1] ^= 1
			bad = w.buf(fmt.Sprint("bad ciphertext ", ki, " ", ci), bad)
			w.det(fmt.Sprint("Decryt ", ki, " ", ci), func() ([]interface{}, error) { b, err := sm2.Decryt(k, ct); return vals(b), err })
			w.det(fmt.Sprint("Decryt what is wrong ", ki, " ", ci), func() ([]interface{}, error) {
				a, e1 := sm2.Decryt(k, bad)
				b, e2 := sm2.Decryt(sk[(ki+1)%3], ct)
				c, e3 := sm2.Decryt(k, ct[:len(ct)-2])
				return vals(a, b, c, e1 != nil, e2 != nil, e3 != nil), nil
			})
		}
		// a key of one's own, made for this call
		d := new(big.Int).Set(k.D)
		w.det(fmt.Sprint("own key ", ki), func() ([]interface{}, error) {
			o := mkKey(new(big.Int).Set(d))
			z, err := o.PublicKey.SM3Digest(msgs[0], uids[1])
			return vals(o.Equal(k), o.PublicKey.Equal(&k.PublicKey), k.Equal(sk[(ki+1)%3]), k.Public(), z), err
		})
	}
	w.yes("GenerateKey", func() (interface{}, error, bool) {
		k, err := sm2.GenerateKey(crand.Reader)
		return k, err, err == nil && on(k.X, k.Y) && k.D.Sign() > 0
	})
	w.yes("failing source", func() (interface{}, error, bool) {
		_, e1 := sm2.GenerateKey(&failAfter{crand.Reader, 5, errReader})
		_, e2 := sm2.Sign(&failAfter{crand.Reader, 5, errReader}, k1, msgs[0], nil)
		_, e3 := sm2.Encryt(&failAfter{crand.Reader, 5, errReader}, &k2.PublicKey, msgs[0])
		return nil, nil, e1 != nil && e2 != nil && e3 != nil
	})
	off := &sm2.PublicKey{Curve: sm2.SM2P256V1(), X: big.NewInt(1), Y: big.NewInt(1)}
	w.cell("no point", off)
	w.det("with what is no point", func() ([]interface{}, error) {
		_, err := sm2.Encryt(crand.Reader, off, msgs[0])
		return vals(sm2.VerifyDigestRS(off, digs[0], big.NewInt(1), big.NewInt(1))), err
	})
}

func (w *world) keyOps(keys keyring, rawRSA *rsa.PrivateKey, sk []*sm2.PrivateKey) {
	w.det("MarshalPKCS1PrivateKey, nothing precomputed", func() ([]interface{}, error) { return vals(x509.MarshalPKCS1PrivateKey(rawRSA)), nil })
	for _, n := range []string{"rsa", "rsa2", "p256", "p384", "ed25519", "sm2", "sm2b"} {
		n := n
		for _, fm := range []string{"pkcs1", "pkcs1pub", "sec1", "pkcs8", "pkix"} {
			key := keys[n]
			if fm == "pkix" || fm == "pkcs1pub" {
				key = keys.pub(n)
			}
			fm := fm
			der, err, panicked := marshalKey(fm, key)
			if err != nil || panicked != "" || len(der) == 0 {
				continue
			}
			der = w.buf("DER "+fm+" "+n, der)
			w.det("marshal "+fm+" "+n, func() ([]interface{}, error) { d, err, p := marshalKey(fm, key); return vals(d, p), err })
			w.det("parse "+fm+" "+n, func() ([]interface{}, error) { k, err, p := parseKey(fm, der); return vals(keyRecOf(fm, k), p), err })
			bad := w.buf("broken DER "+fm+" "+n, der[:len(der)-1])
			w.det("parse broken "+fm+" "+n, func() ([]interface{}, error) { k, err, p := parseKey(fm, bad); return vals(isNil(k), p), err })
		}
	}
}

func (w *world) certOps(keys keyring) {
	rng := w.rng
	// fixtures parsed, and the parsed certificates shared
	parsed := map[string]*x509.Certificate{}
	for _, f := range fixtures("cert-") {
		f := f
		der := w.buf("DER "+f.name, f.data)
		w.det("ParseCertificate "+f.name, func() ([]interface{}, error) {
			c, err := x509.ParseCertificate(der)
			return vals(c), err
		})
		if c, err := x509.ParseCertificate(clone(f.data)); err == nil {
			parsed[f.name] = c
			w.cell("certificate "+f.name, c)
		}
	}
	var names []string
	for n := range parsed {
		names = append(names, n)
	}
	sort.Strings(names)
	var all []byte
	for i, n := range names {
		if i < 4 {
			all = append(all, parsed[n].Raw...)
		}
		c := parsed[n]
		w.det("CheckSignatureFrom itself and others "+n, func() ([]interface{}, error) {
			e1, e2 := c.CheckSignatureFrom(c), c.CheckSignatureFrom(parsed[names[0]])
			return vals(e1 == nil, e2 == nil, c.Equal(c), c.Equal(parsed[names[0]])), c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature)
		})
	}
	all = w.buf("several certificates", all)
	w.det("ParseCertificates", func() ([]interface{}, error) { cs, err := x509.ParseCertificates(all); return vals(cs), err })
	w.det("ParseCertificates, cut", func() ([]interface{}, error) {
		cs, err := x509.ParseCertificates(all[:len(all)-1])
		return vals(cs), err
	})
	for _, f := range fixtures("csr-") {
		der := w.buf("DER "+f.name, f.data)
		w.det("ParseCertificateRequest "+f.name, func() ([]interface{}, error) {
			c, err := x509.ParseCertificateRequest(der)
			return vals(c), err
		})
		if c, err := x509.ParseCertificateRequest(clone(f.data)); err == nil {
			w.cell("request "+f.name, c)
			w.det("request.CheckSignature "+f.name, func() ([]interface{}, error) { return nil, c.CheckSignature() })
		}
	}
	for _, f := range fixtures("crl-") {
		der := w.buf("DER "+f.name, f.data)
		txt := w.buf("PEM "+f.name, pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: f.data}))
		w.det("ParseCRL "+f.name, func() ([]interface{}, error) {
			a, e1 := x509.ParseCRL(der)
			b, e2 := x509.ParseCRL(txt)
			c, e3 := x509.ParseDERCRL(der)
			return vals(a, b, c, es(e1), es(e2)), e3
		})
		f := f
		if l, err := x509.ParseDERCRL(clone(f.data)); err == nil {
			w.cell("list "+f.name, l)
			for _, n := range []string{names[0], names[len(names)/2]} {
				c := parsed[n]
				w.det("CheckCRLSignature "+f.name+" "+n, func() ([]interface{}, error) { return nil, c.CheckCRLSignature(l) })
			}
		}
	}
	// creation
	u, _ := url.Parse("https://example.com/a%20b?x=1#f")
	slack := func(e ...pkix.Extension) []pkix.Extension {
		out := make([]pkix.Extension, 0, len(e)+4)
		return append(out, e...)
	}
	ext := func(n int) pkix.Extension {
		return pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 3, n}, Critical: n%2 == 0, Value: rng.Bytes(5)}
	}
	sanExt := pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 17}, Value: seqOf(tlv(0x82, []byte("own.example.com")))}
	zone := time.FixedZone("far", 7*3600)
	name := pkix.Name{CommonName: "c", Organization: append(make([]string, 0, 4), "z", "a", "z"), OrganizationalUnit: []string{"u2", "u1"}, Country: []string{"CN"}, SerialNumber: "7",
		ExtraNames: append(make([]pkix.AttributeTypeAndValue, 0, 3), pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{2, 5, 4, 17}, Value: "123"})}
	tmpl := func(ca bool) *x509.Certificate {
		t := &x509.Certificate{SerialNumber: big.NewInt(int64(rng.Intn(1 << 30))), Subject: name, NotBefore: time.Date(2020, 1, 2, 3, 4, 5, 6, zone), NotAfter: time.Date(2051, 1, 2, 3, 4, 5, 6, zone),
			KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCRLSign | x509.KeyUsageCertSign, ExtKeyUsage: append(make([]x509.ExtKeyUsage, 0, 5), x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth),
			UnknownExtKeyUsage: []asn1.ObjectIdentifier{{1, 2, 3}}, BasicConstraintsValid: ca, IsCA: ca, MaxPathLen: 1, DNSNames: append(make([]string, 0, 4), "b.example.com", "a.example.com"),
			EmailAddresses: []string{"a@example.com"}, IPAddresses: []net.IP{net.IPv4(1, 2, 3, 4), net.ParseIP("2001:db8::1")}, URIs: []*url.URL{u}, OCSPServer: []string{"http://o"},
			IssuingCertificateURL: []string{"http://i"}, CRLDistributionPoints: []string{"http://c1", "http://c2"}, PolicyIdentifiers: []asn1.ObjectIdentifier{{2, 5, 29, 32, 0}},
			ExtraExtensions: slack(ext(5), ext(6)), AuthorityKeyId: w.rng.Bytes(7)}
		if ca {
			t.PermittedDNSDomainsCritical = true
			t.PermittedDNSDomains, t.ExcludedDNSDomains = []string{"example.com", ".sub.example.com"}, []string{"bad.example.com"}
			t.PermittedIPRanges = []*net.IPNet{{IP: net.IPv4(10, 0, 0, 0).To4(), Mask: net.CIDRMask(8, 32)}}
			t.PermittedEmailAddresses, t.ExcludedURIDomains = []string{"a@example.com"}, []string{".uri.example.com"}
			t.ExtraExtensions = slack(ext(7))
		}
		return t
	}
	signers := map[string]struct {
		key interface{}
		s   crypto.Signer
		alg x509.SignatureAlgorithm
	}{}
	for _, n := range []string{"sm2", "rsa", "p256", "ed25519"} {
		e := signers[n]
		e.key = keys[n]
		if k, ok := keys[n].(crypto.Signer); ok {
			e.s = k
		} else {
			e.s = &signer{key: keys[n], mode: "ok", rng: rng}
			e.alg = x509.SM2WithSM3
		}
		signers[n] = e
	}
	sm2t, rsat, edt := tmpl(true), tmpl(false), tmpl(false)
	sm2t.SignatureAlgorithm = x509.SM2WithSM3
	rsat.ExtraExtensions = slack(sanExt, ext(9))
	made := map[string]*x509.Certificate{"sm2": sm2t, "rsa": rsat, "ed25519": edt}
	for _, n := range keysOf(made) {
		w.cell("template "+n, made[n])
	}
	p256t := tmpl(true)
	p256t.SubjectKeyId = nil
	w.cell("template p256", p256t)
	templates := map[string]*x509.Certificate{"sm2": sm2t, "rsa": rsat, "ed25519": edt, "p256": p256t}
	var issuers = map[string]*x509.Certificate{}
	for _, n := range []string{"sm2", "rsa", "p256", "ed25519"} {
		n, s, t := n, signers[n], templates[n]
		create := func() ([]byte, error) {
			return x509.CreateCertificate(crand.Reader, t, t, keys.pub(n), s.s)
		}
		w.op("CreateCertificate "+n, func() (string, interface{}) {
			der, err := create()
			if err != nil {
				return "refused " + es(err), der
			}
			c, err := x509.ParseCertificate(der)
			if err != nil {
				return "unreadable " + es(err), der
			}
			return digestOf(false, c.RawTBSCertificate) + es(c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature)), vals(der, c)
		})
		if der, err := create(); err == nil {
			if c, err := x509.ParseCertificate(der); err == nil {
				issuers[n] = c
				w.cell("issued "+n, c)
			}
		}
		// a template of the caller's own, the issuer shared
		if iss := issuers[n]; iss != nil {
			for _, pn := range []string{"p384", "rsa2", "sm2b"} {
				pn := pn
				w.op("CreateCertificate under "+n+" for "+pn, func() (string, interface{}) {
					t := &x509.Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: pn}, NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1900000000, 0), SignatureAlgorithm: s.alg}
					der, err := x509.CreateCertificate(crand.Reader, t, iss, keys.pub(pn), s.s)
					if err != nil {
						return "refused " + es(err), der
					}
					c, err := x509.ParseCertificate(der)
					if err != nil {
						return "unreadable " + es(err), der
					}
					return digestOf(false, c.RawTBSCertificate) + es(c.CheckSignatureFrom(iss)), vals(der, c)
				})
			}
			ct := &x509.CertificateRequest{Subject: name, DNSNames: append(make([]string, 0, 4), "r.example.com"), SignatureAlgorithm: s.alg, ExtraExtensions: slack(ext(10)),
				Attributes: append(make([]pkix.AttributeTypeAndValueSET, 0, 4), pkix.AttributeTypeAndValueSET{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14},
					Value: append(make([][]pkix.AttributeTypeAndValue, 0, 3), append(make([]pkix.AttributeTypeAndValue, 0, 6), pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{1, 2, 3, 99}, Value: rng.Bytes(4)}))})}
			w.cell("request template "+n, ct)
			w.op("CreateCertificateRequest "+n, func() (string, interface{}) {
				der, err := x509.CreateCertificateRequest(crand.Reader, ct, s.s)
				if err != nil {
					return "refused " + es(err), der
				}
				c, err := x509.ParseCertificateRequest(der)
				if err != nil {
					return "unreadable " + es(err), der
				}
				return digestOf(false, c.RawTBSCertificateRequest) + es(c.CheckSignature()), vals(der, c)
			})
			rev := append(make([]pkix.RevokedCertificate, 0, 5), pkix.RevokedCertificate{SerialNumber: big.NewInt(9), RevocationTime: time.Date(2021, 1, 2, 3, 4, 5, 6, zone), Extensions: slack(ext(11))},
				pkix.RevokedCertificate{SerialNumber: big.NewInt(-9), RevocationTime: time.Date(2022, 1, 2, 3, 4, 5, 6, zone)})
			rl := &x509.RevocationList{SignatureAlgorithm: s.alg, RevokedCertificates: rev, Number: big.NewInt(77), ThisUpdate: time.Date(2023, 1, 2, 3, 4, 5, 6, zone),
				NextUpdate: time.Date(2024, 1, 2, 3, 4, 5, 6, zone), ExtraExtensions: slack(ext(12))}
			w.cell("list template "+n, rl)
			listed := func(der []byte, err error) (string, interface{}) {
				if err != nil {
					return "refused " + es(err), der
				}
				c, err := x509.ParseDERCRL(der)
				if err != nil {
					return "unreadable " + es(err), der
				}
				return digestOf(false, []byte(c.TBSCertList.Raw)) + es(iss.CheckCRLSignature(c)), vals(der, c)
			}
			if iss.KeyUsage&x509.KeyUsageCRLSign != 0 && len(iss.SubjectKeyId) > 0 {
				w.op("CreateRevocationList "+n, func() (string, interface{}) { return listed(x509.CreateRevocationList(crand.Reader, rl, iss, s.s)) })
			} else {
				ic := *iss
				ic.SubjectKeyId, ic.KeyUsage = rng.Bytes(20), ic.KeyUsage|x509.KeyUsageCRLSign
				w.cell("list issuer "+n, &ic)
				w.op("CreateRevocationList "+n, func() (string, interface{}) { return listed(x509.CreateRevocationList(crand.Reader, rl, &ic, s.s)) })
			}
			w.op("CreateCRL "+n, func() (string, interface{}) {
				return listed(iss.CreateCRL(crand.Reader, s.s, rev, time.Date(2023, 1, 2, 3, 4, 5, 6, zone), time.Date(2024, 1, 2, 3, 4, 5, 6, zone)))
			})
			w.op("a signer that refuses "+n, func() (string, interface{}) {
				f := &signer{key: keys[n], mode: "fails"}
				_, e1 := x509.CreateCertificate(crand.Reader, t, t, keys.pub(n), f)
				_, e2 := x509.CreateCertificateRequest(crand.Reader, ct, f)
				_, e3 := iss.CreateCRL(crand.Reader, f, rev, time.Unix(1, 0), time.Unix(2, 0))
				return fmt.Sprint(e1 != nil, e2 != nil, e3 != nil), nil
			})
		}
	}
}

func (w *world) p7Ops(cast *p7cast) {
	rng := w.rng
	for _, who := range []string{"A", "B"} {
		cert, key := cast.certs[who], cast.keys[who].(*sm2.PrivateKey)
		w.cell("PKCS#7 certificate "+who, cert)
		w.cell("PKCS#7 key "+who, key)
		for i, l := range []int{0, 50, 3000} {
			m := w.buf(fmt.Sprint("content ", who, " ", i), rng.Bytes(l))
			n := fmt.Sprint(" ", who, " ", i)
			seen := func(der []byte, err error) (interface{}, error, bool) {
				if err != nil {
					return der, err, false
				}
				p, err := x509.ParsePKCS7(der)
				if err != nil {
					return der, err, false
				}
				return vals(der, p), p.Verify(), bytes.Equal(p.Content, m) && len(p.Certificates) == 1 && p.Certificates[0].Equal(cert) && p.GetOnlySigner() != nil
			}
			w.yes("NewSignedData"+n, func() (interface{}, error, bool) { return seen(x509.NewSignedData(cert, key, m)) })
			w.yes("NewSignedDataCallBack"+n, func() (interface{}, error, bool) {
				return seen(x509.NewSignedDataCallBack(cert, func(b []byte) ([]byte, error) { return sm2.Sign(crand.Reader, key, b, nil) }, m))
			})
			w.yes("NewSignedDataCallBack, refused"+n, func() (interface{}, error, bool) {
				d, err := x509.NewSignedDataCallBack(cert, func(b []byte) ([]byte, error) { return nil, errors.New("no") }, m)
				return d, nil, err != nil && d == nil
			})
			der, err := x509.NewSignedData(cert, key, m)
			if err != nil {
				continue
			}
			der = w.buf("PKCS#7"+n, der)
			p, err := x509.ParsePKCS7(clone(der))
			if err != nil {
				continue
			}
			w.cell("parsed PKCS#7"+n, p)
			w.det("ParsePKCS7"+n, func() ([]interface{}, error) { p, err := x509.ParsePKCS7(der); return vals(p), err })
			w.det("ParsePKCS7, cut"+n, func() ([]interface{}, error) { p, err := x509.ParsePKCS7(der[:len(der)-3]); return vals(p), err })
			w.det("p7.Verify"+n, func() ([]interface{}, error) {
				var t time.Time
				var d []byte
				e1 := p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 5}, &t)
				e2 := p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &d)
				return vals(p.GetOnlySigner(), t, d, es(e1), es(e2)), p.Verify()
			})
			other := *p
			other.Content = append(clone(p.Content), 1)
			w.cell("PKCS#7 with other content"+n, &other)
			w.det("p7.Verify, other content"+n, func() ([]interface{}, error) { return nil, other.Verify() })
		}
	}
}

func (w *world) p12Ops(cast *p12cast) {
	rng := w.rng
	for i, kn := range []string{"sm2", "rsa", "p256"} {
		key, cert := cast.keys[kn], cast.certs[kn]
		w.cell("PKCS#12 key "+kn, key)
		w.cell("PKCS#12 certificate "+kn, cert)
		pw := p12Password([]string{"plain", "empty", "unicode"}[i])
		var cas []*stdx509.Certificate
		if c, err := stdx509.ParseCertificate(cast.certs["p256"].Raw); err == nil && i > 0 {
			cas = append(make([]*stdx509.Certificate, 0, 3), c)
		}
		w.cell("PKCS#12 chain "+kn, cas)
		w.yes("Encode "+kn, func() (interface{}, error, bool) {
			der, err := pkcs12.Encode(key, cert, cas, pw)
			if err != nil {
				return der, err, false
			}
			k, cs, err := pkcs12.DecodeAll(der, pw)
			return vals(der, k, cs), err, err == nil && len(cs) == 1+len(cas) && cs[0].Equal(cert) && digestOf(false, privRec(k)) == digestOf(false, privRec(key))
		})
		der, err := pkcs12.Encode(key, cert, cas, pw)
		if err != nil {
			continue
		}
		der = w.buf("store "+kn, der)
		for wi, p := range []string{pw, pw + "x", "\xff"} {
			p := p
			n := fmt.Sprint(" ", kn, " password ", wi)
			w.det("DecodeAll"+n, func() ([]interface{}, error) {
				k, cs, err := pkcs12.DecodeAll(der, p)
				return vals(privRec(k), cs), err
			})
			w.det("Decode"+n, func() ([]interface{}, error) { k, c, err := pkcs12.Decode(der, p); return vals(privRec(k), c), err })
			w.det("ToPEM"+n, func() ([]interface{}, error) { bs, err := pkcs12.ToPEM(der, p); return vals(bs), err })
		}
		w.det("DecodeAll, cut "+kn, func() ([]interface{}, error) {
			k, cs, err := pkcs12.DecodeAll(der[:len(der)-4], pw)
			return vals(privRec(k), cs), err
		})
		if sk, ok := key.(*sm2.PrivateKey); ok {
			file := filepath.Join(w.dir, "shared.p12")
			if err := os.WriteFile(file, der, 0600); err != nil {
				die(err)
			}
			w.det("SM2P12Decrypt", func() ([]interface{}, error) {
				c, k, err := pkcs12.SM2P12Decrypt(file, pw)
				return vals(c, privRec(k)), err
			})
			w.det("SM2P12Decrypt, wrong password", func() ([]interface{}, error) {
				c, k, err := pkcs12.SM2P12Decrypt(file, pw+"x")
				return vals(c, privRec(k)), err
			})
			w.yes("SM2P12Encrypt", func() (interface{}, error, bool) {
				f, err := os.CreateTemp(w.dir, "own")
				if err != nil {
					return nil, err, false
				}
				f.Close()
				defer os.Remove(f.Name())
				if err := pkcs12.SM2P12Encrypt(cert, pw, sk, f.Name()); err != nil {
					return nil, err, false
				}
				c, k, err := pkcs12.SM2P12Decrypt(f.Name(), pw)
				return vals(c, k), err, err == nil && c.Equal(cert) && digestOf(false, privRec(k)) == digestOf(false, privRec(key))
			})
		}
	}
	for i, l := range []int{5, 16} {
		l := l
		k := w.buf(fmt.Sprint("RC2 key ", i), rng.Bytes(l))
		b := w.buf(fmt.Sprint("RC2 block ", i), rng.Bytes(8))
		shared, err := pkcs12.New(k, 8*l)
		if err != nil {
			continue
		}
		w.det(fmt.Sprint("RC2 ", i), func() ([]interface{}, error) {
			c, err := pkcs12.New(k, 8*l)
			if err != nil {
				return nil, err
			}
			out := [4][8]byte{}
			c.Encrypt(out[0][:], b)
			c.Decrypt(out[1][:], b)
			shared.Encrypt(out[2][:], b)
			shared.Decrypt(out[3][:], b)
			return vals(out), nil
		})
		w.det(fmt.Sprint("RC2, wrong size ", i), func() ([]interface{}, error) { c, err := pkcs12.New(k, 4096); return vals(c == nil), err })
	}
}

// ---- running histories

type callScn struct {
	Case string `json:"case"`
	Ev   []struct {
		T int `json:"t"`
		E string
		O int `json:"o"`
	} `json:"ev"`
}

// fd is where everything written to the process's standard output and error goes
type catcher struct {
	f   *os.File
	off int64
}

func (c *catcher) text() string {
	st, err := c.f.Stat()
	if err != nil || st.Size() <= c.off {
		return ""
	}
	b := make([]byte, st.Size()-c.off)
	c.f.ReadAt(b, c.off)
	c.off = st.Size()
	return string(b)
}

func callsChild(c *Ctx) {
	// output of the code under test
	f, err := os.OpenFile(filepath.Join(c.Dir, "output"), os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND, 0600)
	if err != nil {
		die(err)
	}
	real, err := syscall.Dup(2)
	if err != nil {
		die(err)
	}
	if syscall.Dup2(int(f.Fd()), 1) != nil || syscall.Dup2(int(f.Fd()), 2) != nil {
		die("dup2")
	}
	defer syscall.Dup2(real, 2)
	caught := &catcher{f: f}
	var scn []callScn
	readJSON(c.In, &scn)
	w := newWorld(c.Rng, c.Dir)
	var names []string
	for n := range w.ops {
		names = append(names, n)
	}
	sort.Strings(names)
	run := func(name string) (out string, keep interface{}) {
		p := call(func() { out, keep = w.ops[name]() })
		if p != "" {
			return p, nil
		}
		return out, keep
	}
	// each operation alone, twice
	out0 := caught.text()
	before := w.look()
	alone := map[string]string{}
	c.Out.Put(M{"op": "begin", "case": "setting up", "output": out0, "names": w.names, "ops": len(names)})
	// with "few", only the operations the histories need
	todo := names
	few := os.Getenv("VERIF_FEW") != ""
	if few {
		used := map[string]bool{}
		todo = nil
		for _, s := range scn {
			for _, e := range s.Ev {
				if n := names[e.O%len(names)]; !used[n] {
					used[n] = true
					todo = append(todo, n)
				}
			}
		}
	}
	for len(todo) > len(alone) {
		group := todo[len(alone):]
		if len(group) > 12 {
			group = group[:12]
		}
		var es []M
		var vs []interface{}
		for _, n := range group {
			a, v := run(n)
			was := digestOf(false, v)
			b := a
			if !few {
				b, _ = run(n)
			}
			es, vs = append(es, M{"op": "alone", "case": n, "out": a, "again": b, "changed": []string{}, "kept": true, "was": was, "output": caught.text()}), append(vs, v)
			alone[n] = a
		}
		for i, e := range es {
			e["kept"] = e["was"] == digestOf(false, vs[i])
		}
		now := w.look()
		if ch := changed(w.names, before, now); len(ch) > 0 {
			es = append(es, M{"op": "alone", "case": "one of: " + strings.Join(group, "; "), "out": "", "again": "", "changed": ch, "kept": true, "was": "", "output": ""})
			before = now
		}
		for _, e := range es {
			c.Out.Put(e)
		}
	}
	if !few {
		w.own(c, names, run, alone, caught)
	}
	for h, s := range scn {
		cells := w.look()
		var evs []M
		type pend struct {
			name string
			done chan struct{}
			out  string
			keep interface{}
		}
		ps := map[int]*pend{}
		var held []kept
		for _, e := range s.Ev {
			switch e.E {
			case "begin":
				p := &pend{name: names[e.O%len(names)], done: make(chan struct{})}
				ps[e.T] = p
				evs = append(evs, M{"e": "begin", "t": e.T, "o": e.O, "name": p.name, "out": "", "alone": ""})
				go func() {
					p.out, p.keep = run(p.name)
					close(p.done)
				}()
			case "end":
				p := ps[e.T]
				<-p.done
				evs = append(evs, M{"e": "end", "t": e.T, "o": e.O, "name": p.name, "out": p.out, "alone": alone[p.name]})
				held = append(held, kept{who: p.name, v: p.keep, was: digestOf(false, p.keep)})
			}
		}
		after := w.look()
		var lost []string
		for _, k := range held {
			if digestOf(false, k.v) != k.was {
				lost = append(lost, k.who)
			}
		}
		if lost == nil {
			lost = []string{}
		}
		c.Out.Put(M{"op": "history", "case": s.Case, "h": h, "ev": evs, "before": cells, "after": after, "changed": changed(w.names, cells, after), "lost": lost, "output": caught.text()})
	}
}

// own: what a call returned is its caller's, to change as it likes (unless it shares the octets it was parsed from)
func (w *world) own(c *Ctx, names []string, run func(string) (string, interface{}), alone map[string]string, caught *catcher) {
	before := w.look()
	var es []M
	for _, n := range names {
		_, v := run(n)
		scribble(v)
		aliased := len(changed(w.names, before, w.look())) > 0
		e := M{"op": "own", "case": n, "alone": alone[n], "out": "", "later": "", "aliased": aliased, "changed": []string{}, "output": ""}
		if aliased {
			scribble(v)
			e["changed"] = changed(w.names, before, w.look())
		}
		e["out"], _ = run(n)
		e["output"] = caught.text()
		es = append(es, e)
	}
	for i, n := range names {
		es[i]["later"], _ = run(n)
		c.Out.Put(es[i])
	}
}

func changed(names, a, b []string) []string {
	out := []string{}
	for i := range names {
		if a[i] != b[i] {
			out = append(out, names[i])
		}
	}
	return out
}

// callsParent runs the histories in a process of their own: its end, its output and the race detector's reports are part of the record
func callsParent(c *Ctx) {
	dir := filepath.Join(c.Dir, fmt.Sprintf("calls-%d", os.Getpid()))
	if err := os.MkdirAll(dir, 0700); err != nil {
		die(err)
	}
	trace := filepath.Join(dir, "trace")
	tier := "quick"
	if !c.Quick {
		tier = "thorough"
	}
	cmd := exec.Command(os.Args[0], "callschild", "-out", trace, "-in", c.In, "-seed", fmt.Sprint(c.Seed), "-tier", tier, "-dir", dir)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	var mu sync.Mutex
	timer := time.AfterFunc(10*time.Minute, func() { mu.Lock(); defer mu.Unlock(); cmd.Process.Kill() })
	err := cmd.Run()
	timer.Stop()
	late, _ := os.ReadFile(filepath.Join(dir, "output"))
	if said := se.String() + string(late); cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 3 && strings.Contains(said, "driver:") {
		die(said)
	}
	races := raceReports(filepath.Join(dir, "race.*"))
	out := so.String() + se.String()
	if err != nil && len(late) > 0 {
		out += string(late)
	}
	c.Out.Put(M{"op": "process", "case": "the process", "died": es(err), "output": clipText(out), "races": races})
	b, _ := os.ReadFile(trace)
	n := 0
	for _, line := range bytes.Split(b, []byte("\n")) {
		if json.Valid(line) {
			c.Out.Put(json.RawMessage(line))
			n++
		}
	}
	os.RemoveAll(dir)
}

func clipText(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return strings.ToValidUTF8(s, "?")
}

// raceReports are the race detector's reports in the files named
func raceReports(pattern string) []string {
	races := []string{}
	logs, _ := filepath.Glob(pattern)
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, r := range strings.Split(string(b), "==================") {
			if strings.Contains(r, "DATA RACE") {
				races = append(races, raceText(r))
			}
		}
	}
	return races
}

// raceText keeps the functions of a report
func raceText(r string) string {
	var out []string
	for _, l := range strings.Split(r, "\n") {
		if strings.Contains(l, "mcrypto") && strings.Contains(l, "(") && !strings.HasPrefix(strings.TrimSpace(l), "/") {
			out = append(out, strings.TrimSpace(l))
		} else if strings.Contains(l, " by ") {
			out = append(out, strings.TrimSpace(strings.Split(l, " at ")[0]))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "; ")
}

var _ = io.EOF
var _ = elliptic.P256
var _ ecdsa.PublicKey
