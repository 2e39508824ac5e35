package main

// The first uses of the packages in a process, at once (FirstGen): each history is run by a process of its own that has made no
// call before. What the calls work on is prepared by another.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	drivers["cold"] = cold
	drivers["coldchild"] = coldChild
}

// coldStuff is what the calls work on, as octets
type coldStuff struct {
	D, Msg, Sig, DigSig, Cipher, Pkcs8, Spki, Cert, Csr, Crl, P7, P12 []byte
}

type coldScn struct{ Ops []int }

func coldKey(m *coldStuff) *sm2.PrivateKey {
	d := new(big.Int).SetBytes(m.D)
	k := &sm2.PrivateKey{D: d}
	k.Curve = sm2.SM2P256V1()
	q := pmul(d, ecG)
	k.X, k.Y = q.x, q.y
	return k
}

// operations whose outcomes are determined by what they work on
var coldOps = []struct {
	name string
	f    func(m *coldStuff) string
}{
	{"curve", func(m *coldStuff) string {
		c := sm2.SM2P256V1()
		p := c.Params()
		return fmt.Sprint(p.P, p.N, p.B, p.Gx, p.Gy, p.BitSize, p.Name, c.A, c == sm2.SM2P256V1(), c.IsOnCurve(p.Gx, p.Gy))
	}},
	{"ScalarBaseMult", func(m *coldStuff) string { x, y := sm2.SM2P256V1().ScalarBaseMult(m.D); return fmt.Sprint(x, y) }},
	{"sm3.Sum", func(m *coldStuff) string { return fmt.Sprintf("%x", sm3.Sum(m.Msg)) }},
	{"registered hash", func(m *coldStuff) string {
		h := x509.SM3.New()
		h.Write(m.Msg)
		return fmt.Sprintf("%x %v %d %s", h.Sum(nil), x509.SM3.Available(), x509.SM3.Size(), x509.SM3.String())
	}},
	{"GenerateKey", func(m *coldStuff) string {
		k, err := sm2.GenerateKey(NewRng(5))
		return fmt.Sprint(es(err), err == nil && on(k.X, k.Y))
	}},
	{"SM3Digest", func(m *coldStuff) string {
		d, err := coldKey(m).SM3Digest(m.Msg, nil)
		return fmt.Sprintf("%x %v", d, err)
	}},
	{"Sign", func(m *coldStuff) string {
		k := coldKey(m)
		s, err := sm2.Sign(NewRng(6), k, m.Msg, nil)
		return fmt.Sprint(es(err), sm2.Verify(&k.PublicKey, m.Msg, nil, s))
	}},
	{"SignDigest", func(m *coldStuff) string {
		k := coldKey(m)
		s, err := sm2.SignDigest(NewRng(6), k, m.Msg[:32])
		return fmt.Sprint(es(err), sm2.VerifyDigest(&k.PublicKey, m.Msg[:32], s))
	}},
	{"Verify", func(m *coldStuff) string { return fmt.Sprint(sm2.Verify(&coldKey(m).PublicKey, m.Msg, nil, m.Sig)) }},
	{"VerifyDigest", func(m *coldStuff) string {
		return fmt.Sprint(sm2.VerifyDigest(&coldKey(m).PublicKey, m.Msg[:32], m.DigSig))
	}},
	{"Encryt", func(m *coldStuff) string {
		k := coldKey(m)
		c, err := sm2.Encryt(NewRng(6), &k.PublicKey, m.Msg)
		b, e := sm2.Decryt(k, c)
		return fmt.Sprint(es(err), es(e), bytes.Equal(b, m.Msg))
	}},
	{"Decryt", func(m *coldStuff) string {
		b, err := sm2.Decryt(coldKey(m), m.Cipher)
		return fmt.Sprintf("%x %v", b, err)
	}},
	{"ParsePKCS8PrivateKey", func(m *coldStuff) string {
		k, err := x509.ParsePKCS8PrivateKey(m.Pkcs8)
		return fmt.Sprint(digestOf(false, privRec(k)), es(err))
	}},
	{"ParsePKIXPublicKey", func(m *coldStuff) string {
		k, err := x509.ParsePKIXPublicKey(m.Spki)
		return fmt.Sprint(digestOf(false, pubRec(k)), es(err))
	}},
	{"MarshalPKCS8PrivateKey", func(m *coldStuff) string {
		b, err := x509.MarshalPKCS8PrivateKey(coldKey(m))
		return fmt.Sprintf("%x %v", b, err)
	}},
	{"ParseCertificate", func(m *coldStuff) string {
		c, err := x509.ParseCertificate(m.Cert)
		if err != nil {
			return es(err)
		}
		return fmt.Sprint(digestOf(false, c), es(c.CheckSignatureFrom(c)), es(c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature)))
	}},
	{"CreateCertificate", func(m *coldStuff) string {
		s := &signer{key: coldKey(m), mode: "ok", rng: NewRng(4)}
		t := coldTemplate()
		der, err := x509.CreateCertificate(NewRng(4), t, t, s.Public(), s)
		if err != nil {
			return es(err)
		}
		c, err := x509.ParseCertificate(der)
		if err != nil {
			return es(err)
		}
		return fmt.Sprintf("%x %s", c.RawTBSCertificate, es(c.CheckSignatureFrom(c)))
	}},
	{"ParseCertificateRequest", func(m *coldStuff) string {
		c, err := x509.ParseCertificateRequest(m.Csr)
		if err != nil {
			return es(err)
		}
		return digestOf(false, c) + es(c.CheckSignature())
	}},
	{"ParseCRL", func(m *coldStuff) string {
		l, err := x509.ParseCRL(m.Crl)
		if err != nil {
			return es(err)
		}
		c, err := x509.ParseCertificate(m.Cert)
		if err != nil {
			return es(err)
		}
		return digestOf(false, l) + es(c.CheckCRLSignature(l))
	}},
	{"ParsePKCS7", func(m *coldStuff) string {
		p, err := x509.ParsePKCS7(m.P7)
		if err != nil {
			return es(err)
		}
		return fmt.Sprintf("%x %s", p.Content, es(p.Verify()))
	}},
	{"NewSignedData", func(m *coldStuff) string {
		c, err := x509.ParseCertificate(m.Cert)
		if err != nil {
			return es(err)
		}
		der, err := x509.NewSignedData(c, coldKey(m), m.Msg)
		if err != nil {
			return es(err)
		}
		p, err := x509.ParsePKCS7(der)
		if err != nil {
			return es(err)
		}
		return fmt.Sprintf("%x %s", p.Content, es(p.Verify()))
	}},
	{"DecodeAll", func(m *coldStuff) string {
		k, cs, err := pkcs12.DecodeAll(m.P12, "pass")
		return fmt.Sprint(digestOf(false, privRec(k)), len(cs), es(err))
	}},
	{"Encode", func(m *coldStuff) string {
		c, err := x509.ParseCertificate(m.Cert)
		if err != nil {
			return es(err)
		}
		der, err := pkcs12.Encode(coldKey(m), c, nil, "pass")
		if err != nil {
			return es(err)
		}
		k, cs, err := pkcs12.DecodeAll(der, "pass")
		return fmt.Sprint(digestOf(false, privRec(k)), len(cs), es(err))
	}},
	{"RC2", func(m *coldStuff) string {
		c, err := pkcs12.New(m.Msg[:5], 40)
		if err != nil {
			return es(err)
		}
		var a, b [8]byte
		c.Encrypt(a[:], m.Msg[8:16])
		c.Decrypt(b[:], a[:])
		return fmt.Sprintf("%x %x", a, b)
	}},
}

func coldTemplate() *x509.Certificate {
	t := &x509.Certificate{SerialNumber: big.NewInt(77), NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1900000000, 0), KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign,
		BasicConstraintsValid: true, IsCA: true, SubjectKeyId: []byte{1, 2, 3}, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}, DNSNames: []string{"a.example.com"}}
	t.Subject.CommonName, t.SignatureAlgorithm = "cold", x509.SM2WithSM3
	return t
}

func newColdStuff(c *Ctx) *coldStuff {
	r := c.Rng
	m := &coldStuff{D: b32(r.BigIn(big1, nm2)), Msg: r.Bytes(100)}
	need := func(err error) {
		if err != nil {
			die(err)
		}
	}
	k := coldKey(m)
	var err error
	p := call(func() {
		m.Sig, err = sm2.Sign(r, k, m.Msg, nil)
		need(err)
		m.DigSig, err = sm2.SignDigest(r, k, m.Msg[:32])
		need(err)
		m.Cipher, err = sm2.Encryt(r, &k.PublicKey, m.Msg)
		need(err)
		m.Pkcs8, err = x509.MarshalPKCS8PrivateKey(k)
		need(err)
		m.Spki, err = x509.MarshalPKIXPublicKey(&k.PublicKey)
		need(err)
		s := &signer{key: k, mode: "ok", rng: r}
		t := coldTemplate()
		m.Cert, err = x509.CreateCertificate(r, t, t, s.Public(), s)
		need(err)
		cert, err := x509.ParseCertificate(m.Cert)
		need(err)
		m.Csr, err = x509.CreateCertificateRequest(r, &x509.CertificateRequest{Subject: t.Subject, SignatureAlgorithm: x509.SM2WithSM3, DNSNames: t.DNSNames}, s)
		need(err)
		m.Crl, err = x509.CreateRevocationList(r, &x509.RevocationList{SignatureAlgorithm: x509.SM2WithSM3, Number: big1, ThisUpdate: t.NotBefore, NextUpdate: t.NotAfter}, cert, s)
		need(err)
		m.P7, err = x509.NewSignedData(cert, k, m.Msg)
		need(err)
		m.P12, err = pkcs12.Encode(k, cert, nil, "pass")
		need(err)
	})
	if p != "" {
		die(p)
	}
	return m
}

// coldChild makes the calls VERIF_COLD lists (positions counted from 1), all at once
func coldChild(c *Ctx) {
	var m coldStuff
	readJSON(c.In, &m)
	var ops []int
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_COLD")), &ops); err != nil {
		die(err)
	}
	out := make([]string, len(ops))
	start := make(chan struct{})
	var wg, ready sync.WaitGroup
	for i, o := range ops {
		i, o := i, o
		wg.Add(1)
		ready.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			<-start
			p := call(func() { out[i] = coldOps[(o-1)%len(coldOps)].f(&m) })
			if p != "" {
				out[i] = p
			}
		}()
	}
	ready.Wait()
	close(start)
	wg.Wait()
	c.Out.Put(out)
}

func cold(c *Ctx) {
	dir := filepath.Join(c.Dir, fmt.Sprintf("cold-%d", os.Getpid()))
	if err := os.MkdirAll(dir, 0700); err != nil {
		die(err)
	}
	defer os.RemoveAll(dir)
	stuff := filepath.Join(dir, "stuff")
	b, err := json.Marshal(newColdStuff(c))
	if err != nil {
		die(err)
	}
	if err := os.WriteFile(stuff, b, 0600); err != nil {
		die(err)
	}
	type result struct {
		out   []string
		said  string
		died  string
		races []string
	}
	run := func(name string, ops []int) (r result) {
		trace := filepath.Join(dir, name)
		cmd := exec.Command(os.Args[0], "coldchild", "-out", trace, "-in", stuff, "-dir", dir)
		list, _ := json.Marshal(ops)
		cmd.Env = append(os.Environ(), "VERIF_COLD="+string(list), "GORACE=halt_on_error=0 exitcode=0 log_path="+trace+".race")
		var so bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &so
		timer := time.AfterFunc(2*time.Minute, func() { cmd.Process.Kill() })
		err := cmd.Run()
		timer.Stop()
		r.died, r.said, r.races = es(err), clipText(so.String()), raceReports(trace+".race.*")
		if b, err := os.ReadFile(trace); err == nil {
			json.Unmarshal(bytes.TrimSpace(b), &r.out)
		}
		if len(r.out) != len(ops) && r.died == "" {
			die("no results: " + r.said)
		}
		return
	}
	alone := make([]string, len(coldOps))
	parallel(len(coldOps), func(i int) {
		if r := run(fmt.Sprint("alone", i), []int{i + 1}); len(r.out) == 1 {
			alone[i] = r.out[0]
		} else {
			alone[i] = "died: " + r.died
		}
	})
	var scn []coldScn
	readJSON(c.In, &scn)
	if c.Quick { // every operation with itself, and a third of the pairs
		var few []coldScn
		for _, s := range scn {
			if s.Ops[0] == s.Ops[1] || c.Rng.Intn(3) == 0 {
				few = append(few, s)
			}
		}
		scn = few
	}
	put(c, len(scn), func(i int) M {
		ops := scn[i].Ops
		r := run(fmt.Sprint("h", i), ops)
		what := coldOps[(ops[0]-1)%len(coldOps)].name + " and " + coldOps[(ops[1]-1)%len(coldOps)].name + " first of all"
		if r.died != "" || len(r.races) > 0 {
			return M{"op": "process", "case": what, "died": r.died, "output": r.said, "races": r.races}
		}
		var ev []M
		for _, e := range []string{"begin", "end"} {
			for t, o := range ops {
				x := M{"e": e, "t": t + 1, "o": o, "name": coldOps[(o-1)%len(coldOps)].name, "out": "", "alone": ""}
				if e == "end" {
					x["out"], x["alone"] = r.out[t], alone[(o-1)%len(coldOps)]
				}
				ev = append(ev, x)
			}
		}
		none := []string{}
		return M{"op": "history", "case": what, "h": i, "ev": ev, "before": none, "after": none, "changed": none, "lost": none, "output": r.said}
	})
}
