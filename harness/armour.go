package main

import (
	"crypto/x509/pkix"
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/mmdet/mcrypto/x509"
)

func init() { drivers["armour"] = armour }

// lines of base64 of a width
func base64Lines(b []byte, width int) (out []string) {
	s := base64.StdEncoding.EncodeToString(b)
	for len(s) > width {
		out = append(out, s[:width])
		s = s[width:]
	}
	return append(out, s)
}

// armour reads revocation lists from texts designed line by line
func armour(c *Ctx) {
	var scn []struct {
		Lines []string `json:"lines"`
	}
	readJSON(c.In, &scn)
	keys := newKeyring(c.Rng)
	at := time.Unix(1600000000, 0)
	var lists [][]byte
	for i := 0; i < 3; i++ {
		t := &x509.RevocationList{Number: big.NewInt(int64(i)), ThisUpdate: at, NextUpdate: at.Add(time.Hour)}
		for j := 0; j < i; j++ {
			t.RevokedCertificates = append(t.RevokedCertificates, pkix.RevokedCertificate{SerialNumber: big.NewInt(int64(100*i + j)), RevocationTime: at})
		}
		issuer := &x509.Certificate{Subject: pkix.Name{CommonName: "parent" + strings.Repeat("x", i)}, SubjectKeyId: []byte{1, 2, 3}, KeyUsage: x509.KeyUsageCRLSign}
		der, err := x509.CreateRevocationList(c.Rng, t, issuer, &signer{key: keys["sm2"], mode: "ok", rng: c.Rng})
		if err != nil {
			die(err)
		}
		lists = append(lists, der)
	}
	cert := fixtures("cert-")[0].data
	line := map[string]string{
		"begin": "-----BEGIN X509 CRL-----", "beginreq": "-----BEGIN X509 CRL REQUEST-----", "begincert": "-----BEGIN CERTIFICATE-----",
		"beginlower": "-----BEGIN x509 crl-----", "beginlonger": "-----BEGIN X509 CRLS-----", "begintrusted": "-----BEGIN TRUSTED X509 CRL-----",
		"beginspace": "-----BEGIN X509 CRL -----", "beginempty": "-----BEGIN -----", "indented": " -----BEGIN X509 CRL-----",
		"end": "-----END X509 CRL-----", "endreq": "-----END X509 CRL REQUEST-----", "endcert": "-----END CERTIFICATE-----", "endlower": "-----END x509 crl-----",
		"endlonger": "-----END X509 CRLS-----", "endtrusted": "-----END TRUSTED X509 CRL-----", "endspace": "-----END X509 CRL -----", "endempty": "-----END -----",
		"bad": "no base64, this", "pad": "====", "blank": "", "space": " \t", "junk": "# a list", "header": "Proc-Type: 4,ENCRYPTED",
	}
	widths := []int{64, 76, 4, 60, 1000, 1, 63}
	rngs := make([]*Rng, len(scn)*3)
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	put(c, len(rngs), func(i int) M {
		s, rng := scn[i/3], rngs[i]
		width, eol, last := 64, "\n", true
		if i%3 == 1 {
			width = widths[rng.Intn(len(widths))]
		} else if i%3 == 2 {
			eol, last = []string{"\r\n", "\n", " \n"}[rng.Intn(3)], rng.Intn(2) == 0
		}
		k := rng.Intn(len(lists))
		der := lists[k]
		var ls []string
		for _, t := range s.Lines {
			switch t {
			case "body":
				ls = append(ls, base64Lines(der, width)...)
			case "other":
				ls = append(ls, base64Lines(lists[(k+1)%len(lists)], width)...)
			case "cert":
				ls = append(ls, base64Lines(cert, width)...)
			case "short":
				ls = append(ls, base64Lines(der[:len(der)-3], width)...)
			case "trailing":
				ls = append(ls, base64Lines(append(clone(der), 0), width)...)
			case "der":
				ls = append(ls, string(der))
			default:
				x, ok := line[t]
				if !ok {
					die("no such line: " + t)
				}
				ls = append(ls, x)
			}
		}
		text := strings.Join(ls, eol)
		if last {
			text += eol
		}
		in := []byte(text)
		e := M{"op": "crlpem", "case": fmt.Sprintf("text of %v, width %d, ends %+q %v", s.Lines, width, eol, last), "der": B(clone(in))}
		var l *pkix.CertificateList
		var err error
		e["panic"] = call(func() { l, err = x509.ParseCRL(in) })
		e["got"], e["seen"], e["err"] = l != nil, crlSeen(l), es(err)
		return e
	})
}
