package main

import (
	"crypto/x509/pkix"
	"embed"
	"encoding/pem"
	"fmt"
	"sort"
	"strings"

	"github.com/mmdet/mcrypto/x509"
)

func init() {
	drivers["certdocs"] = certDocs
	drivers["certalter"] = certAlter
}

//go:embed fixtures
var fixtureFS embed.FS

type fixture struct {
	name string
	data []byte
}

// fixtures made by other implementations, by the beginning of their names
func fixtures(prefix string) []fixture {
	es, err := fixtureFS.ReadDir("fixtures")
	if err != nil {
		die(err)
	}
	var out []fixture
	for _, e := range es {
		if strings.HasPrefix(e.Name(), prefix) {
			d, err := fixtureFS.ReadFile("fixtures/" + e.Name())
			if err != nil {
				die(err)
			}
			out = append(out, fixture{e.Name(), d})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

type docScn struct {
	Fam  string `json:"fam"`
	Der  B      `json:"der"`
	Case string `json:"case"`
}

func docEvent(fam string, der []byte, cs string) M {
	e := M{"op": fam + "parse", "case": cs, "der": B(der)}
	var err error
	var trouble string
	in := clone(der)
	switch fam {
	case "cert":
		var c *x509.Certificate
		trouble = call(func() { c, err = x509.ParseCertificate(in) })
		e["got"], e["seen"], e["raw"] = c != nil, certSeen(c), B{}
		if c != nil {
			e["raw"] = B(c.Raw)
		}
	case "csr":
		var c *x509.CertificateRequest
		trouble = call(func() { c, err = x509.ParseCertificateRequest(in) })
		e["got"], e["seen"], e["raw"] = c != nil, csrSeen(c), B{}
		if c != nil {
			e["raw"] = B(c.Raw)
		}
	case "crl":
		var c *pkix.CertificateList
		if strings.HasSuffix(cs, " pem") {
			in = pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: in})
			trouble = call(func() { c, err = x509.ParseCRL(in) })
		} else if strings.HasSuffix(cs, " der") {
			trouble = call(func() { c, err = x509.ParseDERCRL(in) })
		} else {
			trouble = call(func() { c, err = x509.ParseCRL(in) })
		}
		e["got"], e["seen"] = c != nil, crlSeen(c)
	}
	e["err"], e["panic"] = es(err), trouble
	return e
}

func certDocs(c *Ctx) {
	var scn []docScn
	readJSON(c.In, &scn)
	n := len(scn)
	for i := 0; i < n; i++ {
		if scn[i].Fam == "crl" && (i%8 == 0 || !strings.Contains(scn[i].Case, "=")) {
			scn = append(scn, docScn{"crl", scn[i].Der, scn[i].Case + " pem"}, docScn{"crl", scn[i].Der, scn[i].Case + " der"})
		}
	}
	put(c, len(scn), func(i int) M { return docEvent(scn[i].Fam, scn[i].Der, scn[i].Case) })
	// several certificates in one
	var certs []B
	for _, s := range scn {
		if s.Fam == "cert" {
			certs = append(certs, s.Der)
		}
	}
	if len(certs) > 0 {
		for i := 0; i < 40; i++ {
			var ders []B
			for k := i % 5; k > 0; k-- {
				ders = append(ders, certs[c.Rng.Intn(len(certs))])
			}
			c.Out.Put(listEvent(ders, i%7 == 3, fmt.Sprint("list of ", len(ders))))
		}
		// the same one again, at once and later
		f := fixtures("cert-")
		for k, order := range [][]int{{0, 0}, {0, 1, 0}, {1, 1, 1}, {0, 1, 1}, {1, 0, 0, 1}, {0, 1, 2, 0, 1, 2}} {
			good := []B{}
			for _, j := range order {
				good = append(good, f[(j+k)%len(f)].data)
			}
			c.Out.Put(listEvent(good, false, fmt.Sprint("list with repetitions ", k)))
		}
		for k := 1; k <= 4; k++ {
			good := []B{}
			for _, f := range fixtures("cert-")[:k] {
				good = append(good, f.data)
			}
			c.Out.Put(listEvent(good, false, fmt.Sprint("list of ", k, " others")))
			c.Out.Put(listEvent(good, true, fmt.Sprint("list of ", k, " others and a bit")))
		}
	}
}
func listEvent(ders []B, junk bool, cs string) M {
	in := []byte{}
	for _, d := range ders {
		in = append(in, d...)
	}
	if junk {
		in = append(in, 0)
	}
	var cs1 []*x509.Certificate
	var err error
	keep := B(clone(in))
	trouble := call(func() { cs1, err = x509.ParseCertificates(in) })
	raws := []B{}
	for _, x := range cs1 {
		if x == nil {
			raws = append(raws, B{})
		} else {
			raws = append(raws, B(x.Raw))
		}
	}
	return M{"op": "certlist", "case": cs, "der": keep, "raws": raws, "err": es(err), "panic": trouble}
}

// put runs n events in parallel and writes them in order
func put(c *Ctx, n int, f func(i int) M) {
	out := make([]M, n)
	parallel(n, func(i int) { out[i] = f(i) })
	for _, e := range out {
		if e != nil {
			c.Out.Put(e)
		}
	}
}

// certAlter alters documents: created from the scenarios given, and other implementations'
func certAlter(c *Ctx) {
	var scn []certScn
	readJSON(c.In, &scn)
	keys := newKeyring(c.Rng)
	type base struct {
		fam, name string
		der       []byte
	}
	var bases []base
	rng := c.Rng.Fork()
	fam := ""
	for i := range scn {
		fam = scn[i].Fam
		e := certEvent(keys, &scn[i], rng)
		if e != nil && e["got"].(bool) {
			bases = append(bases, base{scn[i].Fam, "made", e["der"].(B)})
		}
	}
	for _, f := range fixtures(fam + "-") {
		bases = append(bases, base{fam, f.name, f.data})
	}
	per := 12
	if !c.Quick {
		per = 60
	}
	rngs := make([]*Rng, len(bases))
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	out := make([][]M, len(bases))
	parallel(len(bases), func(i int) {
		b := bases[i]
		out[i] = append(out[i], docEvent(b.fam, b.der, b.name))
		n := per
		if b.name != "made" {
			n *= 3
		}
		for k := 0; k < n; k++ {
			d, how := alter(rngs[i], b.der)
			if k%4 == 3 {
				d2, how2 := alter(rngs[i], d)
				d, how = d2, how+", "+how2
			}
			out[i] = append(out[i], docEvent(b.fam, d, b.name+": "+how))
			if b.fam == "cert" && k < 4 {
				out[i] = append(out[i], equalEvent(b.der, d, how))
			}
		}
		// what careless readers overlook: all of it for a few documents, some for the others
		max := 8
		if i < 3 || !c.Quick {
			max = 1000
		}
		docs, hows := someNear(rngs[i], b.der, max)
		for k, d := range docs {
			out[i] = append(out[i], docEvent(b.fam, d, b.name+": "+hows[k]))
		}
		if b.fam == "cert" {
			out[i] = append(out[i], equalEvent(b.der, clone(b.der), "itself"), equalEvent(b.der, bases[(i+1)%len(bases)].der, "another"),
				equalEvent(b.der, nil, "nil"))
		}
	})
	if fam == "cert" {
		out = append(out, []M{equalEvent(nil, nil, "nil")})
	}
	for _, es := range out {
		for _, e := range es {
			if e != nil {
				c.Out.Put(e)
			}
		}
	}
}

// equalEvent: whether two parsed certificates are equal (no octets: nil); nothing when one does not parse
func equalEvent(a, b []byte, label string) M {
	var ca, cb, cc *x509.Certificate
	parse := func(d []byte) (c *x509.Certificate) {
		if d != nil && call(func() { c, _ = x509.ParseCertificate(d) }) != "" {
			return nil
		}
		return c
	}
	ca, cb, cc = parse(clone2(a)), parse(clone2(b)), parse(clone2(a))
	if (ca == nil) != (a == nil) || (cb == nil) != (b == nil) || (cc == nil) != (ca == nil) {
		return nil
	}
	e := M{"op": "certequal", "case": label, "a": B(a), "b": B(b), "res": false, "back": false, "self": false}
	e["panic"] = call(func() {
		e["res"], e["back"], e["self"] = ca.Equal(cb), cb.Equal(ca), ca.Equal(ca) && ca.Equal(cc) && cc.Equal(ca)
	})
	return e
}

func clone2(b []byte) []byte {
	if b == nil {
		return nil
	}
	return clone(b)
}
