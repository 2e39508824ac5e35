package main

import (
	"bytes"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	stdx509 "crypto/x509"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	drivers["keymat"] = keyMat
	drivers["keyparse"] = keyParse
	drivers["keymarshal"] = keyMarshal
}

// ---- records of keys (spec/KeyFormats.tla, spec/PubKey.tla)

var stdCurves = []elliptic.Curve{elliptic.P224(), elliptic.P256(), elliptic.P384(), elliptic.P521()}

func curveName(c elliptic.Curve) string {
	for _, s := range stdCurves {
		if c == s {
			return s.Params().Name
		}
	}
	if c == elliptic.Curve(sm2.SM2P256V1()) {
		return "SM2"
	}
	return "?"
}

func pubRec(k interface{}) M {
	r := M{"kind": "none", "curve": "", "x": B{}, "y": B{}, "n": B{}, "e": B{}, "pt": B{}}
	switch k := k.(type) {
	case *rsa.PublicKey:
		if k != nil {
			r["kind"], r["n"], r["e"] = "rsa", N(k.N), N(big.NewInt(int64(k.E)))
		}
	case *ecdsa.PublicKey:
		if k != nil {
			r["kind"], r["curve"], r["x"], r["y"] = "ecdsa", curveName(k.Curve), N(k.X), N(k.Y)
		}
	case *sm2.PublicKey:
		if k != nil {
			r["kind"], r["curve"], r["x"], r["y"] = "sm2", curveName(k.Curve), N(k.X), N(k.Y)
		}
	case ed25519.PublicKey:
		if k != nil {
			r["kind"], r["pt"] = "ed25519", B(k)
		}
	case *dsa.PublicKey:
		if k == nil {
			break
		}
		r["kind"], r["n"], r["e"], r["x"], r["y"] = "dsa", N(k.P), N(k.Q), N(k.G), N(k.Y)
		for _, v := range []*big.Int{k.P, k.Q, k.G, k.Y} {
			if v == nil || v.Sign() <= 0 {
				r["kind"] = "dsa, not positive"
			}
		}
	case nil:
	default:
		r["kind"] = fmt.Sprintf("?%T", k)
	}
	return r
}

func privRec(k interface{}) M {
	r := M{"kind": "none", "curve": "", "d": B{}, "x": B{}, "y": B{}, "n": B{}, "e": B{}, "primes": []B{}, "pt": B{}}
	switch k := k.(type) {
	case *rsa.PrivateKey:
		if k != nil {
			ps := []B{}
			for _, p := range k.Primes {
				ps = append(ps, N(p))
			}
			r["kind"], r["n"], r["e"], r["d"], r["primes"] = "rsa", N(k.N), N(big.NewInt(int64(k.E))), N(k.D), ps
		}
	case *ecdsa.PrivateKey:
		if k != nil {
			r["kind"], r["curve"], r["d"], r["x"], r["y"] = "ecdsa", curveName(k.Curve), N(k.D), N(k.X), N(k.Y)
		}
	case *sm2.PrivateKey:
		if k != nil {
			r["kind"], r["curve"], r["d"], r["x"], r["y"] = "sm2", curveName(k.Curve), N(k.D), N(k.X), N(k.Y)
		}
	case ed25519.PrivateKey:
		if len(k) == 64 {
			r["kind"], r["d"], r["pt"] = "ed25519", B(k[:32]), B(k[32:])
		}
	case nil:
	default:
		r["kind"] = fmt.Sprintf("?%T", k)
	}
	return r
}

func isNil(v interface{}) bool {
	if v == nil {
		return true
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		return rv.IsNil()
	}
	return false
}

// ---- RSA keys from the run's randomness (crypto/rsa may ignore the reader it is given)

func randPrime(rng *Rng, bits int, e int64) *big.Int {
	one := big.NewInt(1)
	for {
		p := new(big.Int).SetBytes(rng.Bytes((bits + 7) / 8))
		p.Rsh(p, uint((8-bits%8)%8))
		p.SetBit(p, bits-1, 1)
		p.SetBit(p, bits-2, 1)
		p.SetBit(p, 0, 1)
		if !p.ProbablyPrime(10) {
			continue
		}
		g := new(big.Int).GCD(nil, nil, new(big.Int).Sub(p, one), big.NewInt(e))
		if g.Cmp(one) == 0 {
			return p
		}
	}
}

func rsaFrom(primes []*big.Int, e int64) *rsa.PrivateKey {
	n, phi := big.NewInt(1), big.NewInt(1)
	for _, p := range primes {
		n.Mul(n, p)
		phi.Mul(phi, new(big.Int).Sub(p, big.NewInt(1)))
	}
	d := new(big.Int).ModInverse(big.NewInt(e), phi)
	if d == nil {
		return nil
	}
	return &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: int(e)}, D: d, Primes: primes}
}

func newRSA(rng *Rng, bits, nprimes int, e int64) *rsa.PrivateKey {
	for {
		ps := []*big.Int{}
		for i := 0; i < nprimes; i++ {
			b := bits / nprimes
			if i == 0 {
				b += bits % nprimes
			}
			ps = append(ps, randPrime(rng, b, e))
		}
		k := rsaFrom(ps, e)
		if k != nil && k.N.BitLen() >= 1024 && ps[0].Cmp(ps[1]) != 0 {
			return k
		}
	}
}

func matRec(name string, k *rsa.PrivateKey, good bool) M {
	r := privRec(k)
	return M{"name": name, "n": r["n"], "e": r["e"], "d": r["d"], "primes": r["primes"], "good": good}
}

func keyMat(c *Ctx) {
	k := newRSA(c.Rng, 1024, 2, 65537)
	c.Out.Put(matRec("two", k, true))
	k3 := newRSA(c.Rng, 1100, 3, 3)
	c.Out.Put(matRec("three", k3, true))
	// inconsistent material
	bad := func(name string, n, d *big.Int, e int, ps ...*big.Int) {
		c.Out.Put(matRec(name, &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: e}, D: d, Primes: ps}, false))
	}
	p, q := k.Primes[0], k.Primes[1]
	one := big.NewInt(1)
	bad("d of another key", k.N, k3.D, k.E, p, q)
	bad("n of another key", k3.N, k.D, k.E, p, q)
	bad("p of another key", k.N, k.D, k.E, k3.Primes[0], q)
	bad("p=q", new(big.Int).Mul(p, p), k.D, k.E, p, p)
	bad("p=1", k.N, k.D, k.E, one, k.N)
	bad("p=n, q=1", k.N, k.D, k.E, k.N, one)
	bad("three primes, d wrong", k3.N, k.D, 3, k3.Primes...)
	bad("three primes, n wrong", new(big.Int).Add(k3.N, big.NewInt(2)), k3.D, 3, k3.Primes...)
	bad("three primes, one repeated", k3.N, k3.D, 3, k3.Primes[0], k3.Primes[1], k3.Primes[1])
	bad("two of three primes", k3.N, k3.D, 3, k3.Primes[0], k3.Primes[1])
	bad("third prime 1", k.N, k.D, k.E, p, q, one)
	// 3p instead of p with exponents that fit 3p-1 and q-1
	for e := int64(65537); e < 66000; e += 2 {
		p3 := new(big.Int).Mul(p, big.NewInt(3))
		m1, m2 := new(big.Int).Sub(p3, one), new(big.Int).Sub(q, one)
		g := new(big.Int).GCD(nil, nil, m1, m2)
		l := new(big.Int).Div(new(big.Int).Mul(m1, m2), g)
		if d := new(big.Int).ModInverse(big.NewInt(e), l); d != nil {
			bad("3p", k.N, d, int(e), p3, q)
			break
		}
	}
	// d differing from a right one by a multiple of lcm(p-1, q-1) is consistent
	m1, m2 := new(big.Int).Sub(p, one), new(big.Int).Sub(q, one)
	l := new(big.Int).Div(new(big.Int).Mul(m1, m2), new(big.Int).GCD(nil, nil, m1, m2))
	bad("d + lcm", k.N, new(big.Int).Add(k.D, l), k.E, p, q)
	bad("d + 1", k.N, new(big.Int).Add(k.D, one), k.E, p, q)
	bad("d fits p only", k.N, new(big.Int).Add(k.D, m1), k.E, p, q)
}

// ---- parsing

type keyScn struct {
	Fmt  string `json:"fmt"`
	Der  B      `json:"der"`
	Case string `json:"case"`
}

var keyFmts = []string{"pkcs8", "sec1", "pkcs1", "pkix", "pkcs1pub"}

func parseKey(fm string, der []byte) (key interface{}, err error, panic string) {
	panic = call(func() {
		switch fm {
		case "pkcs8":
			key, err = x509.ParsePKCS8PrivateKey(der)
		case "sec1":
			key, err = x509.ParseECPrivateKey(der)
		case "pkcs1":
			key, err = x509.ParsePKCS1PrivateKey(der)
		case "pkix":
			key, err = x509.ParsePKIXPublicKey(der)
		case "pkcs1pub":
			key, err = x509.ParsePKCS1PublicKey(der)
		}
	})
	return
}

func keyRecOf(fm string, k interface{}) M {
	if fm == "pkix" || fm == "pkcs1pub" {
		return pubRec(k)
	}
	return privRec(k)
}

func parseEvent(fm string, der []byte, cs string) M {
	in := clone(der)
	k, err, p := parseKey(fm, in)
	if p == "" && !bytes.Equal(in, der) {
		p = "input changed"
	}
	return M{"op": "parse", "case": cs, "fmt": fm, "der": B(der), "panic": p, "err": es(err), "got": !isNil(k), "key": keyRecOf(fm, k)}
}

func keyParse(c *Ctx) {
	var scn []keyScn
	readJSON(c.In, &scn)
	var evs []keyScn
	base := map[string][]keyScn{}
	for _, s := range scn {
		evs = append(evs, s)
		if len(s.Case) < 5 && len(bytes.Fields([]byte(s.Case))) == 1 {
			base[s.Fmt] = append(base[s.Fmt], s)
		}
	}
	if c.Quick {
		// all single deviations, a sample of the others
		keep := evs[:0]
		for _, s := range evs {
			if bytes.Count([]byte(s.Case), []byte("=")) <= 1 || c.Rng.Intn(100) < 70 {
				keep = append(keep, s)
			}
		}
		evs = keep
	}
	rng := c.Rng
	for _, fm := range keyFmts {
		for _, s := range base[fm] {
			// every format's parser on every format's document
			for _, other := range keyFmts {
				if other != fm {
					evs = append(evs, keyScn{other, s.Der, "as " + other + ": " + s.Case})
				}
			}
			// altered octets, truncations, insertions
			n := len(s.Der)
			add := func(d []byte, w string) { evs = append(evs, keyScn{fm, d, w + ": " + s.Case}) }
			step := 1
			if c.Quick {
				step = 1 + n/40
			}
			for i := rng.Intn(step); i < n; i += step {
				for _, x := range []byte{1, 0x80, 0xff, byte(1 + rng.Intn(255))} {
					if c.Quick && x != 1 && rng.Intn(3) > 0 {
						continue
					}
					d := clone(s.Der)
					d[i] ^= x
					add(d, fmt.Sprintf("octet %d xor %d", i, x))
				}
			}
			for i := 0; i < n; i += 1 + rng.Intn(2*step) {
				add(clone(s.Der[:i]), fmt.Sprintf("cut at %d", i))
			}
			for i := 0; i < 6; i++ {
				at := rng.Intn(n)
				add(append(append(clone(s.Der[:at]), byte(rng.Intn(256))), s.Der[at:]...), fmt.Sprintf("octet inserted at %d", at))
				if n > 2 {
					add(append(clone(s.Der[:at]), s.Der[at+1:]...), fmt.Sprintf("octet %d dropped", at))
				}
			}
			add(append(clone(s.Der), byte(rng.Intn(256))), "octet appended")
			max := 60
			if !c.Quick {
				max = 1000
			}
			ds, hows := someNear(rng, s.Der, max)
			for i, d := range ds {
				add(d, hows[i])
			}
		}
	}
	// noise
	for i := 0; i < 60; i++ {
		for _, fm := range keyFmts {
			d := rng.Bytes(rng.Intn(60))
			if len(d) > 2 && rng.Intn(2) == 0 {
				d[0], d[1] = 48, byte(len(d)-2)
			}
			evs = append(evs, keyScn{fm, d, "noise"})
		}
	}
	out := make([]M, len(evs))
	parallel(len(evs), func(i int) { out[i] = parseEvent(evs[i].Fmt, evs[i].Der, evs[i].Case) })
	for _, e := range out {
		c.Out.Put(e)
	}
}

// ---- marshalling

func ecPriv(c elliptic.Curve, d *big.Int) interface{} {
	x, y := c.ScalarBaseMult(d.Bytes())
	if curveName(c) == "SM2" {
		return &sm2.PrivateKey{PublicKey: sm2.PublicKey{Curve: c, X: x, Y: y}, D: d}
	}
	return &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: c, X: x, Y: y}, D: d}
}

func pubOf(k interface{}) interface{} {
	switch k := k.(type) {
	case *rsa.PrivateKey:
		return &k.PublicKey
	case *ecdsa.PrivateKey:
		return &k.PublicKey
	case *sm2.PrivateKey:
		return &k.PublicKey
	case ed25519.PrivateKey:
		return k.Public()
	case *dsa.PrivateKey:
		return &k.PublicKey
	}
	return nil
}

func marshalKey(fm string, k interface{}) (out []byte, err error, panic string) {
	panic = call(func() {
		switch fm {
		case "pkcs8":
			out, err = x509.MarshalPKCS8PrivateKey(k)
		case "sec1":
			out, err = x509.MarshalECPrivateKey(k.(*ecdsa.PrivateKey))
		case "pkcs1":
			out = x509.MarshalPKCS1PrivateKey(k.(*rsa.PrivateKey))
		case "pkix":
			out, err = x509.MarshalPKIXPublicKey(k)
		case "pkcs1pub":
			out = x509.MarshalPKCS1PublicKey(k.(*rsa.PublicKey))
		}
	})
	return
}

// what the standard library makes of the document ("" if it agrees)
func stdReads(fm string, der []byte, key interface{}) string {
	var k interface{}
	var err error
	switch key.(type) {
	case *sm2.PrivateKey, *sm2.PublicKey:
		return ""
	}
	switch fm {
	case "pkcs8":
		k, err = stdx509.ParsePKCS8PrivateKey(der)
	case "sec1":
		k, err = stdx509.ParseECPrivateKey(der)
	case "pkcs1":
		k, err = stdx509.ParsePKCS1PrivateKey(der)
	case "pkix":
		k, err = stdx509.ParsePKIXPublicKey(der)
	case "pkcs1pub":
		k, err = stdx509.ParsePKCS1PublicKey(der)
	}
	if err != nil {
		return "standard library: " + err.Error()
	}
	if fmt.Sprint(keyRecOf(fm, k)) != fmt.Sprint(keyRecOf(fm, key)) {
		return "standard library: another key"
	}
	return ""
}

// openssl reads the private key and derives the same SubjectPublicKeyInfo
func opensslReads(dir string, id int, der []byte, key interface{}) string {
	if _, err := exec.LookPath("openssl"); err != nil {
		return ""
	}
	f := filepath.Join(dir, fmt.Sprintf("k%d.der", id))
	defer os.Remove(f)
	if err := os.WriteFile(f, der, 0600); err != nil {
		die(err)
	}
	got, err := exec.Command("openssl", "pkey", "-inform", "DER", "-in", f, "-pubout", "-outform", "DER").Output()
	if err != nil {
		return "openssl refuses it"
	}
	want, err, _ := marshalKey("pkix", pubOf(key))
	if err != nil || !bytes.Equal(got, want) {
		return "openssl reads another key"
	}
	return ""
}

func keyMarshal(c *Ctx) {
	rng := c.Rng
	var keys []interface{}
	for _, cv := range append([]elliptic.Curve{sm2.SM2P256V1()}, stdCurves...) {
		n := cv.Params().N
		l := (n.BitLen() + 7) / 8
		ds := []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(255), big.NewInt(256), new(big.Int).Sub(n, big.NewInt(2)),
			new(big.Int).Rsh(n, 9), new(big.Int).Rsh(n, 20)}
		if curveName(cv) != "SM2" {
			ds = append(ds, new(big.Int).Sub(n, big.NewInt(1)))
		}
		for i := 0; i < 3; i++ {
			ds = append(ds, rng.BigIn(big.NewInt(1), new(big.Int).Sub(n, big.NewInt(2))))
		}
		// coordinates with leading zero octets
		found := 0
		for d := int64(3 + rng.Intn(1000)); found < 3; d++ {
			x, y := cv.ScalarBaseMult(big.NewInt(d).Bytes())
			if len(x.Bytes()) < l && found != 1 || len(y.Bytes()) < l && found == 1 {
				if cv == elliptic.P521() && len(x.Bytes()) >= l-0 && len(y.Bytes()) >= l {
					continue
				}
				ds = append(ds, big.NewInt(d))
				found++
			}
		}
		for _, d := range ds {
			keys = append(keys, ecPriv(cv, d))
		}
	}
	spec := [][3]int64{{1024, 2, 65537}, {1024, 2, 3}, {1025, 2, 17}, {1031, 2, 65537}, {1100, 3, 3}, {1300, 4, 65537}, {1024, 2, 2147483647}, {1536, 2, 65537}}
	if !c.Quick {
		spec = append(spec, [][3]int64{{2048, 2, 65537}, {3072, 2, 65537}, {1600, 5, 257}, {4096, 2, 65537}}...)
	}
	rk := make([]interface{}, len(spec))
	rngs := make([]*Rng, len(spec))
	for i := range spec {
		rngs[i] = rng.Fork()
	}
	parallel(len(spec), func(i int) {
		k := newRSA(rngs[i], int(spec[i][0]), int(spec[i][1]), spec[i][2])
		if i%2 == 0 {
			k.Precompute()
		}
		if i == 1 && k.Primes[0].Cmp(k.Primes[1]) > 0 { // smaller prime first
			k.Primes[0], k.Primes[1] = k.Primes[1], k.Primes[0]
		}
		rk[i] = k
	})
	keys = append(keys, rk...)
	for i := 0; i < 4; i++ {
		s := rng.Bytes(32)
		if i == 1 {
			s = make([]byte, 32)
		}
		keys = append(keys, ed25519.NewKeyFromSeed(s))
	}
	type job struct {
		fm  string
		key interface{}
		ssl bool
	}
	var jobs []job
	for i, k := range keys {
		jobs = append(jobs, job{"pkcs8", k, i%3 == 0 || !c.Quick}, job{"pkix", pubOf(k), false})
		switch kk := k.(type) {
		case *ecdsa.PrivateKey:
			jobs = append(jobs, job{"sec1", k, i%3 == 1 || !c.Quick})
		case *rsa.PrivateKey:
			jobs = append(jobs, job{"pkcs1", k, true}, job{"pkcs1pub", &kk.PublicKey, false})
		}
	}
	out := make([]M, len(jobs))
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		rec := keyRecOf(j.fm, j.key)
		o, err, p := marshalKey(j.fm, j.key)
		o2, _, _ := marshalKey(j.fm, j.key)
		e := M{"op": "marshal", "fmt": j.fm, "case": fmt.Sprint(rec["kind"], " ", rec["curve"], " ", j.fm), "panic": p, "err": es(err),
			"key": rec, "out": B(o), "again": B(o2)}
		back, berr, bp := parseKey(j.fm, clone(o))
		if bp != "" {
			e["panic"] = bp
		}
		if fmt.Sprint(keyRecOf(j.fm, j.key)) != fmt.Sprint(rec) {
			e["panic"] = "the key changed"
		}
		e["back"], e["backerr"] = keyRecOf(j.fm, back), es(berr)
		e["other"] = ""
		if err == nil {
			e["other"] = stdReads(j.fm, o, j.key)
			if j.ssl && e["other"] == "" {
				e["other"] = opensslReads(c.Dir, i, o, j.key)
			}
		}
		out[i] = e
	})
	for _, e := range out {
		c.Out.Put(e)
	}
	// keys without an encoding
	odd := *elliptic.P256().Params()
	oddKey := &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: &odd, X: odd.Gx, Y: odd.Gy}, D: big.NewInt(1)}
	oddSM2 := unsupportedKey("oddsm2").(*sm2.PrivateKey)
	edKey := ed25519.NewKeyFromSeed(rng.Bytes(32))
	other := unsupportedKey("odd").(*ecdsa.PrivateKey)
	for _, u := range []struct {
		fm string
		k  interface{}
	}{{"pkcs8", oddKey}, {"sec1", oddKey}, {"pkix", &oddKey.PublicKey}, {"pkcs8", &dsa.PrivateKey{}}, {"pkix", &dsa.PublicKey{}},
		{"pkcs8", "a string"}, {"pkix", 17}, {"pkcs8", nil}, {"pkix", nil}, {"pkcs8", &oddKey.PublicKey}, {"pkix", oddKey},
		{"pkcs8", other}, {"sec1", other}, {"pkix", &other.PublicKey}, {"pkcs8", oddSM2}, {"pkix", &oddSM2.PublicKey}, {"pkcs8", *oddKey}, {"pkix", oddKey.PublicKey},
		{"pkcs8", *oddSM2}, {"pkix", oddSM2.PublicKey}, {"pkix", edKey}, {"pkcs8", edKey.Public()}, {"pkcs8", &edKey}} {
		o, err, p := marshalKey(u.fm, u.k)
		c.Out.Put(M{"op": "unsupported", "fmt": u.fm, "case": fmt.Sprintf("%T", u.k), "panic": p, "err": es(err), "got": len(o) > 0})
	}
}
