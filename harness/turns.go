package main

// Questions in turn: one, another that differs from it in a single argument, the first again (TurnsGen). All of an operation's
// questions are asked one after the other in one process, of objects that are used again with other values in them and of new
// ones in turn; what is answered is judged by the arguments alone. An answer seen before is recorded once.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
	"github.com/mmdet/mcrypto/x509"
)

func init() { drivers["turns"] = turns }

type turnScn struct {
	Op       string
	From, To []int
}

// asker answers the question at a vector of positions counted from 0; odd says that the objects used should be new ones
type asker func(v []int, odd bool) M

func turns(c *Ctx) {
	var scn []turnScn
	readJSON(c.In, &scn)
	by := map[string][]turnScn{}
	for _, s := range scn {
		by[s.Op] = append(by[s.Op], s)
	}
	makers := map[string]func(*Ctx) asker{"digest": askDigest, "sign": askSign, "signdig": askSignDigest, "verify": askVerify, "verifydig": askVerifyDigest,
		"encrypt": askEncrypt, "decrypt": askDecrypt, "on": askOn, "mult": askMult, "base": askBase, "add": askAdd, "checksig": askCheckSig, "csrobj": askCsr, "crlobj": askCrl, "fromobj": askFrom, "marshal": askMarshal, "parse": askParse, "p7obj": askP7, "p12": askP12}
	for _, op := range keysOf(by) {
		if makers[op] == nil {
			die("unknown question " + op)
		}
		edges := by[op]
		sort.Slice(edges, func(i, j int) bool { return fmt.Sprint(edges[i]) < fmt.Sprint(edges[j]) })
		for i := range edges {
			j := i + c.Rng.Intn(len(edges)-i)
			edges[i], edges[j] = edges[j], edges[i]
		}
		ask := makers[op](c)
		seen := map[string]bool{}
		n := 0
		one := func(v, before []int) {
			at := make([]int, len(v))
			for i := range v {
				at[i] = v[i] - 1
			}
			n++
			e := ask(at, n/3%2 == 1)
			e["case"] = ""
			b, err := json.Marshal(e)
			if err != nil {
				die(err)
			}
			if !seen[string(b)] {
				seen[string(b)] = true
				e["case"] = fmt.Sprint(op, v, " after ", before)
				c.Out.Put(e)
			}
		}
		last := []int{}
		for _, s := range edges {
			one(s.From, last)
			one(s.To, s.From)
			one(s.From, s.To)
			last = s.From
		}
	}
}

// newObjects leaves no key object to be used again
func newObjects(odd bool) {
	if !odd {
		return
	}
	for {
		select {
		case <-heldPrivs:
		case <-heldPubs:
		default:
			return
		}
	}
}

// three private keys: one, the one whose point is its negative, another
func threeKeys(r *Rng) []*big.Int {
	d := r.BigIn(i2(2), nm2)
	return []*big.Int{d, sub(ecN, d), r.BigIn(i2(2), nm2)}
}

// signRef signs as the standard says with a random nonce
func signRef(r *Rng, d, e *big.Int) (*big.Int, *big.Int) {
	k := r.BigIn(big1, nm1)
	rr := mod(add(e, pmul(k, ecG).x), ecN)
	return rr, mod(mul(inv(add(d, big1), ecN), sub(k, mul(rr, d))), ecN)
}

func digestRef(q *pt, uid, msg []byte) *big.Int {
	z := sm3.Sum(cat([]byte{byte(len(uid) * 8 >> 8), byte(len(uid) * 8)}, uid, b32(ecA), b32(ecB), b32(ecG.x), b32(ecG.y), b32(q.x), b32(q.y)))
	return new(big.Int).SetBytes(sm3.Sum(cat(z, msg)))
}

func askDigest(c *Ctx) asker {
	ds := threeKeys(c.Rng)
	m := c.Rng.Bytes(40)
	uids := [][]byte{nil, []byte("1234567812345679"), []byte("a"), []byte("ab"), c.Rng.Bytes(16)}
	msgs := [][]byte{m, m[:39], append([]byte("b"), m...)} // "a" and "b..", "ab" and "..": the same octets differently divided
	pub := mkPub(i2(0), i2(0))
	return func(v []int, odd bool) M {
		q := pmul(ds[v[0]], ecG)
		if odd {
			return doDigest(q.x, q.y, uids[v[1]], msgs[v[2]], "")
		}
		pub.X.Set(q.x)
		pub.Y.Set(q.y)
		e := M{"op": "digest", "x": N(q.x), "y": N(q.y), "uid": B(clone(uids[v[1]])), "msg": B(clone(msgs[v[2]])), "out": B{}, "err": ""}
		e["panic"] = call(func() {
			out, err := pub.SM3Digest(msgs[v[2]], uids[v[1]])
			e["out"], e["err"] = B(out), es(err)
		})
		return e
	}
}

func askSign(c *Ctx) asker {
	ds := threeKeys(c.Rng)
	uids := [][]byte{nil, c.Rng.Bytes(9)}
	msgs := [][]byte{c.Rng.Bytes(20), c.Rng.Bytes(20)}
	return func(v []int, odd bool) M {
		newObjects(odd)
		e, _, _ := doSign(signIn{d: ds[v[0]], kind: "msg", msg: msgs[v[2]], uid: uids[v[1]], src: NewRng(7), srcKind: "drbg", entry: 2 * v[3]})
		return e
	}
}

func askSignDigest(c *Ctx) asker {
	ds := threeKeys(c.Rng)
	dig := c.Rng.Bytes(32)
	digs := [][]byte{dig, sub(ecN, mod(new(big.Int).SetBytes(dig), ecN)).Bytes(), append(clone(dig[:31]), dig[31]^1)}
	return func(v []int, odd bool) M {
		newObjects(odd)
		e, _, _ := doSign(signIn{d: ds[v[0]], kind: "dig", dig: digs[v[1]], src: NewRng(7), srcKind: "drbg", entry: 1 + 2*v[2]})
		return e
	}
}

func askVerify(c *Ctx) asker {
	r := c.Rng
	ds := threeKeys(r)
	uids := [][]byte{nil, r.Bytes(9)}
	ids := [][]byte{[]byte("1234567812345678"), uids[1]}
	msgs := [][]byte{r.Bytes(20), r.Bytes(20)}
	var sigs [][2]*big.Int
	for _, k := range [][3]int{{0, 0, 0}, {1, 0, 0}, {0, 1, 1}} {
		a, b := signRef(r, ds[k[0]], digestRef(pmul(ds[k[0]], ecG), ids[k[1]], msgs[k[2]]))
		sigs = append(sigs, [2]*big.Int{a, b})
	}
	sigs = append(sigs, [2]*big.Int{sigs[0][0], sub(ecN, sigs[0][1])})
	return func(v []int, odd bool) M {
		newObjects(odd)
		q := pmul(ds[v[0]], ecG)
		return doVerify(verIn{x: q.x, y: q.y, kind: "msg", msg: msgs[v[2]], uid: uids[v[1]], r: sigs[v[3]][0], s: sigs[v[3]][1]})
	}
}

func askVerifyDigest(c *Ctx) asker {
	r := c.Rng
	ds := threeKeys(r)
	digs := [][]byte{r.Bytes(32), r.Bytes(32), r.Bytes(20)}
	var sigs [][2]*big.Int
	for _, k := range [][2]int{{0, 0}, {1, 0}, {0, 1}} {
		a, b := signRef(r, ds[k[0]], new(big.Int).SetBytes(digs[k[1]]))
		sigs = append(sigs, [2]*big.Int{a, b})
	}
	sigs = append(sigs, [2]*big.Int{sigs[2][0], sigs[0][1]})
	return func(v []int, odd bool) M {
		newObjects(odd)
		q := pmul(ds[v[0]], ecG)
		return doVerify(verIn{x: q.x, y: q.y, kind: "dig", dig: digs[v[1]], r: sigs[v[2]][0], s: sigs[v[2]][1]})
	}
}

func askEncrypt(c *Ctx) asker {
	ds := threeKeys(c.Rng)
	m := c.Rng.Bytes(40)
	msgs := [][]byte{m, m[:33], c.Rng.Bytes(40)}
	return func(v []int, odd bool) M {
		newObjects(odd)
		return doEncrypt(ds[v[0]], pmul(ds[v[0]], ecG), msgs[v[1]], NewRng(int64(7+v[2])), "drbg", "")
	}
}

func askDecrypt(c *Ctx) asker {
	r := c.Rng
	ds := threeKeys(r)
	p := pmul(r.BigIn(big1, nm1), ecG)
	c1 := []*pt{p, p.neg(), pmul(r.BigIn(big1, nm1), ecG)}
	msgs := [][]byte{r.Bytes(40), r.Bytes(33)}
	// what follows the first point: that of the message for this key and point, or for others
	rest := [2][]byte{ctFor(ds[0], c1[0], nil, msgs[0]), ctFor(ds[1], c1[2], nil, msgs[0])}
	third := ctFor(ds[2], c1[0], nil, msgs[0])
	return func(v []int, odd bool) M {
		newObjects(odd)
		var b []byte
		switch v[2] {
		case 0, 1:
			b = ctFor(ds[v[0]], c1[v[1]], nil, msgs[v[2]])
		case 2, 3:
			b = rest[v[2]-2]
		default:
			b = third
		}
		return doDecrypt(ds[v[0]], cat(unc(c1[v[1]]), b), "")
	}
}

// ---- the curve

func scnAt(op string, p, q *pt, k []byte) (s curveScn) {
	s.Op, s.K = op, B(k)
	s.X.Mag, s.Y.Mag, s.X2.Mag, s.Y2.Mag = B{}, B{}, B{}, B{}
	if p != nil {
		s.X.Mag, s.Y.Mag = N(p.x), N(p.y)
	}
	if q != nil {
		s.X2.Mag, s.Y2.Mag = N(q.x), N(q.y)
	}
	return
}

func askCurve(c *Ctx, f func(v []int) curveScn) asker {
	objs := curveObjects()
	n := 0
	return func(v []int, odd bool) M {
		n++
		return curveOne(objs[n%len(objs)], f(v), "")
	}
}

func askOn(c *Ctx) asker {
	p, q := pmul(c.Rng.BigIn(big1, nm1), ecG), pmul(c.Rng.BigIn(big1, nm1), ecG)
	xs, ys := []*big.Int{p.x, q.x, ecG.x, add(p.x, big1)}, []*big.Int{p.y, p.neg().y, q.y, ecG.y, i2(0)}
	return askCurve(c, func(v []int) curveScn { return scnAt("on", &pt{xs[v[0]], ys[v[1]]}, nil, nil) })
}

func askScalars(c *Ctx) [][]byte {
	d := c.Rng.BigIn(i2(2), nm2)
	return [][]byte{b32(d), b32(sub(ecN, d)), cat([]byte{0}, b32(d)), d.Bytes()[:len(d.Bytes())-1], add(d, ecN).Bytes(), {}}
}

func askMult(c *Ctx) asker {
	p := pmul(c.Rng.BigIn(big1, nm1), ecG)
	ps := []*pt{p, p.neg(), pmul(c.Rng.BigIn(big1, nm1), ecG), ecG}
	ks := askScalars(c)
	return askCurve(c, func(v []int) curveScn { return scnAt("mult", ps[v[0]], nil, ks[v[1]]) })
}

func askBase(c *Ctx) asker {
	ks := askScalars(c)
	return askCurve(c, func(v []int) curveScn { return scnAt("base", nil, nil, ks[v[0]]) })
}

func askAdd(c *Ctx) asker {
	p := pmul(c.Rng.BigIn(big1, nm1), ecG)
	ps := []*pt{p, p.neg(), pmul(c.Rng.BigIn(big1, nm1), ecG), ecG, nil}
	return askCurve(c, func(v []int) curveScn { return scnAt("add", ps[v[0]], ps[v[1]], nil) })
}

// ---- signatures checked with one certificate

// checkTables are keys, algorithms, messages and signatures; of the signatures the first and the others named are valid
type checkTables struct {
	keys  keyring
	names []string
	algs  []string
	msgs  [][]byte
	sigs  [][]byte
	asked int
}

func newCheckTables(c *Ctx) *checkTables {
	r := c.Rng
	t := &checkTables{keys: newKeyring(r), names: []string{"sm2", "sm2b", "rsa", "p256"}, algs: []string{"SM2-SM3", "SHA256-RSA", "ECDSA-SHA256"},
		msgs: [][]byte{r.Bytes(40), r.Bytes(40)}}
	for _, s := range []struct {
		key string
		alg int
		msg int
	}{{"sm2", 0, 0}, {"sm2", 0, 1}, {"sm2b", 0, 0}, {"rsa", 1, 0}, {"p256", 2, 0}} {
		var sig []byte
		if p := call(func() { sig = signRaw(r, t.keys[s.key], t.algs[s.alg], t.msgs[s.msg], "") }); p != "" || sig == nil {
			sig = []byte{48, 6, 2, 1, 1, 2, 1, 1}
		}
		t.sigs = append(t.sigs, sig)
	}
	return t
}

// key is the public key at a position, in an object of its own for every other pair of questions of objects used again
func (t *checkTables) key(n int, odd bool) (interface{}, M) {
	key, rec := checkKey(t.keys, t.names[n])
	t.asked++
	if k, ok := key.(*sm2.PublicKey); ok && !odd && (t.asked-1)/6%2 == 1 {
		key = &sm2.PublicKey{Curve: k.Curve, X: new(big.Int).Set(k.X), Y: new(big.Int).Set(k.Y)}
	}
	return key, rec
}

// ask is a check of the signature at a vector (key, algorithm, message, signature)
func (t *checkTables) ask(v []int, odd bool, f func(key interface{}, alg string, msg, sig []byte) error) M {
	key, rec := t.key(v[0], odd)
	e := M{"op": "checksig", "alg": t.algs[v[1]], "key": rec, "msg": B(t.msgs[v[2]]), "sig": B(t.sigs[v[3]])}
	var err error
	p := call(func() { err = f(key, t.algs[v[1]], clone(t.msgs[v[2]]), clone(t.sigs[v[3]])) })
	e["ok"], e["panic"] = err == nil && p == "", p
	return e
}

func askCheckSig(c *Ctx) asker {
	t := newCheckTables(c)
	held := &x509.Certificate{}
	return func(v []int, odd bool) M {
		return t.ask(v, odd, func(key interface{}, alg string, msg, sig []byte) error {
			cert := held
			if odd {
				cert = &x509.Certificate{}
			}
			cert.PublicKey = key
			return cert.CheckSignature(algOf(alg), msg, sig)
		})
	}
}

// a request whose fields are set
func askCsr(c *Ctx) asker {
	t := newCheckTables(c)
	held := &x509.CertificateRequest{}
	return func(v []int, odd bool) M {
		return t.ask(v, odd, func(key interface{}, alg string, msg, sig []byte) error {
			req := held
			if odd {
				req = &x509.CertificateRequest{}
			}
			req.PublicKey, req.SignatureAlgorithm, req.RawTBSCertificateRequest, req.Signature = key, algOf(alg), msg, sig
			return req.CheckSignature()
		})
	}
}

// a revocation list whose fields are set
func askCrl(c *Ctx) asker {
	t := newCheckTables(c)
	ids := map[string][]byte{"SM2-SM3": seqOf(oidTLV(1, 2, 156, 10197, 1, 501)), "SHA256-RSA": seqOf(oidTLV(1, 2, 840, 113549, 1, 1, 11), []byte{5, 0}),
		"ECDSA-SHA256": seqOf(oidTLV(1, 2, 840, 10045, 4, 3, 2))}
	held, heldCert := &pkix.CertificateList{}, &x509.Certificate{}
	return func(v []int, odd bool) M {
		return t.ask(v, odd, func(key interface{}, alg string, msg, sig []byte) error {
			crl, cert := held, heldCert
			if odd {
				crl, cert = &pkix.CertificateList{}, &x509.Certificate{}
			}
			var ai pkix.AlgorithmIdentifier
			if _, err := asn1.Unmarshal(ids[alg], &ai); err != nil {
				die(err)
			}
			crl.SignatureAlgorithm, crl.TBSCertList.Signature = ai, ai
			crl.TBSCertList.Raw, crl.SignatureValue = msg, asn1.BitString{Bytes: sig, BitLength: 8 * len(sig)}
			cert.PublicKey = key
			return cert.CheckCRLSignature(crl)
		})
	}
}

// a certificate and its parent whose fields are set
func askFrom(c *Ctx) asker {
	t := newCheckTables(c)
	child, parent := &x509.Certificate{}, &x509.Certificate{}
	kinds := []x509.PublicKeyAlgorithm{x509.SM2, x509.SM2, x509.RSA, x509.ECDSA}
	return func(v []int, odd bool) M {
		e := t.ask(v, odd, func(key interface{}, alg string, msg, sig []byte) error {
			ch, p := child, parent
			if odd {
				ch, p = &x509.Certificate{}, &x509.Certificate{}
			}
			ch.SignatureAlgorithm, ch.RawTBSCertificate, ch.Signature = algOf(alg), msg, sig
			p.Version, p.PublicKey, p.PublicKeyAlgorithm, p.BasicConstraintsValid, p.IsCA, p.KeyUsage = 3, key, kinds[v[0]], true, v[4] != 1, x509.KeyUsageCertSign
			if v[4] == 2 {
				p.KeyUsage = x509.KeyUsageCRLSign
			}
			return ch.CheckSignatureFrom(p)
		})
		e["op"], e["ca"] = "fromobj", v[4] == 0
		return e
	}
}

// ---- keys in containers

var keyForms = []struct{ kind, fm string }{{"sm2", "pkcs8"}, {"sm2", "pkix"}, {"p256", "pkcs8"}, {"p256", "sec1"}, {"p256", "pkix"}, {"p384", "sec1"},
	{"rsa", "pkcs8"}, {"rsa", "pkcs1"}, {"rsa", "pkix"}, {"rsa", "pkcs1pub"}, {"ed25519", "pkcs8"}}

// threeOfEach are three keys of every kind: for curves one, the one with the opposite point, another
func threeOfEach(r *Rng) map[string][]interface{} {
	out := map[string][]interface{}{}
	d, d3 := r.BigIn(i2(2), new(big.Int).Lsh(big1, 255)), r.BigIn(i2(2), new(big.Int).Lsh(big1, 255))
	for n, c := range map[string]elliptic.Curve{"sm2": sm2.SM2P256V1(), "p256": elliptic.P256(), "p384": elliptic.P384()} {
		// the same scalars on every curve
		q := c.Params().N
		for _, x := range []*big.Int{d, sub(q, d), d3} {
			out[n] = append(out[n], ecPriv(c, x))
		}
	}
	a := newRSA(r, 1024, 2, 65537)
	b := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: a.N, E: 257}, Primes: a.Primes} // the same modulus
	one := big.NewInt(1)
	phi := mul(sub(a.Primes[0], one), sub(a.Primes[1], one))
	if b.D = new(big.Int).ModInverse(big.NewInt(257), phi); b.D == nil {
		b = newRSA(r, 1024, 2, 257)
	}
	out["rsa"] = []interface{}{a, b, newRSA(r, 1024, 2, 3)}
	for i := 0; i < 3; i++ {
		out["ed25519"] = append(out["ed25519"], ed25519.NewKeyFromSeed(r.Bytes(32)))
	}
	return out
}

func askMarshal(c *Ctx) asker {
	keys := threeOfEach(c.Rng)
	held := map[string]interface{}{"sm2": &sm2.PrivateKey{}, "ec": &ecdsa.PrivateKey{}, "rsa": &rsa.PrivateKey{}}
	return func(v []int, odd bool) M {
		fm := keyForms[v[1]].fm
		k := keys[keyForms[v[1]].kind][v[0]]
		if !odd {
			// an object that held other keys before
			switch x := k.(type) {
			case *sm2.PrivateKey:
				h := held["sm2"].(*sm2.PrivateKey)
				h.Curve, h.X, h.Y, h.D = x.Curve, new(big.Int).Set(x.X), new(big.Int).Set(x.Y), new(big.Int).Set(x.D)
				k = h
			case *ecdsa.PrivateKey:
				h := held["ec"].(*ecdsa.PrivateKey)
				h.Curve, h.X, h.Y, h.D = x.Curve, new(big.Int).Set(x.X), new(big.Int).Set(x.Y), new(big.Int).Set(x.D)
				k = h
			case *rsa.PrivateKey:
				h := held["rsa"].(*rsa.PrivateKey)
				h.PublicKey, h.D, h.Primes, h.Precomputed = x.PublicKey, x.D, x.Primes, rsa.PrecomputedValues{}
				k = h
			}
		}
		if fm == "pkix" || fm == "pkcs1pub" {
			k = pubOf(k)
		}
		rec := keyRecOf(fm, k)
		o, err, p := marshalKey(fm, k)
		o2, _, _ := marshalKey(fm, k)
		e := M{"op": "marshal", "fmt": fm, "panic": p, "err": es(err), "key": rec, "out": B(o), "again": B(o2), "other": ""}
		back, berr, bp := parseKey(fm, clone(o))
		if bp != "" {
			e["panic"] = bp
		}
		e["back"], e["backerr"] = keyRecOf(fm, back), es(berr)
		return e
	}
}

// documents of three keys, with their own public part or that of others
func askParse(c *Ctx) asker {
	keys := threeOfEach(c.Rng)
	docs := map[[2]int][]byte{}
	pub := func(k interface{}) []byte {
		switch x := pubOf(k).(type) {
		case *sm2.PublicKey:
			return cat(x.X.FillBytes(make([]byte, 32)), x.Y.FillBytes(make([]byte, 32)))
		case *ecdsa.PublicKey:
			n := (x.Curve.Params().BitSize + 7) / 8
			return cat(x.X.FillBytes(make([]byte, n)), x.Y.FillBytes(make([]byte, n)))
		case *rsa.PublicKey:
			return x.N.Bytes()
		}
		return nil
	}
	return func(v []int, odd bool) M {
		f := keyForms[v[2]]
		at := [2]int{v[0], v[2]}
		if docs[at] == nil {
			k := keys[f.kind][v[0]]
			if f.fm == "pkix" || f.fm == "pkcs1pub" {
				k = pubOf(k)
			}
			if o, err, p := marshalKey(f.fm, k); err == nil && p == "" {
				docs[at] = o
			} else {
				docs[at] = []byte{48, 0}
			}
		}
		der := docs[at]
		if old, new := pub(keys[f.kind][v[0]]), pub(keys[f.kind][v[1]]); old != nil && len(old) == len(new) {
			der = bytes.Replace(der, old, new, -1)
		}
		return parseEvent(f.fm, der, "")
	}
}

// ---- one signed message, its fields changed

func askP7(c *Ctx) asker {
	cast := p7People(c.Rng)
	signed := func(seed int64, edit ...string) *x509.PKCS7 {
		ch := map[string]string{"certs": "A", "content": "text", "inner": "gm", "outer": "gm", "digs": "sm3", "crls": "absent", "version": "1", "more": "one",
			"ias": "A", "key": "A", "attrs": "full", "over": "attrs", "sig": "none", "dig": "sm3", "sigalg": "sm2sm3", "unauth": "absent", "siver": "1", "tamper": "none", "swap": "none"}
		for i := 0; i < len(edit); i += 2 {
			ch[edit[i]] = edit[i+1]
		}
		der, _ := cast.message(NewRng(seed), ch)
		p := &x509.PKCS7{}
		call(func() {
			if q, err := x509.ParsePKCS7(der); err == nil && q != nil {
				p = q
			}
		})
		return p
	}
	s1, s2 := int64(c.Rng.Intn(1<<30)), int64(c.Rng.Intn(1<<30))
	first := signed(s1)
	a, b, other := signed(s1), signed(s1, "ias", "B", "key", "B"), signed(s2)
	signers := []*x509.PKCS7{{}, a, b, other, signed(s1, "key", "imp"), {Signers: append(append(b.Signers[:0:0], a.Signers...), b.Signers...)}}
	contents := [][]byte{a.Content, other.Content, append(clone(a.Content), 1)}
	certs := [][]*x509.Certificate{{cast.certs["A"]}, {cast.certs["B"]}, {cast.certs["A"], cast.certs["B"]}, {}, {cast.certs["imp"]}}
	n := 0
	return func(v []int, odd bool) M {
		p := first
		if odd {
			p = &x509.PKCS7{}
		}
		p.Content, p.Certificates, p.Signers = clone(contents[v[0]]), append([]*x509.Certificate{}, certs[v[1]]...), append(b.Signers[:0:0], signers[v[2]].Signers...)
		e := M{"op": "p7obj", "ver": false, "only": B{}, "seen": p7Seen(p)}
		verify := func() { e["ver"] = p.Verify() == nil }
		only := func() {
			if c := p.GetOnlySigner(); c != nil {
				e["only"] = B(c.Raw)
			}
		}
		n++
		e["panic"] = call(func() {
			if n%2 == 0 {
				verify()
				only()
			} else {
				only()
				verify()
			}
		})
		return e
	}
}

// ---- stores that differ in one parameter of one key

func askP12(c *Ctx) asker {
	env := newP12env(c)
	cast := p12People(c.Rng)
	seed := int64(c.Rng.Intn(1 << 30))
	salts, counts, algs, words := []string{"fixA", "fixB"}, []string{"1", "2"}, []string{"rc2-40", "3des", "rc2-128"}, []string{"alpha", "bravo"}
	ders := map[string][]byte{}
	return func(v []int, odd bool) M {
		k := fmt.Sprint(v[:6])
		if ders[k] == nil {
			ders[k], _ = cast.store(NewRng(seed), p12Plain("msalt", salts[v[0]], "miter", counts[v[1]], "csalt", salts[v[2]], "ksalt", salts[v[2]],
				"citer", counts[v[3]], "kiter", counts[v[3]], "calg", algs[v[4]], "word", words[v[5]]), nil)
		}
		return env.event(ders[k], words[v[6]], "", nil)
	}
}
