package main

import (
	"bytes"
	"crypto/elliptic"
	"fmt"
	"io"
	"math/big"

	"github.com/mmdet/mcrypto/sm2"
)

func init() {
	drivers["sm2sign"] = sm2Sign
	drivers["sm2verify"] = sm2Verify
	drivers["sm2der"] = sm2Der
	drivers["sm2nonce"] = sm2Nonce
	drivers["sm2digest"] = sm2Digest
	drivers["sm2enc"] = sm2Enc
	drivers["sm2dec"] = sm2Dec
	drivers["sm2decdesign"] = sm2DecDesign
	drivers["sm2key"] = sm2Key
}

var nm1 = sub(ecN, big1)
var nm2 = sub(ecN, i2(2))

func mkKey(d *big.Int) *sm2.PrivateKey {
	q := pmul(d, ecG)
	if q == nil {
		q = &pt{i2(0), i2(0)}
	}
	k := &sm2.PrivateKey{D: new(big.Int).Set(d)}
	k.Curve = sm2.SM2P256V1()
	k.X, k.Y = new(big.Int).Set(q.x), new(big.Int).Set(q.y)
	return k
}

// the same few key objects are given other numbers again and again: what is computed follows the numbers, not the object
var (
	heldPrivs = make(chan *sm2.PrivateKey, 64)
	heldPubs  = make(chan *sm2.PublicKey, 64)
)

// heldKey is a key object used before; whoever is done with it hands it back by calling done
func heldKey(d *big.Int) (k *sm2.PrivateKey, done func()) {
	fresh := mkKey(d)
	select {
	case k = <-heldPrivs:
		if d.Bit(0) == 0 { // the numbers themselves change, or others take their place
			k.D.Set(fresh.D)
			k.X.Set(fresh.X)
			k.Y.Set(fresh.Y)
		} else {
			*k = *fresh
		}
	default:
		k = fresh
	}
	return k, func() {
		select {
		case heldPrivs <- k:
		default:
		}
	}
}

func heldPub(x, y *big.Int) (p *sm2.PublicKey, done func()) {
	fresh := mkPub(x, y)
	select {
	case p = <-heldPubs:
		if x.Bit(0) == 0 {
			p.X.Set(fresh.X)
			p.Y.Set(fresh.Y)
			p.Curve = fresh.Curve
		} else {
			*p = *fresh
		}
	default:
		p = fresh
	}
	return p, func() {
		select {
		case heldPubs <- p:
		default:
		}
	}
}

func mkPub(x, y *big.Int) *sm2.PublicKey {
	return &sm2.PublicKey{Curve: sm2.SM2P256V1(), X: new(big.Int).Set(x), Y: new(big.Int).Set(y)}
}

// scalars whose public coordinates, or which themselves, have leading zero bytes
func shortKeys(r *Rng, want int) []*big.Int {
	var res []*big.Int
	nx, ny := 0, 0
	d := r.BigIn(big1, nm2)
	q := pmul(d, ecG)
	for nx < want || ny < want {
		d = add(d, big1)
		q = padd(q, ecG)
		if q.x.BitLen() <= 248 && nx < want {
			nx++
			res = append(res, d)
		} else if q.y.BitLen() <= 248 && ny < want {
			ny++
			res = append(res, d)
		}
	}
	return res
}

func testScalars(r *Rng, random int) []*big.Int {
	ds := []*big.Int{i2(1), i2(2), i2(3), nm2, sub(nm2, big1), new(big.Int).Rsh(ecN, 1),
		r.BigIn(big1, new(big.Int).Lsh(big1, 248)), r.BigIn(big1, new(big.Int).Lsh(big1, 128)), i2(255), i2(256)}
	ds = append(ds, shortKeys(r, 1)...)
	for i := 0; i < random; i++ {
		ds = append(ds, r.BigIn(big1, nm2))
	}
	return ds
}

// ---- signing

type signIn struct {
	d         *big.Int
	kind      string // msg, dig
	msg, uid  []byte
	dig       []byte
	src       io.Reader
	srcKind   string
	first     *big.Int // a nonce that must have been rejected
	entry     int      // 0..3: Sign function, Sign method, SignRS function, SignRS method (or the Digest ones)
	caseLabel string
}

func doSign(in signIn) (M, *big.Int, *big.Int) {
	k, done := heldKey(in.d)
	form := "der"
	if in.entry >= 2 {
		form = "rs"
	}
	e := M{"op": "sign", "case": in.caseLabel, "entry": in.entry, "kind": in.kind, "msg": B(clone(in.msg)), "uid": B(clone(in.uid)), "dig": B(clone(in.dig)),
		"d": N(in.d), "x": N(k.X), "y": N(k.Y), "form": form, "der": B{}, "r": SZ(big0), "s": SZ(big0), "err": "", "got": false,
		"src": in.srcKind, "acc": []bool{}, "first": N(in.first)}
	var der []byte
	var rr, ss *big.Int
	var err error
	e["panic"] = call(func() {
		switch {
		case in.kind == "msg" && in.entry == 0:
			der, err = sm2.Sign(in.src, k, in.msg, in.uid)
		case in.kind == "msg" && in.entry == 1:
			der, err = k.Sign(in.src, in.msg, in.uid)
		case in.kind == "msg" && in.entry == 2:
			rr, ss, err = sm2.SignRS(in.src, k, in.msg, in.uid)
		case in.kind == "msg":
			rr, ss, err = k.SignRS(in.src, in.msg, in.uid)
		case in.entry == 0:
			der, err = sm2.SignDigest(in.src, k, in.dig)
		case in.entry == 1:
			der, err = k.SignDigest(in.src, in.dig)
		case in.entry == 2:
			rr, ss, err = sm2.SignDigestRS(in.src, k, in.dig)
		default:
			rr, ss, err = k.SignDigestRS(in.src, in.dig)
		}
	})
	if e["panic"] != "" {
		return e, nil, nil
	}
	defer done()
	e["err"] = es(err)
	e["got"] = len(der) > 0 || rr != nil || ss != nil
	if err != nil {
		return e, nil, nil
	}
	if form == "der" {
		e["der"] = B(der)
		rr, ss, err = sm2.UnmarshalSign(der)
		if err != nil {
			rr, ss = nil, nil
		}
	} else if rr != nil && ss != nil {
		e["r"], e["s"] = SZ(rr), SZ(ss)
		der, _ = sm2.MarshalSign(rr, ss)
	}
	if rr == nil || ss == nil {
		e["acc"] = []bool{false}
		return e, nil, nil
	}
	// every corresponding verification entry point
	pub, pubDone := heldPub(k.X, k.Y)
	acc := []bool{}
	if p := call(func() {
		if in.kind == "msg" {
			acc = append(acc, sm2.Verify(pub, in.msg, in.uid, der), pub.Verify(in.msg, in.uid, der),
				sm2.VerifyRS(pub, in.msg, in.uid, rr, ss), pub.VerifyRS(in.msg, in.uid, rr, ss))
			if len(in.uid) == 0 {
				def := []byte("1234567812345678")
				acc = append(acc, sm2.Verify(pub, in.msg, def, der), pub.VerifyRS(in.msg, def, rr, ss), pub.Verify(in.msg, []byte{}, der), pub.Verify(in.msg, nil, der))
			} else if string(in.uid) == "1234567812345678" {
				acc = append(acc, sm2.Verify(pub, in.msg, nil, der), pub.VerifyRS(in.msg, nil, rr, ss))
			}
			if dig, err := pub.SM3Digest(in.msg, in.uid); err == nil {
				acc = append(acc, sm2.VerifyDigest(pub, dig, der), sm2.VerifyDigestRS(pub, dig, rr, ss))
			} else {
				acc = append(acc, false)
			}
		} else {
			acc = append(acc, sm2.VerifyDigest(pub, in.dig, der), pub.VerifyDigest(in.dig, der),
				sm2.VerifyDigestRS(pub, in.dig, rr, ss), pub.VerifyDigestRS(in.dig, rr, ss))
		}
	}); p != "" {
		e["panic"] = p
	} else {
		pubDone()
	}
	e["acc"] = acc
	return e, rr, ss
}

var signLens = []int{0, 1, 2, 16, 31, 32, 33, 55, 56, 57, 63, 64, 65, 100, 119, 120, 128, 200, 1000}

func testUids(r *Rng) [][]byte {
	return [][]byte{nil, {}, []byte("1234567812345678"), []byte("A"), {0}, r.Bytes(15), r.Bytes(17), r.Bytes(31), r.Bytes(32), r.Bytes(33), r.Bytes(64), r.Bytes(255), r.Bytes(256), r.Bytes(257), r.Bytes(1000), r.Bytes(8191)}
}

func testDigests(r *Rng) [][]byte {
	ff := bytes.Repeat([]byte{0xFF}, 32)
	return [][]byte{r.Bytes(32), make([]byte, 32), ff, ecN.Bytes(), nm1.Bytes(), add(ecN, big1).Bytes(), {}, {1}, r.Bytes(20), r.Bytes(31), r.Bytes(33), r.Bytes(48), r.Bytes(64),
		append([]byte{0}, r.Bytes(31)...), append(ff, ff...)}
}

// nonceFor signs once to learn the nonce a source leads to (k is a function of d, r, s)
func nonceFor(d *big.Int, seed []byte) *big.Int {
	k := mkKey(d)
	var rr, ss *big.Int
	var err error
	if call(func() { rr, ss, err = sm2.SignDigestRS(&script{b: clone(seed), r: NewRng(1)}, k, []byte{7}) }) != "" || err != nil || rr == nil || ss == nil {
		return nil
	}
	return mod(add(mul(ss, add(d, big1)), mul(rr, d)), ecN)
}

// rejectDigests are digests that make a signer holding nonce k redraw
func rejectDigests(d, k *big.Int) map[string]*big.Int {
	x := pmul(k, ecG).x
	return map[string]*big.Int{
		"r=0":   mod(new(big.Int).Neg(x), ecN),
		"r+k=n": mod(sub(new(big.Int).Neg(k), x), ecN),
		"s=0":   mod(sub(mul(k, inv(d, ecN)), x), ecN),
	}
}

func sm2Sign(c *Ctx) {
	r := c.Rng
	var ins []signIn
	srcs := func() (io.Reader, string) {
		switch r.Intn(6) {
		case 0:
			return oneByte{r.Fork()}, "one"
		case 1:
			return &script{b: make([]byte, 200), r: r.Fork()}, "zeros"
		case 2:
			return &script{b: bytes.Repeat([]byte{0xFF}, 200), r: r.Fork()}, "ones"
		}
		return r.Fork(), "drbg"
	}
	put := func(in signIn) { ins = append(ins, in) }
	nrand := 3
	if !c.Quick {
		nrand = 40
	}
	ds := testScalars(r, nrand)
	uids := testUids(r)
	digs := testDigests(r)
	for i, d := range ds {
		for entry := 0; entry < 4; entry++ {
			s, sk := srcs()
			put(signIn{d: d, kind: "msg", msg: r.Bytes(signLens[r.Intn(len(signLens))]), uid: uids[r.Intn(len(uids)-1)], src: s, srcKind: sk, entry: entry})
			s, sk = srcs()
			put(signIn{d: d, kind: "dig", dig: digs[(i+entry)%len(digs)], src: s, srcKind: sk, entry: entry})
		}
	}
	for i, u := range uids {
		s, sk := srcs()
		put(signIn{d: ds[r.Intn(len(ds))], kind: "msg", msg: r.Bytes(40), uid: u, src: s, srcKind: sk, entry: i % 4})
	}
	for i, n := range signLens {
		s, sk := srcs()
		put(signIn{d: ds[r.Intn(len(ds))], kind: "msg", msg: r.Bytes(n), uid: nil, src: s, srcKind: sk, entry: i % 4})
	}
	for i, n := range digs {
		s, sk := srcs()
		put(signIn{d: ds[r.Intn(len(ds))], kind: "dig", dig: n, src: s, srcKind: sk, entry: (i + 1) % 4})
	}
	for entry := 0; entry < 4; entry++ {
		put(signIn{d: ds[0], kind: "msg", msg: r.Bytes(3), uid: r.Bytes(8192), src: r.Fork(), srcKind: "drbg", entry: entry})
		put(signIn{d: ds[1], kind: "msg", msg: nil, uid: nil, src: r.Fork(), srcKind: "drbg", entry: entry})
	}
	// redraws
	reps := 1
	if !c.Quick {
		reps = 12
	}
	for _, in := range retryCases(r, reps) {
		put(in)
	}
	out := make([]M, len(ins))
	parallel(len(ins), func(i int) { out[i], _, _ = doSign(ins[i]) })
	for i, m := range out {
		if m["case"] == "" {
			m["case"] = i
		}
		c.Out.Put(m)
	}
	// keys that are none: 1 + d has no inverse, or d is not between 1 and n - 2
	bad := []*big.Int{big.NewInt(0), big.NewInt(-1), big.NewInt(-2), new(big.Int).Neg(ds[0]), new(big.Int).Add(nm2, big1), new(big.Int).Add(nm2, big.NewInt(2)),
		new(big.Int).Add(nm2, big.NewInt(3)), new(big.Int).Add(nm2, big.NewInt(4)), new(big.Int).Lsh(big1, 256), new(big.Int).Lsh(nm2, 9),
		new(big.Int).Mul(new(big.Int).Add(nm2, big.NewInt(2)), big.NewInt(3)), nm2, big1}
	for i, d := range bad {
		for entry := 0; entry < 8; entry++ {
			k := mkKey(big.NewInt(int64(1 + i)))
			k.D = new(big.Int).Set(d)
			var der []byte
			var rr, ss *big.Int
			var err error
			p := call(func() {
				switch entry {
				case 0:
					der, err = sm2.Sign(r, k, []byte("m"), nil)
				case 1:
					der, err = k.Sign(r, []byte("m"), nil)
				case 2:
					rr, ss, err = sm2.SignRS(r, k, []byte("m"), nil)
				case 3:
					rr, ss, err = k.SignRS(r, []byte("m"), nil)
				case 4:
					der, err = sm2.SignDigest(r, k, b32(big1))
				case 5:
					der, err = k.SignDigest(r, b32(big1))
				case 6:
					rr, ss, err = sm2.SignDigestRS(r, k, b32(big1))
				default:
					rr, ss, err = k.SignDigestRS(r, b32(big1))
				}
			})
			c.Out.Put(M{"op": "badkey", "case": fmt.Sprint("key out of range ", i, ", entry ", entry), "d": SZ(d), "panic": p, "err": es(err), "got": len(der) > 0 || rr != nil || ss != nil})
		}
	}
	// a signature of any size class of r and s: look for short ones (leading zeros in the encoding)
	d := r.BigIn(big1, nm2)
	found := 0
	for t := 0; t < 1200 && found < 4; t++ {
		seed, dig := r.Bytes(200), r.Bytes(32)
		var rr, ss *big.Int
		if call(func() { rr, ss, _ = sm2.SignDigestRS(&script{b: clone(seed), r: NewRng(1)}, mkKey(d), dig) }) != "" || rr == nil || ss == nil {
			break
		}
		if rr.BitLen() <= 248 || ss.BitLen() <= 248 {
			m, _, _ := doSign(signIn{d: d, kind: "dig", dig: dig, src: &script{b: clone(seed), r: NewRng(1)}, srcKind: "drbg", entry: t % 4, caseLabel: "short"})
			c.Out.Put(m)
			found++
		}
	}
}

// retryCases: sources and digests for which the first nonce must be rejected
func retryCases(r *Rng, reps int) []signIn {
	var res []signIn
	for t := 0; t < reps; t++ {
		for _, d := range []*big.Int{r.BigIn(big1, nm2), i2(2), nm2} {
			seed := r.Bytes(4096)
			k := nonceFor(d, seed)
			if k == nil || k.Sign() == 0 {
				continue
			}
			i := 0
			digs := rejectDigests(d, k)
			for _, name := range keysOf(digs) {
				e := digs[name]
				i++
				res = append(res, signIn{d: d, kind: "dig", dig: b32(e), src: &script{b: clone(seed), r: r.Fork()}, srcKind: "retry " + name, entry: (t + i) % 4,
					first: k, caseLabel: "retry " + name})
			}
		}
	}
	return res
}

// ---- verification

type verIn struct {
	x, y     *big.Int
	kind     string
	msg, uid []byte
	dig      []byte
	r, s     *big.Int
	der      []byte // if not nil, form der
	label    string
	curve    elliptic.Curve
}

func doVerify(in verIn) M {
	form := "rs"
	if in.der != nil {
		form = "der"
	}
	if in.r == nil {
		in.r, in.s = big0, big0
	}
	e := M{"op": "verify", "case": in.label, "kind": in.kind, "msg": B(clone(in.msg)), "uid": B(clone(in.uid)), "dig": B(clone(in.dig)), "x": N(in.x), "y": N(in.y),
		"xneg": in.x.Sign() < 0, "yneg": in.y.Sign() < 0, "form": form, "der": B(clone(in.der)), "r": SZ(in.r), "s": SZ(in.s), "res": []bool{}}
	pub, done := heldPub(in.x, in.y)
	if in.curve != nil {
		pub.Curve = in.curve
	}
	var res []bool
	e["panic"] = call(func() {
		rr, ss := new(big.Int).Set(in.r), new(big.Int).Set(in.s)
		switch {
		case form == "der" && in.kind == "msg":
			res = append(res, sm2.Verify(pub, in.msg, in.uid, in.der), pub.Verify(in.msg, in.uid, in.der))
		case form == "der":
			res = append(res, sm2.VerifyDigest(pub, in.dig, in.der), pub.VerifyDigest(in.dig, in.der))
		default:
			// the encoded entry points take the same pair where it can be encoded
			der, err := sm2.MarshalSign(rr, ss)
			if in.kind == "msg" {
				res = append(res, sm2.VerifyRS(pub, in.msg, in.uid, rr, ss), pub.VerifyRS(in.msg, in.uid, rr, ss))
				if err == nil {
					res = append(res, sm2.Verify(pub, in.msg, in.uid, der), pub.Verify(in.msg, in.uid, der))
				}
			} else {
				res = append(res, sm2.VerifyDigestRS(pub, in.dig, rr, ss), pub.VerifyDigestRS(in.dig, rr, ss))
				if err == nil {
					res = append(res, sm2.VerifyDigest(pub, in.dig, der), pub.VerifyDigest(in.dig, der))
				}
			}
		}
	})
	if e["panic"] == "" {
		done()
	}
	e["res"] = res
	if res == nil {
		e["res"] = []bool{}
	}
	return e
}

// forge gives a public key and digest for which (r, s) has the chosen R = [s]G+[t]P
func forge(R *pt, s, t *big.Int) (P *pt, dig []byte, rr *big.Int) {
	P = pmul(inv(t, ecN), padd(R, pmul(s, ecG).neg()))
	rr = mod(sub(t, s), ecN)
	var x *big.Int = big0
	if R != nil {
		x = R.x
	}
	return P, b32(mod(sub(rr, x), ecN)), rr
}

func sm2Verify(c *Ctx) {
	r := c.Rng
	var ins []verIn
	put := func(in verIn) { ins = append(ins, in) }
	rs := func() *big.Int { return r.BigIn(big1, nm1) }

	// crafted: every choice of the point R and of extreme s, t
	var Rs []*pt
	names := map[*pt]string{}
	addR := func(p *pt, n string) { Rs = append(Rs, p); names[p] = n }
	addR(pmul(rs(), ecG), "random R")
	if p := lift(big0); p != nil {
		addR(p, "R with x=0")
		addR(p.neg(), "R with x=0, other y")
	}
	for i, n := ecN, 0; n < 2 && i.Cmp(ecP) < 0; i = add(i, big1) { // x between n and p
		if p := lift(i); p != nil {
			addR(p, "R with n<=x<p")
			n++
		}
	}
	for i, n := i2(1), 0; n < 2; i = add(i, big1) {
		if p := lift(i); p != nil {
			addR(p, "R with small x")
			n++
		}
	}
	for i, n := sub(ecP, big1), 0; n < 1; i = sub(i, big1) {
		if p := lift(i); p != nil {
			addR(p, "R with largest x")
			n++
		}
	}
	ext := []*big.Int{rs(), i2(1), i2(2), nm1, nm2}
	for _, R := range Rs {
		for _, s := range ext {
			for _, t := range []*big.Int{rs(), i2(1), nm1} {
				if !c.Quick || r.Intn(3) == 0 || s.Cmp(big1) == 0 {
					P, dig, rr := forge(R, s, t)
					if P == nil || rr.Sign() == 0 {
						continue
					}
					put(verIn{x: P.x, y: P.y, kind: "dig", dig: dig, r: rr, s: s, label: names[R]})
					// the same with a digest one off, and one multiple of n up (still the same residue)
					put(verIn{x: P.x, y: P.y, kind: "dig", dig: b32(mod(add(new(big.Int).SetBytes(dig), big1), ecN)), r: rr, s: s, label: names[R] + ", digest+1"})
					put(verIn{x: P.x, y: P.y, kind: "dig", dig: add(new(big.Int).SetBytes(dig), mul(ecN, i2(r.Int63n(1000)+1))).Bytes(), r: rr, s: s, label: names[R] + ", digest+n"})
				}
			}
		}
	}
	// consistent under keys nobody has the private key of
	for _, P := range oddPoints() {
		s, t := rs(), rs()
		R := padd(pmul(s, ecG), pmul(t, P))
		rr := mod(sub(t, s), ecN)
		put(verIn{x: P.x, y: P.y, kind: "dig", dig: b32(mod(sub(rr, R.x), ecN)), r: rr, s: s, label: "unowned key"})
		put(verIn{x: P.x, y: sub(ecP, P.y), kind: "dig", dig: b32(mod(sub(rr, R.x), ecN)), r: rr, s: s, label: "unowned key, negated"})
	}
	// infinity: [s]G = -[t]P
	for i := 0; i < 4; i++ {
		d := []*big.Int{rs(), i2(1), nm2, i2(2)}[i]
		t := rs()
		s := mod(mul(new(big.Int).Neg(t), d), ecN)
		rr := mod(sub(t, s), ecN)
		if rr.Sign() == 0 || s.Sign() == 0 {
			continue
		}
		P := pmul(d, ecG)
		put(verIn{x: P.x, y: P.y, kind: "dig", dig: b32(rr), r: rr, s: s, label: "R at infinity"})
		// the same for a message: t = e/(1+d)
		for _, msg := range [][]byte{nil, []byte("abc"), r.Bytes(100)} {
			var hd []byte
			if call(func() { hd, _ = mkPub(P.x, P.y).SM3Digest(msg, nil) }) == "" && len(hd) > 0 {
				e := mod(new(big.Int).SetBytes(hd), ecN)
				t := mod(mul(e, inv(add(d, big1), ecN)), ecN)
				put(verIn{x: P.x, y: P.y, kind: "msg", msg: msg, r: e, s: mod(mul(new(big.Int).Neg(t), d), ecN), label: "R at infinity, message"})
			}
		}
		// doubling: [s]G = [t]P
		s = mod(mul(t, d), ecN)
		rr = mod(sub(t, s), ecN)
		if rr.Sign() == 0 {
			continue
		}
		R := pmul(add(s, s), ecG)
		put(verIn{x: P.x, y: P.y, kind: "dig", dig: b32(mod(sub(rr, R.x), ecN)), r: rr, s: s, label: "[s]G=[t]P"})
	}
	// the ends of the ranges, with digests for which the equation holds
	for i := 0; i < 3; i++ {
		d, v := []*big.Int{rs(), i2(1), nm2}[i], rs()
		P := pmul(d, ecG)
		R := pmul(mul(v, d), ecG)
		e := mod(sub(v, R.x), ecN)
		for _, s := range []*big.Int{big0, ecN, sub(big0, ecN), add(ecN, ecN)} {
			put(verIn{x: P.x, y: P.y, kind: "dig", dig: b32(e), r: v, s: s, label: "s a multiple of n"})
		}
		R = pmul(mul(v, add(d, big1)), ecG)
		for _, rr := range []*big.Int{big0, ecN, sub(big0, ecN), add(ecN, ecN)} {
			put(verIn{x: P.x, y: P.y, kind: "dig", dig: b32(mod(sub(big0, R.x), ecN)), r: rr, s: v, label: "r a multiple of n"})
			put(verIn{x: P.x, y: P.y, kind: "dig", dig: b32(mod(sub(rr, R.x), ecN)), r: rr, s: v, label: "r a multiple of n"})
		}
		put(verIn{x: P.x, y: P.y, kind: "dig", dig: make([]byte, 32), r: big0, s: big0, label: "both zero"})
	}
	// t = 0
	for i := 0; i < 4; i++ {
		d := rs()
		P := pmul(d, ecG)
		s := ext[i]
		rr := sub(ecN, s)
		x := pmul(s, ecG).x
		put(verIn{x: P.x, y: P.y, kind: "dig", dig: b32(mod(sub(rr, x), ecN)), r: rr, s: s, label: "r+s=n"})
		put(verIn{x: P.x, y: P.y, kind: "dig", dig: b32(rr), r: rr, s: s, label: "r+s=n"})
	}
	// honest signatures made with the driver's own arithmetic, then altered
	reps := 2
	if !c.Quick {
		reps = 20
	}
	for n := 0; n < reps; n++ {
		d := r.BigIn(big1, nm2)
		P := pmul(d, ecG)
		pub := mkPub(P.x, P.y)
		msg, uid := r.Bytes(r.Intn(100)), r.Bytes(r.Intn(30))
		if n == 0 {
			uid = nil
		}
		var hd []byte
		if call(func() { hd, _ = pub.SM3Digest(msg, uid) }) != "" || len(hd) == 0 {
			hd = make([]byte, 32)
		}
		k := rs()
		R := pmul(k, ecG)
		rr := mod(add(new(big.Int).SetBytes(hd), R.x), ecN)
		s := mod(mul(inv(add(d, big1), ecN), sub(k, mul(rr, d))), ecN)
		base := verIn{x: P.x, y: P.y, kind: "msg", msg: msg, uid: uid, dig: hd, r: rr, s: s, label: "honest"}
		both := func(label string, f func(v *verIn)) {
			for _, kind := range []string{"msg", "dig"} {
				v := base
				v.kind, v.label = kind, label
				v.msg, v.uid, v.dig = clone(v.msg), clone(v.uid), clone(v.dig)
				f(&v)
				put(v)
			}
		}
		both("honest", func(v *verIn) {})
		for _, z := range []struct {
			n string
			x *big.Int
		}{{"0", big0}, {"n", ecN}, {"1", big1}, {"n-1", nm1}, {"negative", new(big.Int).Neg(big1)}, {"2^256", new(big.Int).Lsh(big1, 256)}, {"2^256-1", sub(new(big.Int).Lsh(big1, 256), big1)}} {
			both("r:="+z.n, func(v *verIn) { v.r = z.x })
			both("s:="+z.n, func(v *verIn) { v.s = z.x })
		}
		both("r+n", func(v *verIn) { v.r = add(v.r, ecN) })
		both("s+n", func(v *verIn) { v.s = add(v.s, ecN) })
		both("r+2^256", func(v *verIn) { v.r = add(v.r, new(big.Int).Lsh(big1, 256)) })
		both("s+2^256", func(v *verIn) { v.s = add(v.s, new(big.Int).Lsh(big1, 256)) })
		both("r-n", func(v *verIn) { v.r = sub(v.r, ecN) })
		both("s-n", func(v *verIn) { v.s = sub(v.s, ecN) })
		both("-r", func(v *verIn) { v.r = new(big.Int).Neg(v.r) })
		both("-s", func(v *verIn) { v.s = new(big.Int).Neg(v.s) })
		both("n-s", func(v *verIn) { v.s = sub(ecN, v.s) })
		both("n-r", func(v *verIn) { v.r = sub(ecN, v.r) })
		both("r<->s", func(v *verIn) { v.r, v.s = v.s, v.r })
		both("r+1", func(v *verIn) { v.r = add(v.r, big1) })
		both("s+1", func(v *verIn) { v.s = add(v.s, big1) })
		both("r bit", func(v *verIn) { b := r.Intn(256); v.r = new(big.Int).SetBit(v.r, b, v.r.Bit(b)^1) })
		both("s bit", func(v *verIn) { b := r.Intn(256); v.s = new(big.Int).SetBit(v.s, b, v.s.Bit(b)^1) })
		both("other key", func(v *verIn) { q := pmul(rs(), ecG); v.x, v.y = q.x, q.y })
		both("negated key", func(v *verIn) { v.y = sub(ecP, v.y) })
		both("key off the curve", func(v *verIn) { v.y = add(v.y, big1) })
		both("key off the curve (x)", func(v *verIn) { v.x = mod(add(v.x, big1), ecP) })
		both("key (0,0)", func(v *verIn) { v.x, v.y = big0, big0 })
		both("key x+p", func(v *verIn) { v.x = add(v.x, ecP) })
		both("key y+p", func(v *verIn) { v.y = add(v.y, ecP) })
		both("key y-p", func(v *verIn) { v.y = sub(v.y, ecP) })
		both("key x-p", func(v *verIn) { v.x = sub(v.x, ecP) })
		both("key G", func(v *verIn) { v.x, v.y = ecG.x, ecG.y })
		both("other message or digest", func(v *verIn) {
			if len(v.msg) == 0 {
				v.msg = []byte{0}
			} else {
				v.msg[r.Intn(len(v.msg))] ^= 1 << uint(r.Intn(8))
			}
			v.dig[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		})
		both("message or digest extended", func(v *verIn) { v.msg = append(v.msg, 0); v.dig = append(v.dig, 0) })
		both("leading zero added", func(v *verIn) { v.msg = append([]byte{0}, v.msg...); v.dig = append([]byte{0}, v.dig...) })
		both("digest shortened", func(v *verIn) { v.msg = nil; v.dig = v.dig[:31] })
		both("digest longer, same tail", func(v *verIn) { v.dig = append([]byte{1}, v.dig...); v.msg = append(v.msg, v.msg...) })
		for _, u := range [][]byte{nil, {0}, []byte("1234567812345678"), append(clone(uid), 0), r.Bytes(8192), r.Bytes(8191), r.Bytes(65536 / 8)} {
			v := base
			v.uid, v.label = u, "other user id"
			put(v)
		}
		// a user id and message that concatenate to the same bytes
		if len(uid) > 1 {
			v := base
			v.uid, v.msg, v.label = uid[:len(uid)-1], append([]byte{uid[len(uid)-1]}, msg...), "user id boundary moved"
			put(v)
		}
		// consistent signatures under keys that are not points: accepting one is a key validation failure
		for _, bad := range []*pt{{P.x, add(P.y, big1)}, {add(P.x, ecP), P.y}, {P.x, add(P.y, ecP)}} {
			tt := rs()
			ss := rs()
			RR := padd(pmul(ss, ecG), pmul(tt, &pt{mod(bad.x, ecP), mod(bad.y, ecP)}))
			r2 := mod(sub(tt, ss), ecN)
			if RR == nil || r2.Sign() == 0 {
				continue
			}
			put(verIn{x: bad.x, y: bad.y, kind: "dig", dig: b32(mod(sub(r2, RR.x), ecN)), r: r2, s: ss, label: "consistent under an invalid key"})
		}
	}
	out := make([]M, len(ins))
	parallel(len(ins), func(i int) { out[i] = doVerify(ins[i]) })
	for _, m := range out {
		c.Out.Put(m)
	}
}

// ---- DER of signatures

func doUnmarshal(der []byte, label string) M {
	e := M{"op": "unmarshal", "case": label, "der": B(clone(der)), "r": SZ(big0), "s": SZ(big0), "err": "", "got": false, "back": false}
	in := clone(der)
	e["panic"] = call(func() {
		rr, ss, err := sm2.UnmarshalSign(in)
		e["err"] = es(err)
		e["got"] = rr != nil || ss != nil
		if err == nil {
			if rr == nil || ss == nil {
				e["err"] = "nil number"
				return
			}
			e["r"], e["s"] = SZ(rr), SZ(ss)
			b, err := sm2.MarshalSign(rr, ss)
			e["back"] = err == nil && bytes.Equal(b, der)
		}
	})
	return e
}

func doMarshal(rr, ss *big.Int, label string) M {
	e := M{"op": "marshal", "case": label, "r": SZ(rr), "s": SZ(ss), "der": B{}, "err": "", "back": false}
	e["panic"] = call(func() {
		a, b := new(big.Int).Set(rr), new(big.Int).Set(ss)
		der, err := sm2.MarshalSign(a, b)
		e["err"] = es(err)
		e["der"] = B(der)
		if err == nil {
			r2, s2, err := sm2.UnmarshalSign(der)
			e["back"] = err == nil && r2.Cmp(rr) == 0 && s2.Cmp(ss) == 0
		}
	})
	return e
}

func tlv(tag byte, body []byte) []byte {
	n := len(body)
	var l []byte
	switch {
	case n < 128:
		l = []byte{byte(n)}
	case n < 256:
		l = []byte{0x81, byte(n)}
	case n < 65536:
		l = []byte{0x82, byte(n >> 8), byte(n)}
	default:
		l = []byte{0x83, byte(n >> 16), byte(n >> 8), byte(n)}
	}
	return append(append([]byte{tag}, l...), body...)
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func derInt(x *big.Int) []byte {
	b := x.Bytes()
	if len(b) == 0 || b[0] >= 128 {
		b = append([]byte{0}, b...)
	}
	return tlv(2, b)
}

func sm2Der(c *Ctx) {
	r := c.Rng
	var ms []M
	nums := []*big.Int{big0, i2(1), i2(127), i2(128), i2(255), i2(256), i2(32767), i2(32768), nm1, ecN, new(big.Int).Lsh(big1, 255), sub(new(big.Int).Lsh(big1, 255), big1),
		new(big.Int).Lsh(big1, 247), new(big.Int).Lsh(big1, 256), sub(new(big.Int).Lsh(big1, 256), big1), i2(-1), i2(-128), i2(-129), i2(-255), i2(-256), new(big.Int).Neg(ecN),
		new(big.Int).Lsh(big1, 480), new(big.Int).Lsh(big1, 1000), new(big.Int).Lsh(big1, 1023), new(big.Int).Lsh(big1, 2040)}
	for i := 0; i < 30; i++ {
		nums = append(nums, new(big.Int).SetBytes(r.Bytes(1+r.Intn(34))))
	}
	for i, a := range nums {
		for j := 0; j < 4; j++ {
			ms = append(ms, doMarshal(a, nums[(i*7+j*5+1)%len(nums)], "pair"))
		}
		ms = append(ms, doMarshal(a, a, "pair"))
	}
	// decoding: canonical ones and every kind of deviation
	reps := 3
	if !c.Quick {
		reps = 25
	}
	var vs []verIn
	for n := 0; n < reps; n++ {
		d := r.BigIn(big1, nm2)
		P := pmul(d, ecG)
		dig := r.Bytes(32)
		var R, rr, s *big.Int
		for {
			k := r.BigIn(big1, nm1)
			R = pmul(k, ecG).x
			rr = mod(add(new(big.Int).SetBytes(dig), R), ecN)
			s = mod(mul(inv(add(d, big1), ecN), sub(k, mul(rr, d))), ecN)
			// one with the sign octet, one without
			if (n%3 == 0) == (rr.BitLen() == 256) {
				break
			}
		}
		ri, si := derInt(rr), derInt(s)
		good := tlv(0x30, cat(ri, si))
		try1 := func(der []byte, label string) {
			ms = append(ms, doUnmarshal(der, label))
			vs = append(vs, verIn{x: P.x, y: P.y, kind: "dig", dig: dig, der: der, label: "der " + label})
		}
		try1(good, "canonical")
		for i := 0; i < len(good); i++ {
			ms = append(ms, doUnmarshal(good[:i], "truncated"))
		}
		for i := range good {
			for b := 0; b < 8; b++ {
				x := clone(good)
				x[i] ^= 1 << uint(b)
				if i < 5 || b == i%8 {
					ms = append(ms, doUnmarshal(x, "bit"))
				}
			}
		}
		body := cat(ri, si)
		try1(append(clone(good), 0), "trailing zero")
		try1(append(clone(good), 5, 0), "trailing null")
		try1(append(clone(good), good...), "twice")
		try1(append([]byte{0}, good...), "leading zero")
		try1(tlv(0x30, cat(ri, si, []byte{5, 0})), "third element")
		try1(tlv(0x30, cat(ri, si, []byte{0})), "trailing octet inside")
		try1(tlv(0x30, cat(ri, si, si)), "three integers")
		try1(tlv(0x30, cat([]byte{5, 0}, ri, si)), "element before")
		try1(tlv(0x30, cat(ri, []byte{5, 0}, si)), "element between")
		try1(tlv(0x30, ri), "one integer")
		try1(tlv(0x30, nil), "empty sequence")
		try1(nil, "empty")
		try1(body, "no sequence")
		try1(tlv(0x31, body), "set")
		try1(tlv(0x10, body), "primitive sequence")
		try1(tlv(0x70, body), "other class")
		try1(append([]byte{0x30, 0x81, byte(len(body))}, body...), "long-form length")
		try1(append([]byte{0x30, 0x82, 0, byte(len(body))}, body...), "long-form length 2")
		try1(append([]byte{0x30, 0x84, 0, 0, 0, byte(len(body))}, body...), "long-form length 4")
		try1(append([]byte{0x30, 0x85, 0, 0, 0, 0, byte(len(body))}, body...), "long-form length 5")
		try1(append(append([]byte{0x30, 0x80}, body...), 0, 0), "indefinite length")
		ib := func(x *big.Int) []byte { t := derInt(x); return t[2:] }
		li := func(x *big.Int) []byte { return append([]byte{2, 0x81, byte(len(ib(x)))}, ib(x)...) }
		try1(tlv(0x30, cat(li(rr), si)), "long-form r")
		try1(tlv(0x30, cat(ri, li(s))), "long-form s")
		try1(tlv(0x30, cat(tlv(2, append([]byte{0}, ib(rr)...)), si)), "padded r")
		try1(tlv(0x30, cat(ri, tlv(2, append([]byte{0}, ib(s)...)))), "padded s")
		try1(tlv(0x30, cat(tlv(2, append([]byte{0, 0, 0}, ib(rr)...)), si)), "padded r 3")
		try1(tlv(0x30, cat(tlv(2, rr.Bytes()), tlv(2, s.Bytes()))), "no sign octet")
		try1(tlv(0x30, cat(tlv(2, append([]byte{0xFF}, ib(rr)...)), si)), "r with FF")
		try1(tlv(0x30, cat(tlv(0x22, ib(rr)), si)), "constructed r")
		try1(tlv(0x30, cat(tlv(4, ib(rr)), si)), "octet string r")
		try1(tlv(0x30, cat(tlv(0x0a, ib(rr)), si)), "enumerated r")
		try1(tlv(0x30, cat(tlv(2, nil), si)), "empty r")
		try1(tlv(0x30, cat(ri, tlv(2, nil))), "empty s")
		try1(tlv(0x30, tlv(0x30, body)), "nested")
		try1(tlv(0x30, cat(ri, tlv(0x30, si))), "nested s")
		try1(cat(b32(rr), b32(s)), "raw pair")
		try1(tlv(0x30, cat(derInt(add(rr, ecN)), si)), "r+n")
		try1(tlv(0x30, cat(ri, derInt(add(s, ecN)))), "s+n")
		try1(tlv(0x30, cat(tlv(2, []byte{0}), si)), "r zero")
		try1(tlv(0x30, cat(derInt(s), derInt(rr))), "swapped")
		long := tlv(2, r.Bytes(130))
		try1(tlv(0x30, cat(long, si)), "130-octet r")
		x := tlv(0x30, cat(tlv(2, append([]byte{1}, r.Bytes(130)...)), si))
		try1(x, "131-octet r")
		for t := 0; t < 60; t++ {
			b := r.Bytes(r.Intn(12))
			if len(b) > 1 && r.Intn(2) == 0 {
				b[0], b[1] = 0x30, byte(len(b)-2)
			}
			if len(b) > 4 && r.Intn(2) == 0 {
				b[2], b[3] = 2, byte(1+r.Intn(3))
			}
			ms = append(ms, doUnmarshal(b, "random"))
		}
	}
	// small exhaustive space: every sequence of two integers with contents of at most two octets over a few values
	vals := []byte{0x00, 0x01, 0x7f, 0x80, 0xff}
	var cs [][]byte
	cs = append(cs, nil)
	for _, a := range vals {
		cs = append(cs, []byte{a})
		for _, b := range vals {
			cs = append(cs, []byte{a, b})
		}
	}
	for _, a := range cs {
		for _, b := range cs {
			ms = append(ms, doUnmarshal(tlv(0x30, cat(tlv(2, a), tlv(2, b))), "small"))
		}
	}
	for _, m := range ms {
		c.Out.Put(m)
	}
	out := make([]M, len(vs))
	parallel(len(vs), func(i int) { out[i] = doVerify(vs[i]) })
	for _, m := range out {
		c.Out.Put(m)
	}
}
