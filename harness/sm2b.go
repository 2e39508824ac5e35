package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"fmt"
	"io"
	"math/big"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
)

// ---- nonces

func sm2Nonce(c *Ctx) {
	r := c.Rng
	nsig := 120
	if !c.Quick {
		nsig = 700
	}
	// signatures under one key, every entry point, each with its own source or sharing one
	for variant := 0; variant < 4; variant++ {
		d := r.BigIn(big1, nm2)
		k := mkKey(d)
		var sigs []M
		var rd []int
		trouble := ""
		shared := r.Fork()
		msg := r.Bytes(20)
		for i := 0; i < nsig; i++ {
			var src io.Reader = shared
			if variant%2 == 1 {
				src = r.Fork()
			}
			if variant == 2 && i%3 == 0 {
				src = oneByte{src}
			}
			cnt := &counting{r: src}
			var rr, ss *big.Int
			var err error
			m := msg // the same message again and again: deterministic reuse of a nonce would show
			if i%2 == 1 {
				m = r.Bytes(r.Intn(40))
			}
			p := call(func() {
				switch (i + variant) % 4 {
				case 0:
					rr, ss, err = sm2.SignRS(cnt, k, m, nil)
				case 1:
					rr, ss, err = k.SignDigestRS(cnt, sm3.Sum(m))
				case 2:
					var der []byte
					if der, err = sm2.Sign(cnt, k, m, []byte("id")); err == nil {
						rr, ss, err = sm2.UnmarshalSign(der)
					}
				case 3:
					var der []byte
					if der, err = k.SignDigest(cnt, sm3.Sum(m)); err == nil {
						rr, ss, err = sm2.UnmarshalSign(der)
					}
				}
			})
			if p != "" || err != nil || rr == nil || ss == nil {
				trouble = "signing failed: " + p + es(err)
				break
			}
			sigs = append(sigs, M{"r": N(rr), "s": N(ss)})
			rd = append(rd, cnt.n)
		}
		if trouble != "" {
			c.Out.Put(M{"op": "sign", "case": "nonce run", "panic": trouble})
			continue
		}
		c.Out.Put(M{"op": "nonces", "case": variant, "d": N(d), "sigs": sigs, "rd": rd})
	}
	// redraws: the rejected nonce is not used, the output is a signature
	reps := 3
	if !c.Quick {
		reps = 30
	}
	var ins []signIn
	ins = append(ins, retryCases(r, reps)...)
	// a source that keeps delivering octets that lead to rejection, then ends: no signature
	// (every call reads at least 32 octets, so the source below ends within the redraw at the latest)
	d0 := r.BigIn(big1, nm2)
	// failing sources
	for j := 0; j <= 100; j++ {
		if j >= 32 && c.Quick && j%7 != 0 {
			continue
		}
		for e := 0; e < 2; e++ {
			err := errReader
			if e == 1 {
				err = io.EOF
			}
			if j < 32 {
				// fewer octets than any full-range nonce needs
				ins = append(ins, signIn{d: d0, kind: []string{"msg", "dig"}[j%2], msg: r.Bytes(10), dig: r.Bytes(32), entry: (j + e) % 4, srcKind: "fails",
					src: &failAfter{r: r.Fork(), n: j, err: err}, caseLabel: "source fails"})
			}
		}
	}
	out := make([]M, len(ins))
	parallel(len(ins), func(i int) { out[i], _, _ = doSign(ins[i]) })
	for _, m := range out {
		c.Out.Put(m)
	}
	// a source that fails in the middle of what a successful call would have read, first draw and redraw
	for rep := 0; rep < reps; rep++ {
		d := r.BigIn(big1, nm2)
		seed := r.Bytes(400)
		cnt := &counting{r: &script{b: clone(seed), r: NewRng(1)}}
		k := mkKey(d)
		call(func() { sm2.SignDigestRS(cnt, k, []byte{7}) })
		per := cnt.n // octets of one draw
		kk := nonceFor(d, seed)
		if kk == nil || kk.Sign() == 0 || per == 0 || per > 200 {
			continue
		}
		cuts := []int{per - 1, per / 2, 1}
		for _, cut := range cuts {
			m, _, _ := doSign(signIn{d: d, kind: "dig", dig: r.Bytes(32), entry: rep % 4, srcKind: "fails", src: &failAfter{r: &script{b: clone(seed), r: NewRng(1)}, n: cut, err: errReader}, caseLabel: "source fails in the draw"})
			// an implementation may draw a different amount for another digest; only a source shorter than 32 octets must fail
			if cut < 32 || per == cnt.n {
				c.Out.Put(m)
			}
		}
		digs := rejectDigests(d, kk)
		for _, name := range keysOf(digs) {
			e := digs[name]
			for _, extra := range []int{0, 1, 31} {
				// the redraw finds fewer than 32 octets left
				m, _, _ := doSign(signIn{d: d, kind: "dig", dig: b32(e), entry: (rep + extra) % 4, srcKind: "fails", src: &failAfter{r: &script{b: clone(seed), r: NewRng(1)}, n: per + extra, err: errReader}, caseLabel: "source fails in the redraw " + name})
				c.Out.Put(m)
			}
		}
	}
	// same source, same result
	for e := 0; e < 6; e++ {
		d := r.BigIn(big1, nm2)
		k := mkKey(d)
		seed := r.Bytes(2000)
		msg := r.Bytes(9)
		var outs []B
		p := ""
		for i := 0; i < 30 && p == ""; i++ {
			src := &script{b: clone(seed), r: NewRng(5)}
			var b []byte
			p = call(func() {
				switch e {
				case 0:
					b, _ = sm2.Sign(src, k, msg, nil)
				case 1:
					b, _ = k.SignDigest(src, msg)
				case 2:
					x, y, err := sm2.SignRS(src, k, msg, msg)
					if err == nil {
						b = cat(b32(x), b32(y))
					}
				case 3:
					x, y, err := k.SignDigestRS(src, msg)
					if err == nil {
						b = cat(b32(x), b32(y))
					}
				case 4:
					b, _ = sm2.Encryt(src, &k.PublicKey, msg)
				case 5:
					kk, err := sm2.GenerateKey(src)
					if err == nil {
						b = kk.D.Bytes()
					}
				}
			})
			outs = append(outs, B(b))
		}
		c.Out.Put(M{"op": "source", "case": e, "outs": outs})
	}
	// encryption: first points differ, octets are drawn, failing sources give an error
	for variant := 0; variant < 2; variant++ {
		d := r.BigIn(big1, nm2)
		k := mkKey(d)
		var ks []B
		var rd []int
		shared := r.Fork()
		for i := 0; i < nsig; i++ {
			cnt := &counting{r: shared}
			var ct []byte
			call(func() { ct, _ = sm2.Encryt(cnt, &k.PublicKey, []byte{byte(i), 1, 2, 3, 4}) })
			if len(ct) < 65 {
				ct = make([]byte, 65)
			}
			ks = append(ks, B(new(big.Int).SetBytes(ct[1:33]).Bytes()))
			rd = append(rd, cnt.n)
		}
		c.Out.Put(M{"op": "scalars", "case": "first points", "ks": ks, "rd": rd, "spread": false})
	}
	for j := 0; j < 32; j++ {
		d := r.BigIn(big1, nm2)
		c.Out.Put(doEncrypt(d, pmul(d, ecG), r.Bytes(5+j), &failAfter{r: r.Fork(), n: j, err: []error{errReader, io.EOF}[j%2]}, "fails", "source fails"))
	}
}

// ---- digest

func doDigest(x, y *big.Int, uid, msg []byte, label string) M {
	e := M{"op": "digest", "case": label, "x": N(x), "y": N(y), "uid": B(clone(uid)), "msg": B(clone(msg)), "out": B{}, "err": ""}
	e["panic"] = call(func() {
		out, err := mkPub(x, y).SM3Digest(msg, uid)
		e["out"], e["err"] = B(out), es(err)
	})
	return e
}

func sm2Digest(c *Ctx) {
	r := c.Rng
	var ms []M
	n := 4
	if !c.Quick {
		n = 40
	}
	for _, d := range testScalars(r, n) {
		q := pmul(d, ecG)
		ms = append(ms, doDigest(q.x, q.y, nil, r.Bytes(r.Intn(100)), "keys"))
		ms = append(ms, doDigest(q.x, q.y, r.Bytes(r.Intn(40)), r.Bytes(r.Intn(100)), "keys"))
	}
	// coordinates with many leading zeros
	for i, k := i2(0), 0; k < 6; i = add(i, big1) {
		if p := lift(i); p != nil {
			ms = append(ms, doDigest(p.x, p.y, nil, []byte("m"), "small x"))
			ms = append(ms, doDigest(p.x, p.neg().y, []byte("u"), []byte("m"), "small x"))
			k++
		}
	}
	d := r.BigIn(big1, nm2)
	q := pmul(d, ecG)
	for _, u := range testUids(r) {
		ms = append(ms, doDigest(q.x, q.y, u, r.Bytes(11), "uids"))
	}
	for _, n := range []int{3, 5, 7, 8, 9, 127, 128, 129, 4095, 4096, 4097, 8189, 8190, 8191, 8192, 8193, 16383, 65535, 65536} {
		ms = append(ms, doDigest(q.x, q.y, r.Bytes(n), r.Bytes(11), "uid lengths"))
	}
	for _, n := range signLens {
		ms = append(ms, doDigest(q.x, q.y, nil, r.Bytes(n), "messages"))
	}
	ms = append(ms, doDigest(q.x, q.y, nil, nil, "nil message"))
	for _, u := range [][]byte{[]byte("1234567812345678"), []byte("1234567812345679"), []byte("12345678"), bytes.Repeat([]byte{0}, 16), {0}} {
		ms = append(ms, doDigest(q.x, q.y, u, []byte("abc"), "similar ids"))
	}
	// signing and verifying use the same digest and refuse the same ids
	for i, u := range [][]byte{nil, r.Bytes(8191), r.Bytes(8192), r.Bytes(8193), r.Bytes(16384), r.Bytes(65536)} {
		m, rr, ss := doSign(signIn{d: d, kind: "msg", msg: r.Bytes(5), uid: u, src: r.Fork(), srcKind: "drbg", entry: i % 4, caseLabel: "sign uid"})
		ms = append(ms, m)
		m, _, _ = doSign(signIn{d: d, kind: "msg", msg: r.Bytes(5), uid: u, src: r.Fork(), srcKind: "drbg", entry: (i + 2) % 4, caseLabel: "sign uid"})
		ms = append(ms, m)
		_ = rr
		_ = ss
		// a pair that verifies for the 16-bit truncation of the length
		if len(u) > 8191 {
			id := u
			bl := uint16(len(id) * 8)
			z := sm3.New()
			z.Write([]byte{byte(bl >> 8), byte(bl)})
			z.Write(id)
			z.Write(cat(b32(ecA), b32(ecB), b32(ecG.x), b32(ecG.y), b32(q.x), b32(q.y)))
			msg := []byte("truncated id length")
			e := new(big.Int).SetBytes(sm3.Sum(append(z.Sum(nil), msg...)))
			k := r.BigIn(big1, nm1)
			r2 := mod(add(e, pmul(k, ecG).x), ecN)
			s2 := mod(mul(inv(add(d, big1), ecN), sub(k, mul(r2, d))), ecN)
			ms = append(ms, doVerify(verIn{x: q.x, y: q.y, kind: "msg", msg: msg, uid: u, r: r2, s: s2, label: "verify uid too long"}))
		}
	}
	for _, m := range ms {
		c.Out.Put(m)
	}
}

// ---- encryption

func doEncrypt(d *big.Int, q *pt, msg []byte, src io.Reader, srcKind, label string) M {
	e := M{"op": "encrypt", "case": label, "d": N(d), "x": N(q.x), "y": N(q.y), "xneg": q.x.Sign() < 0, "yneg": q.y.Sign() < 0, "msg": B(clone(msg)), "src": srcKind,
		"out": B{}, "err": "", "got": false, "decok": false, "dec": B{}}
	pub, done := heldPub(q.x, q.y)
	priv, done2 := heldKey(d)
	e["panic"] = call(func() {
		ct, err := sm2.Encryt(src, pub, msg)
		e["err"], e["got"], e["out"] = es(err), len(ct) > 0, B(ct)
		if err == nil && len(ct) > 0 {
			m, err := sm2.Decryt(priv, clone(ct))
			e["decok"], e["dec"] = err == nil, B(m)
		}
	})
	if e["panic"] == "" {
		done()
		done2()
	}
	return e
}

// oddPoints are points with extreme coordinates
func oddPoints() []*pt {
	var ps []*pt
	find := func(x *big.Int, step *big.Int, n int) {
		for i := 0; i < 200 && n > 0; i++ {
			if p := lift(x); p != nil {
				ps = append(ps, p, p.neg())
				n--
			}
			x = add(x, step)
		}
	}
	find(big0, big1, 3)
	find(sub(ecP, big1), i2(-1), 2)
	find(ecN, big1, 2)
	find(sub(ecN, big1), i2(-1), 1)
	find(new(big.Int).Lsh(big1, 248), i2(-1), 1)
	find(new(big.Int).Lsh(big1, 128), i2(-1), 1)
	return ps
}

// sm2EncSmall encrypts with a source that starts with a small number and looks the nonce up among the small ones
func sm2EncSmall(q *pt, msg []byte, v byte, rest io.Reader) M {
	e := M{"op": "encryptk", "case": "unowned key", "k": N(big1), "x": N(q.x), "y": N(q.y), "msg": B(clone(msg)), "out": B{}, "err": ""}
	var ct []byte
	e["panic"] = call(func() {
		var err error
		ct, err = sm2.Encryt(io.MultiReader(bytes.NewReader(append(make([]byte, 39), v)), rest), mkPub(q.x, q.y), clone(msg))
		e["err"] = es(err)
	})
	if e["panic"] != "" || e["err"] != "" || len(ct) < 97 {
		return e
	}
	e["out"] = B(ct)
	for k, p := int64(1), ecG; k < 20; k++ {
		if bytes.Equal(ct[1:65], cat(b32(p.x), b32(p.y))) {
			e["k"] = N(i2(k))
			return e
		}
		p = padd(p, ecG)
	}
	return nil
}

// ---- long messages: a pattern of 64 octets repeated, then a tail; the trace holds the head of the
// ciphertext and some blocks of its body

func longMsg(pat []byte, n int, tail []byte) []byte {
	return append(bytes.Repeat(pat, n), tail...)
}

func longEvent(r *Rng, op, label string, d *big.Int, pat, tail []byte, n int, ct []byte) M {
	total := 64*n + len(tail)
	e := M{"op": op, "case": label, "d": N(d), "pat": B(pat), "n": n, "tail": B(tail), "mb": total >> 20, "lo": total & (1<<20 - 1), "win": []M{}, "head": B{}, "lenok": len(ct) == 97+total,
		"same": false, "err": "", "panic": ""}
	if len(ct) != 97+total {
		return e
	}
	e["head"] = B(clone(ct[:97]))
	body := ct[97:]
	blocks := (total + 31) / 32
	ks := map[int]bool{1: true, 2: true, 3: true, blocks: true, blocks - 1: true}
	for b := 7; b < 31; b++ {
		for j := -1; j < 3; j++ {
			ks[1<<uint(b)+j] = true
		}
	}
	for i := 0; i < 150; i++ {
		ks[1+r.Intn(blocks)] = true
	}
	var win []M
	for k := 1; k <= blocks; k++ {
		if ks[k] {
			hi := 32 * k
			if hi > total {
				hi = total
			}
			win = append(win, M{"k": k, "b": B(clone(body[32*(k-1) : hi]))})
		}
	}
	e["win"] = win
	return e
}

func sm2EncLong(r *Rng, d *big.Int, n int, tail []byte) M {
	pat := r.Bytes(64)
	msg := longMsg(pat, n, tail)
	q := pmul(d, ecG)
	var ct, back []byte
	var err, err2 error
	p := call(func() {
		if ct, err = sm2.Encryt(r, mkPub(q.x, q.y), msg); err == nil {
			back, err2 = sm2.Decryt(mkKey(d), ct)
		}
	})
	e := longEvent(r, "encryptlong", "long message", d, pat, tail, n, ct)
	e["panic"], e["err"], e["same"] = p, es(err)+es(err2), bytes.Equal(back, msg)
	return e
}

// a long ciphertext, intact or with one octet of block alter changed
func sm2DecLong(r *Rng, d *big.Int, n int, tail []byte, alter int) M {
	pat := r.Bytes(64)
	msg := longMsg(pat, n, tail)
	c1 := pmul(r.BigIn(big1, nm1), ecG)
	ct := ctFor(d, c1, unc(c1), msg)
	if alter > 0 {
		ct[97+32*(alter-1)+r.Intn(8)] ^= 1 << uint(r.Intn(8))
	}
	e := longEvent(r, "decryptlong", "long ciphertext", d, pat, tail, n, ct)
	if alter > 0 {
		at := 97 + 32*(alter-1)
		hi := at + 32
		if hi > len(ct) {
			hi = len(ct)
		}
		e["win"] = append(e["win"].([]M), M{"k": alter, "b": B(clone(ct[at:hi]))})
		e["case"] = "long ciphertext, one octet altered"
	}
	var out []byte
	var err error
	e["panic"] = call(func() { out, err = sm2.Decryt(mkKey(d), ct) })
	e["err"], e["same"] = es(err), bytes.Equal(out, msg)
	e["got"] = len(out) > 0
	return e
}

// numbers of 64-octet blocks of long messages: the counter of the key stream needs 9, 12, 17 (and 25) bits
func longBlocks(c *Ctx) []int {
	if c.Quick {
		return []int{312, 1100, 33000}
	}
	return []int{200, 312, 1100, 2500, 33000, 70000, 1<<23 + 3}
}

type zeroStream struct {
	d, k *big.Int
	n    int
}

// keys and nonces (found by search) whose key streams begin with n zero octets
func zeroStreams() []zeroStream {
	d, _ := new(big.Int).SetString("a5f4cb2d9f92ce2941fed7de6b862bd03b5b09ab7bb733f1f5e8e59c6efebc1", 16)
	var out []zeroStream
	for _, x := range []struct {
		k string
		n int
	}{{"4d0000000000000000000000000000000000000000000000c8ae", 2}, {"4e00000000000000000000000000000000000000000000016f9d", 2},
		{"4d00000000000000000000000000000000000000000000ed5031", 3}, {"4e000000000000000000000000000000000000000000008fdb65", 3}} {
		k, _ := new(big.Int).SetString(x.k, 16)
		s := pmul(k, pmul(d, ecG))
		for i, o := range kdfRef(cat(b32(s.x), b32(s.y)), 4) {
			if (o == 0) != (i < x.n) {
				die("not a zero stream: " + x.k)
			}
		}
		out = append(out, zeroStream{d, k, x.n})
	}
	return out
}

var encLens = []int{1, 2, 3, 15, 16, 31, 32, 33, 47, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 255, 256, 257, 1000, 1024}

func sm2Enc(c *Ctx) {
	r := c.Rng
	type job struct {
		d     *big.Int
		q     *pt
		msg   []byte
		src   io.Reader
		sk    string
		label string
	}
	var jobs []job
	mk := func(d *big.Int, msg []byte, label string) {
		var src io.Reader = r.Fork()
		sk := "drbg"
		switch r.Intn(5) {
		case 0:
			src, sk = oneByte{src}, "one"
		case 1:
			src, sk = &script{b: make([]byte, 80), r: src}, "zeros"
		case 2:
			src, sk = &script{b: bytes.Repeat([]byte{255}, 80), r: src}, "ones"
		}
		jobs = append(jobs, job{d, pmul(d, ecG), msg, src, sk, label})
	}
	n := 3
	if !c.Quick {
		n = 40
	}
	for i, d := range testScalars(r, n) {
		mk(d, r.Bytes(encLens[i%len(encLens)]), "keys")
		mk(d, r.Bytes(1+r.Intn(70)), "keys")
	}
	d := r.BigIn(big1, nm2)
	for _, l := range encLens {
		mk(d, r.Bytes(l), "lengths")
	}
	if !c.Quick {
		for l := 1; l < 200; l++ {
			mk(d, r.Bytes(l), "lengths")
		}
		mk(d, r.Bytes(9000), "long")
		mk(d, r.Bytes(70000), "long")
	}
	mk(d, r.Bytes(8192+32), "more than 256 blocks of key stream")
	mk(d, make([]byte, 40), "zero message")
	mk(d, bytes.Repeat([]byte{255}, 40), "ff message")
	// many one-octet messages: the key stream is all zero for one nonce in 256 and must be redrawn
	reps := 700
	if !c.Quick {
		reps = 4000
	}
	for i := 0; i < reps; i++ {
		jobs = append(jobs, job{d, pmul(d, ecG), []byte{byte(i)}, r.Fork(), "drbg", "one octet"})
	}
	// nonces known to give a key stream that begins with two or three zero octets: redrawn
	// when the message is no longer than they are, used when it is
	for _, z := range zeroStreams() {
		for l := 1; l <= 5; l++ {
			src := &script{b: sub(z.k, big1).FillBytes(make([]byte, 40)), r: r.Fork()}
			jobs = append(jobs, job{z.d, pmul(z.d, ecG), r.Bytes(l), src, "script", fmt.Sprint("key stream beginning with ", z.n, " zeros")})
		}
	}
	// refused: empty message, points off the curve
	q := pmul(d, ecG)
	for _, p := range []*pt{{q.x, add(q.y, big1)}, {mod(add(q.x, big1), ecP), q.y}, {big0, big0}, {add(q.x, ecP), q.y}, {q.x, add(q.y, ecP)}, {q.x, sub(q.y, ecP)}, {new(big.Int).Neg(q.x), q.y},
		{q.x, sub(ecP, add(q.y, big1))}, {big1, big1}, {ecP, ecP}, {q.x, big0}} {
		jobs = append(jobs, job{d, p, r.Bytes(10), r.Fork(), "drbg", "off the curve"})
	}
	jobs = append(jobs, job{d, q, nil, r.Fork(), "drbg", "empty"}, job{d, q, []byte{}, r.Fork(), "drbg", "empty"})
	out := make([]M, len(jobs))
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		out[i] = doEncrypt(j.d, j.q, j.msg, j.src, j.sk, j.label)
	})
	// one-octet messages: all but a sample are judged by length and by decrypting only, the ones close to a redraw in full
	kept := 0
	for i, m := range out {
		if jobs[i].label == "one octet" {
			if kept++; kept > 500 && c.Quick {
				ok := m["panic"] == "" && m["err"] == "" && m["decok"] == true
				if ok {
					ct := []byte(m["out"].(B))
					ok = len(ct) == 98 && ct[97] != m["msg"].(B)[0]
				}
				if ok {
					continue
				}
			}
		}
		c.Out.Put(m)
	}
	// keys nobody has the private key of, with a source of small numbers: the nonce is looked up
	for i, p := range oddPoints() {
		for v := byte(0); v < 3; v++ {
			if m := sm2EncSmall(p, r.Bytes(1+(7*i+int(v)*30)%80), v, r.Fork()); m != nil {
				c.Out.Put(m)
			}
		}
	}
	ls := longBlocks(c)
	for i, n := range ls {
		c.Out.Put(sm2EncLong(r, d, n, r.Bytes([]int{0, 7, 33, 64, 96, 1, 32}[i%7])))
	}
	// first points, shared points and hashes with leading zero octets: find them by search
	want := map[string]int{"x1": 1, "y1": 1, "c3": 1, "x2": 1, "y2": 1}
	for t := 0; t < 50 && len(want) > 0; t++ {
		const batch = 96
		rs := make([]*Rng, batch)
		for i := range rs {
			rs[i] = r.Fork()
		}
		ms := make([]M, batch)
		hits := make([]string, batch)
		parallel(batch, func(i int) {
			m := doEncrypt(d, q, rs[i].Bytes(20), rs[i], "drbg", "leading zeros")
			ms[i] = m
			ct, _ := m["out"].(B)
			if len(ct) < 97 || m["panic"] != "" {
				hits[i] = "failed"
				return
			}
			switch {
			case ct[1] == 0:
				hits[i] = "x1"
			case ct[33] == 0:
				hits[i] = "y1"
			case ct[65] == 0:
				hits[i] = "c3"
			default:
				x, y := new(big.Int).SetBytes(ct[1:33]), new(big.Int).SetBytes(ct[33:65])
				if on(x, y) {
					s := pmul(d, &pt{x, y})
					if s.x.BitLen() <= 248 {
						hits[i] = "x2"
					} else if s.y.BitLen() <= 248 {
						hits[i] = "y2"
					}
				}
			}
		})
		for i, h := range hits {
			if h == "failed" {
				c.Out.Put(ms[i])
				return
			}
			if want[h] > 0 {
				delete(want, h)
				c.Out.Put(ms[i])
			}
		}
	}
}

// ---- decryption

func doDecrypt(d *big.Int, ct []byte, label string) M {
	e := M{"op": "decrypt", "case": label, "d": N(d), "c": B(clone(ct)), "out": B{}, "err": "", "got": false, "again": true}
	in := clone(ct)
	priv, done := heldKey(d)
	e["panic"] = call(func() {
		m, err := sm2.Decryt(priv, in)
		e["out"], e["err"], e["got"] = B(m), es(err), len(m) > 0
		first := clone(m)
		// the same ciphertext, the same answer
		m2, err2 := sm2.Decryt(priv, in)
		e["again"] = bytes.Equal(in, ct) && bytes.Equal(m2, first) && bytes.Equal(m, first) && (err == nil) == (err2 == nil)
	})
	if e["panic"] == "" {
		done()
	}
	return e
}

func kdfRef(z []byte, n int) []byte {
	var out []byte
	for i := 1; len(out) < n; i++ {
		out = append(out, sm3.Sum(cat(z, []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}))...)
	}
	return out[:n]
}

// ctFor builds the ciphertext with first point c1 (not necessarily on the curve) for scalar d
func ctFor(d *big.Int, c1 *pt, enc []byte, msg []byte) []byte {
	s := pmul(d, c1)
	if s == nil {
		s = &pt{big0, big0}
	}
	x2, y2 := b32(s.x), b32(s.y)
	ks := kdfRef(cat(x2, y2), len(msg))
	c2 := make([]byte, len(msg))
	for i := range msg {
		c2[i] = msg[i] ^ ks[i]
	}
	return cat(enc, sm3.Sum(cat(x2, msg, y2)), c2)
}

func unc(p *pt) []byte { return cat([]byte{4}, b32(p.x), b32(p.y)) }

func sm2Dec(c *Ctx) {
	r := c.Rng
	type job struct {
		d     *big.Int
		ct    []byte
		label string
	}
	var jobs []job
	put := func(d *big.Int, ct []byte, label string) { jobs = append(jobs, job{d, ct, label}) }
	reps := 1
	if !c.Quick {
		reps = 10
	}
	for rep := 0; rep < reps; rep++ {
		for vi, ml := range []int{1, 16, 33, 70} {
			d := r.BigIn(big1, nm2)
			c1 := pmul(r.BigIn(big1, nm1), ecG)
			msg := r.Bytes(ml)
			ct := ctFor(d, c1, unc(c1), msg)
			put(d, ct, "valid")
			put(add(d, big1), ct, "other key")
			put(sub(ecN, d), ct, "negated key")
			// every octet altered (every bit in the hash and the body of the short ones)
			for i := range ct {
				for b := 0; b < 8; b++ {
					if b != i%8 && (i < 65 || vi == 3 || c.Quick && vi == 2) {
						continue
					}
					x := clone(ct)
					x[i] ^= 1 << uint(b)
					put(d, x, "bit")
				}
				x := clone(ct)
				x[i] = byte(r.Intn(256))
				if !bytes.Equal(x, ct) && i%3 == 0 {
					put(d, x, "octet")
				}
			}
			for i := 0; i <= len(ct); i++ {
				if vi < 2 || i > 90 {
					put(d, ct[:i], "truncated")
				}
			}
			put(d, append(clone(ct), 0), "extended")
			put(d, append(clone(ct), r.Bytes(16)...), "extended")
			put(d, append(clone(ct), ct...), "twice")
			for _, pfx := range []byte{0, 1, 2, 3, 5, 6, 7, 0x84, 0xff} {
				x := clone(ct)
				x[0] = pfx
				put(d, x, "prefix")
			}
			put(d, ct[1:], "prefix missing")
			put(d, append([]byte{4}, ct...), "prefix twice")
			put(d, cat([]byte{2 + byte(c1.y.Bit(0))}, ct[1:33], ct[65:]), "compressed")
			put(d, cat(ct[:65], ct[97:], ct[65:97]), "C1C2C3")
			put(d, tlv(0x30, cat(derInt(c1.x), derInt(c1.y), tlv(4, ct[65:97]), tlv(4, ct[97:]))), "asn1")
			put(d, ctFor(d, c1, unc(c1.neg()), msg), "C1 negated")
			put(d, ctFor(d, c1.neg(), unc(c1.neg()), msg), "valid")
			put(d, cat(ct[:65], make([]byte, 32), ct[97:]), "zero hash")
			put(d, cat(ct[:97], make([]byte, ml)), "zero body")
			// no hash over the point coordinates, or other orders
			s := pmul(d, c1)
			put(d, cat(ct[:65], sm3.Sum(msg), ct[97:]), "hash of message only")
			put(d, cat(ct[:65], sm3.Sum(cat(b32(s.x), b32(s.y), msg)), ct[97:]), "hash order")
			put(d, cat(ct[:65], sm3.Sum(cat(b32(s.y), msg, b32(s.x))), ct[97:]), "hash order")
			// hash prefix right, last octet wrong; and the reverse
			x := clone(ct)
			x[96] ^= 0x80
			put(d, x, "last hash octet")
			x = clone(ct)
			x[65] ^= 1
			put(d, x, "first hash octet")
		}
		// first points that are not points of the curve, with everything else consistent
		for i := 0; i < 6; i++ {
			d := r.BigIn(big1, nm2)
			c1 := pmul(r.BigIn(big1, nm1), ecG)
			bad := &pt{c1.x, mod(add(c1.y, i2(int64(i)+1)), ecP)}
			put(d, ctFor(d, bad, unc(bad), r.Bytes(20)), "invalid curve point")
			bad = &pt{mod(mul(c1.x, i2(int64(i)+2)), ecP), c1.y}
			put(d, ctFor(d, bad, unc(bad), r.Bytes(20)), "invalid curve point")
		}
		// small-order points of other curves y^2 = x^3 + ax + b'
		for i := 0; i < 4; i++ {
			d := r.BigIn(big1, nm2)
			bad := &pt{new(big.Int).SetBytes(r.Bytes(31)), big0} // order two
			put(d, ctFor(d, bad, unc(bad), r.Bytes(20)), "order two")
		}
		d := r.BigIn(big1, nm2)
		put(d, ctFor(d, &pt{big0, big0}, unc(&pt{big0, big0}), r.Bytes(20)), "C1 (0,0)")
		// coordinates not reduced: x + p still fits 32 octets for small x
		for i, k := i2(0), 0; k < 4; i = add(i, big1) {
			if p := lift(i); p != nil {
				k++
				d := r.BigIn(big1, nm2)
				msg := r.Bytes(10)
				put(d, ctFor(d, p, unc(p), msg), "valid, small x")
				put(d, ctFor(d, p, cat([]byte{4}, b32(add(p.x, ecP)), b32(p.y)), msg), "x+p")
			}
		}
		// small y for the same purpose: solve x^3 + ax + b - y^2 = 0 is hard; use y from a search over cube roots
		// key stream all zero: search first points for a one-octet message
		for t, k := 0, 0; t < 4000 && k < 3; t++ {
			c1 := pmul(i2(int64(t)+1000), ecG)
			s := pmul(d, c1)
			if kdfRef(cat(b32(s.x), b32(s.y)), 1)[0] == 0 {
				k++
				put(d, ctFor(d, c1, unc(c1), []byte{byte(t)}), "zero key stream")
			}
		}
		for _, z := range zeroStreams() {
			for l := 1; l <= 5; l++ {
				c1 := pmul(z.k, ecG)
				put(z.d, ctFor(z.d, c1, unc(c1), r.Bytes(l)), fmt.Sprint("key stream beginning with ", z.n, " zeros"))
			}
		}
		for i := 0; i < 40; i++ {
			put(d, r.Bytes(r.Intn(140)), "random")
			put(d, cat([]byte{4}, r.Bytes(r.Intn(140))), "random")
		}
		put(d, nil, "empty")
		for _, n := range []int{97, 98, 200} {
			put(d, make([]byte, n), "zeros")
			put(d, cat([]byte{4}, make([]byte, n)), "zeros")
			put(d, cat([]byte{4}, bytes.Repeat([]byte{255}, n)), "ones")
		}
		put(d, cat([]byte{4}, b32(ecG.x), b32(ecG.y), sm3.Sum(cat(b32(pmul(d, ecG).x), b32(pmul(d, ecG).y)))), "no body")
		for _, k := range testScalars(r, 2) {
			c1 := pmul(r.BigIn(big1, nm1), ecG)
			put(k, ctFor(k, c1, unc(c1), r.Bytes(1+r.Intn(100))), "valid")
			put(k, ctFor(k, ecG, unc(ecG), r.Bytes(1+r.Intn(100))), "valid")
		}
		// long bodies: block counters of more than one octet
		c1 := pmul(r.BigIn(big1, nm1), ecG)
		put(d, ctFor(d, c1, unc(c1), r.Bytes(32*256+7)), "valid, long")
		// shared points with leading zeros
		for t, k := 0, 0; t < 3000 && k < 3; t++ {
			c1 := pmul(i2(int64(t)+5000), ecG)
			s := pmul(d, c1)
			if s.x.BitLen() <= 248 || s.y.BitLen() <= 248 {
				k++
				put(d, ctFor(d, c1, unc(c1), r.Bytes(30)), "valid, leading zeros")
			}
		}
	}
	for i, n := range longBlocks(c) {
		d := r.BigIn(big1, nm2)
		tail := r.Bytes([]int{1, 0, 33, 64, 96, 7, 32}[i%7])
		c.Out.Put(sm2DecLong(r, d, n, tail, 0))
		if n < 1<<20 {
			c.Out.Put(sm2DecLong(r, d, n, tail, 1+r.Intn(2*n)))
			c.Out.Put(sm2DecLong(r, d, n, tail, 2*n-r.Intn(40)))
		}
	}
	out := make([]M, len(jobs))
	parallel(len(jobs), func(i int) { out[i] = doDecrypt(jobs[i].d, jobs[i].ct, jobs[i].label) })
	for _, m := range out {
		c.Out.Put(m)
	}
}

// ---- keys

func doGen(src io.Reader, srcKind, label string) (M, *sm2.PrivateKey) {
	e := M{"op": "keygen", "case": label, "src": srcKind, "err": "", "got": false, "d": SZ(big0), "x": B{}, "y": B{}, "curve": false}
	var k *sm2.PrivateKey
	e["panic"] = call(func() {
		var err error
		k, err = sm2.GenerateKey(src)
		e["err"], e["got"] = es(err), k != nil
		if k != nil {
			e["d"], e["x"], e["y"] = SZ(k.D), N(k.X), N(k.Y)
			p := k.Params()
			e["curve"] = p.P.Cmp(ecP) == 0 && p.N.Cmp(ecN) == 0 && p.B.Cmp(ecB) == 0 && p.Gx.Cmp(ecG.x) == 0 && p.Gy.Cmp(ecG.y) == 0 && p.BitSize == 256
			pub, ok := k.Public().(*sm2.PublicKey)
			if !ok || pub.X.Cmp(k.X) != 0 || pub.Y.Cmp(k.Y) != 0 {
				e["curve"] = false
			}
		}
	})
	return e, k
}

func sm2Key(c *Ctx) {
	r := c.Rng
	n := 120
	if !c.Quick {
		n = 700
	}
	var ks []B
	var rd []int
	shared := r.Fork()
	for i := 0; i < n; i++ {
		cnt := &counting{r: shared}
		var src io.Reader = cnt
		if i%4 == 0 {
			src = oneByte{cnt}
		}
		m, k := doGen(src, "drbg", "drbg")
		c.Out.Put(m)
		if k != nil && k.D != nil {
			ks = append(ks, N(k.D))
			rd = append(rd, cnt.n)
		}
	}
	if len(ks) > 0 {
		c.Out.Put(M{"op": "scalars", "case": "generated keys", "ks": ks, "rd": rd, "spread": true})
	}
	// sources delivering extreme scalars first, possibly masked as crypto/elliptic masks them
	for _, v := range []*big.Int{big0, i2(1), i2(2), nm2, nm1, ecN, add(ecN, big1), add(ecN, i2(2)), sub(ecP, big1), ecP, sub(new(big.Int).Lsh(big1, 256), big1), new(big.Int).Lsh(big1, 255)} {
		for _, pos := range []int{-1, 0, 1, 31} {
			for _, mask := range []byte{0x42, 0x01, 0x80} {
				b := b32(v)
				if pos >= 0 {
					b[pos] ^= mask
				} else if mask != 0x42 {
					continue
				}
				m, _ := doGen(&script{b: b, r: r.Fork()}, "extreme", "extreme scalar")
				c.Out.Put(m)
				// eight more octets in front or behind, for derivations from 40 octets; and twice in a row
				m, _ = doGen(&script{b: cat(make([]byte, 8), b, b, b), r: r.Fork()}, "extreme", "extreme scalar")
				c.Out.Put(m)
				m, _ = doGen(&script{b: cat(b, b, b), r: r.Fork()}, "extreme", "extreme scalar")
				c.Out.Put(m)
			}
		}
	}
	for _, b := range []byte{0, 255, 0x42} {
		for _, n := range []int{32, 40, 64, 320} {
			m, _ := doGen(&script{b: bytes.Repeat([]byte{b}, n), r: r.Fork()}, "constant", "constant")
			c.Out.Put(m)
		}
	}
	for j := 0; j < 32; j++ {
		for e := 0; e < 2; e++ {
			var src io.Reader = &failAfter{r: r.Fork(), n: j, err: []error{errReader, io.EOF}[e]}
			if j%3 == 0 {
				src = oneByte{src}
			}
			m, _ := doGen(src, "fails", "source fails")
			c.Out.Put(m)
		}
	}
	// the source fails one octet before the end of what a successful call read (with and without redraws)
	for i := 0; i < 12; i++ {
		b := r.Bytes(400)
		if i%3 == 1 {
			copy(b, b32(nm1))
			b[1] ^= 0x42
		} else if i%3 == 2 {
			copy(b, b32(sub(new(big.Int).Lsh(big1, 256), big1)))
			b[1] ^= 0x42
		}
		used := -1
		for t := 0; t < 3; t++ {
			cnt := &counting{r: &script{b: clone(b), r: NewRng(1)}}
			doGen(cnt, "drbg", "")
			if t > 0 && cnt.n != used {
				used = 0
			} else if t == 0 {
				used = cnt.n
			}
		}
		if used > 0 {
			m, _ := doGen(&failAfter{r: &script{b: clone(b), r: NewRng(1)}, n: used - 1, err: errReader}, "fails", "source fails at the last octet")
			c.Out.Put(m)
		}
	}
	// equality
	var privs []*sm2.PrivateKey
	for i := 0; i < 4; i++ {
		privs = append(privs, mkKey(r.BigIn(big1, nm2)))
	}
	privs = append(privs, mkKey(i2(1)), mkKey(nm2), mkKey(privs[0].D), mkKey(sub(ecN, privs[0].D)))
	odd := mkKey(privs[1].D)
	odd.X, odd.Y = privs[2].X, privs[2].Y
	privs = append(privs, odd)
	odd2 := mkKey(privs[1].D)
	odd2.D = add(privs[1].D, ecN)
	privs = append(privs, odd2)
	odd3 := mkKey(privs[1].D)
	odd3.X = add(odd3.X, big1)
	privs = append(privs, odd3)
	odd4 := mkKey(privs[1].D)
	odd4.Y = add(odd4.Y, big1)
	privs = append(privs, odd4)
	// the same number with the other sign, or another high part
	for _, f := range []func(z *big.Int) *big.Int{
		func(z *big.Int) *big.Int { return new(big.Int).Neg(z) },
		func(z *big.Int) *big.Int { return add(z, new(big.Int).Lsh(big1, 256)) },
		func(z *big.Int) *big.Int { return new(big.Int).Xor(z, new(big.Int).Lsh(big1, 255)) },
		func(z *big.Int) *big.Int { return add(z, ecP) },
		func(z *big.Int) *big.Int { return new(big.Int) },
	} {
		a, b, d := mkKey(privs[1].D), mkKey(privs[1].D), mkKey(privs[1].D)
		a.X, b.Y, d.D = f(a.X), f(b.Y), f(d.D)
		privs = append(privs, a, b, d)
	}
	// things of another kind
	for _, a := range privs[:3] {
		p256 := &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: a.Curve, X: a.X, Y: a.Y}, D: a.D}
		onP256 := mkKey(a.D)
		onP256.Curve = elliptic.P256()
		for what, y := range map[string]interface{}{"nothing": nil, "text": "key", "ecdsa": p256, "ecdsapub": &p256.PublicKey, "value": *a, "pubvalue": a.PublicKey, "number": a.D,
			"othercurve": onP256, "othercurvepub": &onP256.PublicKey} {
			for _, k1 := range []string{"priv", "pub"} {
				e := M{"op": "equal", "case": k1 + what, "kind1": k1, "kind2": what, "x1": SZ(a.X), "y1": SZ(a.Y), "d1": SZ(a.D), "x2": SZ(a.X), "y2": SZ(a.Y), "d2": SZ(a.D), "res": false}
				a := a
				e["panic"] = call(func() {
					if k1 == "priv" {
						e["res"] = a.Equal(y)
					} else {
						e["res"] = a.PublicKey.Equal(y)
					}
				})
				c.Out.Put(e)
			}
		}
	}
	for _, a := range privs {
		for _, b := range privs {
			for _, k1 := range []string{"priv", "pub"} {
				for _, k2 := range []string{"priv", "pub"} {
					e := M{"op": "equal", "case": k1 + k2, "kind1": k1, "kind2": k2, "x1": SZ(a.X), "y1": SZ(a.Y), "d1": SZ(a.D), "x2": SZ(b.X), "y2": SZ(b.Y), "d2": SZ(b.D), "res": false}
					e["panic"] = call(func() {
						var y interface{} = b
						if k2 == "pub" {
							y = &b.PublicKey
						}
						if k1 == "priv" {
							e["res"] = a.Equal(y)
						} else {
							e["res"] = a.PublicKey.Equal(y)
						}
					})
					c.Out.Put(e)
				}
			}
		}
	}
}
