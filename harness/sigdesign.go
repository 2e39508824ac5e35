package main

// Signatures made by their design (spec/SigGen.tla).

import (
	"crypto/sha256"
	"math/big"
	"strconv"

	"github.com/mmdet/mcrypto/sm3"
)

func init() { drivers["sm2sigdesign"] = sm2SigDesign }

// what is hashed for a message, by its design
func sigDigest(how string, P *pt, uid, msg []byte) []byte {
	id := uid
	if len(id) == 0 || how == "default" {
		id = []byte("1234567812345678")
	}
	ent := []byte{byte(len(id) * 8 >> 8), byte(len(id) * 8)}
	a := sub(ecP, i2(3))
	pars := cat(b32(a), b32(ecB), b32(ecG.x), b32(ecG.y))
	x, y := b32(P.x), b32(P.y)
	switch how {
	case "none":
		return sm3.Sum(msg)
	case "nouid":
		ent, id = []byte{0, 0}, nil
	case "octets":
		ent = []byte{byte(len(id) >> 8), byte(len(id))}
	case "noent":
		ent = nil
	case "lenlittle":
		ent[0], ent[1] = ent[1], ent[0]
	case "nokey":
		x, y = nil, nil
	case "noparams":
		pars = nil
	case "xonly":
		y = nil
	case "stripped":
		x, y = P.x.Bytes(), P.y.Bytes()
	}
	all := cat(ent, id, pars, x, y)
	z := sm3.Sum(all)
	switch how {
	case "twice":
		return sm3.Sum(sm3.Sum(cat(z, msg)))
	case "after":
		return sm3.Sum(cat(msg, z))
	case "head16":
		return sm3.Sum(cat(z[:16], msg))
	case "sha":
		s := sha256.Sum256(all)
		t := sha256.Sum256(cat(s[:], msg))
		return t[:]
	}
	return sm3.Sum(cat(z, msg))
}

// the number made of a digest
func sigNumber(how string, b []byte) *big.Int {
	n := len(b)
	cut := func(from, to int) []byte {
		if from < 0 {
			from = 0
		}
		if to > n {
			to = n
		}
		if from > to {
			from = to
		}
		return b[from:to]
	}
	num := func(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
	e := num(b)
	two256 := new(big.Int).Lsh(big1, 256)
	switch how {
	case "good":
	case "head31":
		e = num(cut(0, 31))
	case "tail31":
		e = num(cut(n-31, n))
	case "head32":
		e = num(cut(0, 32))
	case "tail32":
		e = num(cut(n-32, n))
	case "low128":
		e = mod(e, new(big.Int).Lsh(big1, 128))
	case "high128":
		e = num(cut(0, 16))
	case "bits256": // the first 256 bits, padded at the end
		e = num(cat(cut(0, 32), make([]byte, 32-len(cut(0, 32)))))
	case "shifted":
		e = new(big.Int).Rsh(e, 1)
	case "reversed", "wordsreversed":
		e = num(encOctets(nil, how, b))
	case "zero":
		e = i2(0)
	case "hashed":
		e = num(sm3.Sum(b))
	case "complement":
		e = sub(sub(two256, big1), mod(e, two256))
	case "plus1":
		e = add(e, big1)
	case "text":
		e = num([]byte(new(big.Int).SetBytes(b).Text(16)))
	default:
		die("number " + how)
	}
	return e
}

// sigSign makes the signature; ok is false where the equation has no solution
func sigSign(r *Rng, ch map[string]string, d, k, e *big.Int) (rr, ss *big.Int, ok bool) {
	R := pmul(k, ecG)
	switch ch["r"] {
	case "good":
		rr = add(e, R.x)
	case "x":
		rr = R.x
	case "e":
		rr = e
	case "minus":
		rr = sub(e, R.x)
	case "reverse":
		rr = sub(R.x, e)
	case "y":
		rr = add(e, R.y)
	case "xor":
		rr = new(big.Int).Xor(e, R.x)
	case "xlow":
		rr = add(e, mod(R.x, new(big.Int).Lsh(big1, 128)))
	case "product":
		rr = mul(e, R.x)
	case "xplus1":
		rr = add(add(e, R.x), big1)
	default:
		die("r " + ch["r"])
	}
	rr = mod(rr, ecN)
	b := b32(rr)
	noise := func(from, to int) {
		for i := from; i < to; i++ {
			b[i] ^= byte(1 + r.Intn(255))
		}
	}
	switch c := ch["cmp"]; c {
	case "good":
	case "highbit":
		b[0] ^= 0x80
	case "lowbit":
		b[31] ^= 1
	case "complement":
		for i := range b {
			b[i] ^= 0xff
		}
	case "plus1":
		b = b32(mod(add(rr, big1), ecN))
	case "minus1":
		b = b32(mod(sub(rr, big1), ecN))
	default:
		n, err := strconv.Atoi(c[4:])
		if err != nil {
			die("cmp " + c)
		}
		if c[:4] == "head" {
			noise(n, 32)
		} else {
			noise(0, 32-n)
		}
	}
	rr = new(big.Int).SetBytes(b)
	if rr.Sign() == 0 {
		return
	}
	if ch["cmp"] != "good" && rr.Cmp(ecN) >= 0 {
		return
	}
	// in the equation: r and s as they are sent where only their sign is overlooked
	re, sg := rr, big1
	if ch["sentr"] == "negative" {
		re = new(big.Int).Neg(rr)
	}
	if ch["sents"] == "negative" {
		sg = i2(-1)
	}
	// T = c0 + c1 s
	c0, c1 := re, sg
	switch ch["t"] {
	case "sum":
	case "r":
		c1 = big0
	case "s":
		c0 = big0
	case "minus":
		c1 = new(big.Int).Neg(sg)
	case "reverse":
		c0 = new(big.Int).Neg(re)
	case "product":
		c0, c1 = big0, mul(re, sg)
	case "one":
		c0, c1 = big1, big0
	case "sum1":
		c0 = add(re, big1)
	case "double":
		c0, c1 = add(re, re), add(sg, sg)
	default:
		die("t " + ch["t"])
	}
	// k = f + g s
	var f, g *big.Int
	switch ch["sides"] {
	case "good":
		f, g = mul(c0, d), add(big1, mul(c1, d))
	case "swapped":
		f, g = c0, add(c1, d)
	case "minus":
		f, g = new(big.Int).Neg(mul(c0, d)), sub(big1, mul(c1, d))
	case "negated":
		f, g = mul(c0, d), sub(mul(c1, d), big1)
	case "both":
		f, g = new(big.Int).Neg(mul(c0, d)), new(big.Int).Neg(add(big1, mul(c1, d)))
	case "noG":
		f, g = mul(c0, d), mul(c1, d)
	case "double":
		f, g = mul(c0, d), add(i2(2), mul(c1, d))
	default:
		die("sides " + ch["sides"])
	}
	g = mod(g, ecN)
	if g.Sign() == 0 {
		// any s will do, if one does
		return
	}
	ss = mod(mul(sub(k, f), inv(g, ecN)), ecN)
	if ss.Sign() == 0 {
		return
	}
	send := func(how string, v *big.Int) *big.Int {
		switch how {
		case "plusn":
			return add(v, ecN)
		case "plus2n":
			return add(v, add(ecN, ecN))
		case "plusp":
			return add(v, ecP)
		case "minusn":
			return sub(v, ecN)
		case "negative":
			return new(big.Int).Neg(v)
		case "other":
			return sub(ecN, v)
		case "over":
			return add(v, new(big.Int).Lsh(big1, 256))
		}
		return v
	}
	return send(ch["sentr"], rr), send(ch["sents"], ss), true
}

func sigDer(how string, r, s *big.Int) []byte {
	R, S := derInt(r), derInt(s)
	raw := func(v *big.Int) []byte { return tlv(2, v.Bytes()) }
	abs := func(v *big.Int) *big.Int { return new(big.Int).Abs(v) }
	switch how {
	case "good":
	case "nonmin":
		R = tlv(2, cat([]byte{0}, R[2:]))
	case "nonminS":
		S = tlv(2, cat([]byte{0}, S[2:]))
	case "longlen":
		b := cat(R, S)
		return cat([]byte{0x30, 0x81, byte(len(b))}, b)
	case "longint":
		R = cat([]byte{2, 0x81}, R[1:])
	case "trail":
		return cat(tlv(0x30, cat(R, S)), []byte{0})
	case "third":
		return tlv(0x30, cat(R, S, []byte{2, 1, 1}))
	case "set":
		return tlv(0x31, cat(R, S))
	case "raw":
		if abs(r).BitLen() <= 256 && abs(s).BitLen() <= 256 {
			return cat(b32(abs(r)), b32(abs(s)))
		}
		return cat(abs(r).Bytes(), abs(s).Bytes())
	case "swapped":
		R, S = S, R
	case "unsigned":
		R, S = raw(r), raw(s)
	case "octets":
		R, S = tlv(4, R[2:]), tlv(4, S[2:])
	case "indef":
		return cat([]byte{0x30, 0x80}, R, S, []byte{0, 0})
	case "inner":
		return tlv(0x30, tlv(0x30, cat(R, S)))
	case "bits":
		return tlv(3, cat([]byte{0}, tlv(0x30, cat(R, S))))
	case "cut":
		b := tlv(0x30, cat(R, S))
		return b[:len(b)-1]
	case "enum":
		R, S = tlv(10, R[2:]), tlv(10, S[2:])
	case "twice":
		return cat(tlv(0x30, cat(R, S)), tlv(0x30, cat(R, S)))
	case "zero":
		return cat([]byte{0}, tlv(0x30, cat(R, S)))
	default:
		die("der " + how)
	}
	return tlv(0x30, cat(R, S))
}

// two's complement for negative numbers
func derSigned(x *big.Int) []byte {
	if x.Sign() >= 0 {
		return derInt(x)
	}
	n := len(x.Bytes())
	v := add(new(big.Int).Lsh(big1, uint(8*n)), x)
	b := v.FillBytes(make([]byte, n))
	if b[0] < 128 {
		b = cat([]byte{0xff}, b)
	}
	return tlv(2, b)
}

func sigCase(r *Rng, s p7Scn) M {
	ch := s.Ch
	d := r.BigIn(big1, nm2)
	switch ch["key"] {
	case "one":
		d = big1
	case "two":
		d = i2(2)
	case "last":
		d = nm2
	case "shortx", "shorty":
		for _, v := range shortKeys(r, 1) {
			if (pmul(v, ecG).x.BitLen() <= 248) == (ch["key"] == "shortx") && v.Cmp(nm2) <= 0 {
				d = v
			}
		}
	}
	P := pmul(d, ecG)
	msg := r.Bytes(r.Intn(150))
	var uid []byte
	switch u := ch["uid"]; u {
	case "none":
	case "default":
		uid = []byte("1234567812345678")
	case "high":
		uid = r.Bytes(20)
		for i := range uid {
			uid[i] |= 128
		}
	default:
		n, err := strconv.Atoi(u)
		if err != nil {
			die("uid " + u)
		}
		uid = r.Bytes(n)
	}
	n, _ := strconv.Atoi(ch["len"])
	dig := r.Bytes(n)
	in := verIn{x: P.x, y: P.y, kind: "dig", dig: dig, label: s.Case}
	if ch["form"] == "message" {
		in.kind, in.msg, in.uid = "msg", msg, uid
		dig = sigDigest(ch["z"], P, uid, msg)
		in.dig = dig
	}
	e := sigNumber(ch["e"], dig)
	for try := 0; ; try++ {
		k := r.BigIn(big1, nm1)
		switch ch["nonce"] {
		case "one":
			k = big1
		case "last":
			k = nm1
		case "shortx":
			for _, v := range shortKeys(r, 1) {
				if pmul(v, ecG).x.BitLen() <= 248 {
					k = v
				}
			}
		}
		rr, ss, ok := sigSign(r, ch, d, k, e)
		if !ok {
			if try < 20 {
				continue
			}
			return nil
		}
		if ch["der"] == "none" {
			in.r, in.s = rr, ss
		} else if rr.Sign() < 0 || ss.Sign() < 0 {
			in.der = tlv(0x30, cat(derSigned(rr), derSigned(ss)))
			if ch["der"] != "good" {
				return nil
			}
		} else {
			in.der = sigDer(ch["der"], rr, ss)
		}
		return doVerify(in)
	}
}

func sm2SigDesign(c *Ctx) {
	var scn []p7Scn
	readJSON(c.In, &scn)
	rngs := make([]*Rng, len(scn))
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	put(c, len(scn), func(i int) M { return sigCase(rngs[i], scn[i]) })
}
