package main

// Ciphertexts made by their design (spec/EncGen.tla).

import (
	"bytes"
	"crypto/sha256"
	"math/big"
	"strconv"

	"github.com/mmdet/mcrypto/sm3"
)

// encOctets alters a string of octets
func encOctets(r *Rng, how string, b []byte) []byte {
	x := clone(b)
	n := len(x)
	if n == 0 {
		return x
	}
	two := func() (int, int) {
		i := r.Intn(n)
		return i, (i + 1 + r.Intn(max1(n-1))) % n
	}
	noise := func(from, to int) {
		for i := from; i < to && i < n; i++ {
			if i >= 0 {
				x[i] ^= byte(1 + r.Intn(255))
			}
		}
	}
	num := func(s string) int {
		k, err := strconv.Atoi(s)
		if err != nil {
			die("alteration " + how)
		}
		return k
	}
	switch how {
	case "good":
	case "bit":
		x[r.Intn(n)] ^= 1 << uint(r.Intn(8))
	case "high":
		for i := range x {
			x[i] ^= 0x80
		}
	case "lownibbles":
		for i := range x {
			x[i] ^= byte(1 + r.Intn(15))
		}
	case "first":
		x[0]++
	case "last":
		x[n-1]++
	case "pair": // the same mask twice
		i, j := two()
		m := byte(1 + r.Intn(255))
		x[i] ^= m
		x[j] ^= m
	case "pairsum": // the sum of the octets stays
		i, j := two()
		d := byte(1 + r.Intn(255))
		x[i] += d
		x[j] -= d
	case "swapnear":
		i := r.Intn(max1(n - 1))
		x[i], x[(i+1)%n] = x[(i+1)%n], x[i]
	case "swapfar", "swapoctets":
		i, j := two()
		x[i], x[j] = x[j], x[i]
	case "words":
		if n >= 8 {
			return cat(x[4:8], x[:4], x[8:])
		}
	case "halves":
		return cat(x[n/2:], x[:n/2])
	case "blocks":
		if n > 32 {
			return cat(x[32:], x[:32])
		}
	case "reversed":
		for i := range x {
			x[i] = b[n-1-i]
		}
	case "wordsreversed":
		for i := 0; i+4 <= n; i += 4 {
			x[i], x[i+1], x[i+2], x[i+3] = x[i+3], x[i+2], x[i+1], x[i]
		}
	case "rotated":
		return cat(x[1:], x[:1])
	case "complement":
		for i := range x {
			x[i] ^= 0xff
		}
	case "zeros":
		return make([]byte, n)
	case "ones":
		return bytes.Repeat([]byte{0xff}, n)
	case "even":
		for i := 0; i < n; i += 2 {
			x[i] ^= byte(1 + r.Intn(255))
		}
	case "odd":
		for i := 1; i < n; i += 2 {
			x[i] ^= byte(1 + r.Intn(255))
		}
	case "xor": // other octets with the same exclusive or
		var s byte
		for i := 0; i < n-1; i++ {
			m := byte(r.Intn(256))
			x[i] ^= m
			s ^= m
		}
		x[n-1] ^= s
	case "sum":
		var s byte
		for i := 0; i < n-1; i++ {
			m := byte(r.Intn(256))
			x[i] += m
			s += m
		}
		x[n-1] -= s
	case "cut", "shorter":
		return x[:n-1]
	case "headcut":
		return x[1:]
	case "longer":
		return append(x, byte(r.Intn(256)))
	case "empty":
		return nil
	case "twice":
		return cat(x, x)
	case "lastzero":
		x[n-1] = 0
	default:
		switch {
		case len(how) > 4 && how[:4] == "head": // only the first are right
			noise(num(how[4:]), n)
		case len(how) > 4 && how[:4] == "tail":
			noise(0, n-num(how[4:]))
		default:
			die("alteration " + how)
		}
	}
	return x
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

func encCiphertext(r *Rng, ch map[string]string) (*big.Int, []byte) {
	d := r.BigIn(big1, sub(nm2, big1))
	key := d
	switch ch["key"] {
	case "negated":
		key = sub(ecN, d)
		if key.Cmp(nm2) > 0 {
			key = big1
		}
	case "other":
		key = r.BigIn(big1, nm2)
	case "plus1":
		key = add(d, big1)
	case "half":
		key = new(big.Int).Rsh(d, 1)
		if key.Sign() == 0 {
			key = big1
		}
	case "one":
		d, key = big1, big1
	case "last":
		d, key = nm2, nm2
	case "short":
		d = shortKeys(r, 1)[0]
		key = d
	}
	n, _ := strconv.Atoi(ch["len"])
	msg := r.Bytes(n)
	switch ch["msg"] {
	case "zeros":
		msg = make([]byte, n)
	case "ones":
		msg = bytes.Repeat([]byte{0xff}, n)
	case "leadzero":
		msg[0] = 0
	case "tailzero":
		msg[n-1] = 0
	case "periodic":
		for i := range msg {
			msg[i] = msg[i%8]
		}
	}
	k := r.BigIn(big1, nm1)
	switch ch["nonce"] {
	case "one":
		k = big1
	case "two":
		k = i2(2)
	case "last":
		k = nm1
	case "short":
		k = i2(int64(1 + r.Intn(60000)))
	}
	C := pmul(k, ecG)
	s := pmul(d, C)
	x1, y1, x2, y2 := b32(C.x), b32(C.y), b32(s.x), b32(s.y)
	// the point that is sent
	switch ch["c1"] {
	case "negated":
		y1 = b32(sub(ecP, C.y))
	case "other":
		o := pmul(r.BigIn(big1, nm1), ecG)
		x1, y1 = b32(o.x), b32(o.y)
	case "swapped":
		x1, y1 = y1, x1
	case "yplus1":
		y1 = b32(mod(add(C.y, big1), ecP))
	case "xplus1":
		x1 = b32(mod(add(C.x, big1), ecP))
	case "ybit":
		y1 = encOctets(r, "bit", y1)
	case "xbit":
		x1 = encOctets(r, "bit", x1)
	case "zero":
		x1, y1 = make([]byte, 32), make([]byte, 32)
	case "xonly":
		y1 = make([]byte, 32)
	case "yonly":
		x1 = make([]byte, 32)
	case "xplusp": // the same point, not reduced, where that fits: a point with a small x
		for i := i2(int64(r.Intn(1000))); ; i = add(i, big1) {
			if p := lift(i); p != nil {
				C = p
				s = pmul(d, p)
				x1, y1, x2, y2 = b32(add(p.x, ecP)), b32(p.y), b32(s.x), b32(s.y)
				break
			}
		}
	case "swapoctets":
		x1 = encOctets(r, "swapfar", x1)
	case "pair":
		y1 = encOctets(r, "pair", y1)
	case "infinity":
		x1, y1, x2, y2 = nil, nil, make([]byte, 32), make([]byte, 32)
	case "pub":
		q := pmul(d, ecG)
		x1, y1 = b32(q.x), b32(q.y)
	}
	// the key stream
	ctr := func(from int, little bool, z []byte) []byte {
		var out []byte
		for i := from; len(out) < n; i++ {
			c := []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}
			if little {
				c[0], c[1], c[2], c[3] = c[3], c[2], c[1], c[0]
			}
			out = append(out, sm3.Sum(cat(z, c))...)
		}
		return out[:n]
	}
	var ks []byte
	switch ch["stream"] {
	case "good":
		ks = ctr(1, false, cat(x2, y2))
	case "from2":
		ks = ctr(2, false, cat(x2, y2))
	case "from0":
		ks = ctr(0, false, cat(x2, y2))
	case "little":
		ks = ctr(1, true, cat(x2, y2))
	case "yx":
		ks = ctr(1, false, cat(y2, x2))
	case "xonly":
		ks = ctr(1, false, x2)
	case "yonly":
		ks = ctr(1, false, y2)
	case "x1":
		ks = ctr(1, false, cat(x1, y1))
	case "none":
		ks = make([]byte, n)
	case "stale": // the counter with what came before
		z := cat(x2, y2)
		for len(ks) < n {
			ks = append(ks, sm3.Sum(cat(z, ks, []byte{0, 0, 0, 1}))...)
		}
		ks = ks[:n]
	case "same":
		b := ctr(1, false, cat(x2, y2))
		for i := 32; i < n; i++ {
			b[i] = b[i%32]
		}
		ks = b
	case "sm3z":
		z := sm3.Sum(cat(x2, y2))
		ks = ctr(1, false, z)
	default:
		die("stream " + ch["stream"])
	}
	c2 := make([]byte, n)
	for i := range msg {
		c2[i] = msg[i] ^ ks[i]
	}
	good := clone(c2)
	c2 = encOctets(r, ch["c2"], c2)
	// the hash
	strip := func(b []byte) []byte { return new(big.Int).SetBytes(b).Bytes() }
	var h []byte
	switch ch["hashed"] {
	case "good":
		h = sm3.Sum(cat(x2, msg, y2))
	case "xy":
		h = sm3.Sum(cat(x2, y2, msg))
	case "yx":
		h = sm3.Sum(cat(y2, x2, msg))
	case "m":
		h = sm3.Sum(msg)
	case "xm":
		h = sm3.Sum(cat(x2, msg))
	case "my":
		h = sm3.Sum(cat(msg, y2))
	case "yswap":
		h = sm3.Sum(cat(y2, msg, x2))
	case "stripped":
		h = sm3.Sum(cat(strip(x2), msg, strip(y2)))
	case "withc1":
		h = sm3.Sum(cat(x1, y1, x2, msg, y2))
	case "c2":
		h = sm3.Sum(cat(x2, good, y2))
	case "twice":
		h = sm3.Sum(sm3.Sum(cat(x2, msg, y2)))
	case "sha":
		v := sha256.Sum256(cat(x2, msg, y2))
		h = v[:]
	case "lenm":
		h = sm3.Sum(cat(x2, []byte{0, 0, 0, byte(n)}, msg, y2))
	case "mcut":
		h = sm3.Sum(cat(x2, msg[:n-1], y2))
	default:
		die("hash " + ch["hashed"])
	}
	h = encOctets(r, ch["c3"], h)
	p := cat([]byte{4}, x1, y1)
	switch ch["form"] {
	case "04":
	case "missing":
		p = p[1:]
	case "twice":
		p = cat([]byte{4}, p)
	case "padded":
		p = cat([]byte{0}, p)
	case "compressed":
		if len(y1) > 0 {
			p = cat([]byte{2 + y1[31]&1}, x1)
		}
	case "hybrid":
		if len(y1) > 0 {
			p[0] = 6 + y1[31]&1
		}
	default:
		v, err := strconv.ParseUint(ch["form"], 16, 8)
		if err != nil {
			die("form " + ch["form"])
		}
		p[0] = byte(v)
	}
	var ct []byte
	switch ch["order"] {
	case "132":
		ct = cat(p, h, c2)
	case "123":
		ct = cat(p, c2, h)
	case "213":
		ct = cat(c2, p, h)
	case "312":
		ct = cat(h, p, c2)
	case "asn1":
		ct = tlv(0x30, cat(derInt(new(big.Int).SetBytes(x1)), derInt(new(big.Int).SetBytes(y1)), tlv(4, h), tlv(4, c2)))
	default:
		die("order " + ch["order"])
	}
	switch ch["tail"] {
	case "zero":
		ct = append(ct, 0)
	case "one":
		ct = append(ct, 1)
	case "octets":
		ct = append(ct, r.Bytes(1+r.Intn(70))...)
	case "again":
		ct = append(ct, clone(ct)...)
	}
	return key, ct
}

func sm2DecDesign(c *Ctx) {
	var scn []p7Scn
	readJSON(c.In, &scn)
	rngs := make([]*Rng, len(scn))
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	put(c, len(scn), func(i int) M {
		d, ct := encCiphertext(rngs[i], scn[i].Ch)
		return doDecrypt(d, ct, scn[i].Case)
	})
}
