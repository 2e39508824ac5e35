package main

import (
	"fmt"
	"math/big"
)

// A DER tree, for altering documents in ways that keep the lengths around the change right.
type node struct {
	tag  byte
	kids []*node // of constructed elements, and of strings that hold DER
	pre  []byte  // the unused-bits octet of a BIT STRING that holds DER
	body []byte  // otherwise
	long bool    // write the length with one octet more than needed
	raw  []byte  // write this instead
}

func derNode(b []byte) (*node, []byte, bool) {
	if len(b) < 2 || b[0]&31 == 31 {
		return nil, nil, false
	}
	n, k := int(b[1]), 2
	if n >= 128 {
		m := n - 128
		if m == 0 || m > 3 || len(b) < 2+m {
			return nil, nil, false
		}
		n = 0
		for _, x := range b[2 : 2+m] {
			n = n<<8 | int(x)
		}
		k += m
	}
	if len(b) < k+n {
		return nil, nil, false
	}
	nd := &node{tag: b[0], body: b[k : k+n]}
	if nd.tag&32 != 0 {
		if kids, ok := derNodes(nd.body); ok {
			nd.kids = kids
		}
	} else if nd.tag == 4 && n >= 2 {
		if kids, ok := derNodes(nd.body); ok && len(kids) == 1 {
			nd.kids = kids
		}
	} else if nd.tag == 3 && n >= 3 && nd.body[0] == 0 && nd.body[1] == 48 {
		if kids, ok := derNodes(nd.body[1:]); ok && len(kids) == 1 {
			nd.pre, nd.kids = []byte{0}, kids
		}
	}
	return nd, b[k+n:], true
}
func derNodes(b []byte) ([]*node, bool) {
	out := []*node{}
	for len(b) > 0 {
		nd, rest, ok := derNode(b)
		if !ok {
			return nil, false
		}
		out = append(out, nd)
		b = rest
	}
	return out, true
}
func (n *node) enc() []byte {
	if n.raw != nil {
		return n.raw
	}
	body := n.body
	if n.kids != nil {
		body = clone(n.pre)
		for _, k := range n.kids {
			body = append(body, k.enc()...)
		}
	}
	return append(append([]byte{n.tag}, derLen(len(body), n.long)...), body...)
}
func derLen(n int, long bool) []byte {
	var l []byte
	for v := n; v > 0; v >>= 8 {
		l = append([]byte{byte(v)}, l...)
	}
	if n < 128 {
		if long {
			return []byte{129, byte(n)}
		}
		return []byte{byte(n)}
	}
	if long {
		l = append([]byte{0}, l...)
	}
	return append([]byte{128 + byte(len(l))}, l...)
}

type place struct {
	n, up *node
	at    int
}

func (n *node) places(up *node, at int, out []place) []place {
	if n.raw != nil {
		return out
	}
	out = append(out, place{n, up, at})
	for i, k := range n.kids {
		out = k.places(n, i, out)
	}
	return out
}

var oddTags = []byte{1, 2, 3, 4, 5, 6, 10, 12, 19, 20, 22, 23, 24, 28, 30, 36, 48, 49, 128, 129, 130, 160, 161, 162, 163, 164}

// alter changes one thing in a document and says what; the document itself is left alone
func alter(rng *Rng, der []byte) ([]byte, string) {
	b := clone(der)
	root, rest, ok := derNode(b)
	if !ok || len(rest) > 0 || rng.Intn(4) == 0 {
		return alterRaw(rng, b)
	}
	ps := root.places(nil, 0, nil)
	p := ps[rng.Intn(len(ps))]
	name := func(s string) string { return fmt.Sprintf("%s of element %d", s, indexOf(ps, p.n)) }
	op := rng.Intn(13)
	if p.up == nil && op <= 3 {
		op = 4 + rng.Intn(9)
	}
	switch op {
	case 0:
		p.up.kids = append(append([]*node{}, p.up.kids[:p.at]...), p.up.kids[p.at+1:]...)
		if len(p.up.kids) == 0 {
			p.up.kids, p.up.body = nil, p.up.pre
		}
		return root.enc(), name("removal")
	case 1:
		k := append(append([]*node{}, p.up.kids[:p.at+1]...), p.up.kids[p.at:]...)
		p.up.kids = k
		return root.enc(), name("doubling")
	case 2:
		j := rng.Intn(len(p.up.kids))
		p.up.kids[p.at], p.up.kids[j] = p.up.kids[j], p.up.kids[p.at]
		return root.enc(), name("exchange")
	case 3:
		q := ps[rng.Intn(len(ps))]
		p.up.kids[p.at] = &node{tag: q.n.tag, body: clone(q.n.enc()[len(q.n.enc())-len(bodyOf(q.n)):])}
		return root.enc(), name("replacement")
	case 4:
		p.n.long = true
		return root.enc(), name("long length")
	case 5:
		p.n.tag = oddTags[rng.Intn(len(oddTags))]
		return root.enc(), name("tag")
	case 6:
		p.n.tag ^= 32
		return root.enc(), name("constructed bit")
	case 7:
		p.n.body, p.n.kids = append(clone(bodyOf(p.n)), [][]byte{{5, 0}, {0}, {2, 1, 1}, {255}}[rng.Intn(4)]...), nil
		return root.enc(), name("extension")
	case 8:
		p.n.body, p.n.kids = []byte{}, nil
		return root.enc(), name("emptying")
	case 9:
		x := bodyOf(p.n)
		if len(x) > 0 {
			p.n.body, p.n.kids = clone(x[:len(x)-1]), nil
		}
		return root.enc(), name("cut")
	case 10:
		p.n.body, p.n.kids = append([]byte{[]byte{0, 255, 1, 128}[rng.Intn(4)]}, bodyOf(p.n)...), nil
		return root.enc(), name("prefix")
	default:
		// a value: prefer leaves
		for t := 0; t < 8 && p.n.kids != nil; t++ {
			p = ps[rng.Intn(len(ps))]
		}
		x := clone(bodyOf(p.n))
		if len(x) > 0 {
			i := rng.Intn(len(x))
			if len(x) <= 4 || rng.Intn(2) == 0 {
				i = []int{0, len(x) - 1}[rng.Intn(2)]
			}
			x[i] = []byte{0, 1, 127, 128, 255, x[i] + 1, x[i] - 1, x[i] ^ 1<<uint(rng.Intn(8)), byte(rng.Intn(256))}[rng.Intn(9)]
		}
		p.n.body, p.n.kids = x, nil
		return root.enc(), name("value")
	}
}
func bodyOf(n *node) []byte {
	if n.kids == nil {
		return n.body
	}
	b := clone(n.pre)
	for _, k := range n.kids {
		b = append(b, k.enc()...)
	}
	return b
}
func indexOf(ps []place, n *node) int {
	for i, p := range ps {
		if p.n == n {
			return i
		}
	}
	return -1
}
func alterRaw(rng *Rng, b []byte) ([]byte, string) {
	if len(b) == 0 {
		return []byte{0}, "something for nothing"
	}
	i := rng.Intn(len(b))
	switch rng.Intn(6) {
	case 0:
		return b[:i], fmt.Sprint("cut at ", i)
	case 1:
		return append(b, [][]byte{{0}, {5, 0}, {255}, {48, 0}}[rng.Intn(4)]...), "something after the end"
	case 2:
		return append(b[:i], b[i+1:]...), fmt.Sprint("octet gone at ", i)
	case 3:
		return append(b[:i], append([]byte{byte(rng.Intn(256))}, b[i:]...)...), fmt.Sprint("octet more at ", i)
	default:
		b[i] ^= 1 << uint(rng.Intn(8))
		return b, fmt.Sprint("bit at ", i)
	}
}

// near lists documents that differ from this one in a single value, by as little or by as much as careless readers
// overlook: identifiers that begin alike, numbers equal modulo a power of two or but for the sign, other spellings of
// truth, times and strings, lists in another order
func near(der []byte) (docs [][]byte, hows []string) {
	root, rest, ok := derNode(clone(der))
	if !ok || len(rest) > 0 {
		return nil, nil
	}
	for i, p := range root.places(nil, 0, nil) {
		n := p.n
		was := *n
		put := func(how string, body []byte) {
			n.kids, n.pre, n.body = nil, nil, body
			docs, hows = append(docs, root.enc()), append(hows, fmt.Sprint(how, " of element ", i))
			*n = was
		}
		tag := func(how string, t byte, body []byte) {
			n.tag = t
			put(how, body)
		}
		b := bodyOf(n)
		x := func(parts ...[]byte) []byte {
			var r []byte
			for _, q := range parts {
				r = append(r, q...)
			}
			return r
		}
		switch n.tag {
		case 1:
			for _, v := range []byte{0, 1, 127, 254, 255} {
				put(fmt.Sprint("truth ", v), []byte{v})
			}
		case 2, 10:
			v := new(big.Int).SetBytes(b)
			if len(b) > 0 && b[0] >= 128 {
				v.Sub(v, new(big.Int).Lsh(big1, uint(8*len(b))))
			}
			for _, k := range []uint{8, 16, 32, 63, 64} {
				put(fmt.Sprint("number plus 2^", k), intBody(new(big.Int).Add(v, new(big.Int).Lsh(big1, k))))
			}
			put("number negated", intBody(new(big.Int).Neg(v)))
			put("number minus 2^64", intBody(new(big.Int).Sub(v, new(big.Int).Lsh(big1, 64))))
		case 3:
			if len(b) > 1 {
				for _, u := range []byte{1, 7, 8} {
					put(fmt.Sprint("unused bits ", u), x([]byte{u}, b[1:]))
				}
				put("zeros behind", x(b, []byte{0}))
			}
		case 4:
			put("zero behind", x(b, []byte{0}))
			put("zero in front", x([]byte{0}, b))
			if len(b) > 1 {
				put("last gone", b[:len(b)-1])
				put("first gone", b[1:])
			}
		case 5:
			put("something in nothing", []byte{0})
			n.tag = 48
			put("empty list for nothing", nil)
		case 6:
			if len(b) == 0 {
				break
			}
			at := len(b) - 1
			for at > 0 && b[at-1] >= 128 {
				at--
			}
			last := b[at:]
			put("identifier with an arc more", x(b, []byte{1}))
			put("identifier with an arc 0 more", x(b, []byte{0}))
			if at > 0 {
				put("identifier with an arc less", b[:at])
				put("last arc padded", x(b[:at], []byte{128}, last))
				if last[0] < 128 {
					put("last arc plus 2^7", x(b[:at], []byte{129}, last))
					put("last arc plus 2^14", x(b[:at], []byte{129, 128}, last))
					put("last arc plus 2^35", x(b[:at], []byte{129, 128, 128, 128, 128}, last))
					put("last arc times ten", x(b[:at], arcBody(uint64(last[0])*10+7)))
				}
			}
			put("last arc up", x(b[:len(b)-1], []byte{b[len(b)-1]&128 | (b[len(b)-1]+1)&127}))
			put("first arc up", x([]byte{b[0] + 40}, b[1:]))
			put("second arc up", x([]byte{b[0] + 1}, b[1:]))
		case 12, 19, 20, 22, 18, 30, 28:
			for _, t := range []byte{12, 19, 20, 22, 18, 30, 28, 26} {
				if t != n.tag && (t != 30 || len(b)%2 == 0) {
					tag(fmt.Sprint("string type ", t), t, b)
				}
			}
			put("zero behind the string", x(b, []byte{0}))
			put("space behind the string", x(b, []byte{32}))
			put("string with a high bit", x(b, []byte{0xe9}))
			put("string in UTF-8", x(b, []byte{0xc3, 0xa9}))
		case 23:
			if len(b) == 13 {
				tag("time in full", 24, x([]byte("20"), b))
				tag("time of the other type", 24, b)
				put("time without seconds", x(b[:10], []byte("Z")))
				put("time with an offset", x(b[:12], []byte("+0000")))
				put("time with an offset of an hour", x(b[:12], []byte("+0100")))
				put("time without zone", b[:12])
				put("leap second", x(b[:10], []byte("60Z")))
				put("hour 24", x(b[:6], []byte("24"), b[8:]))
				put("day 31 of February", x(b[:2], []byte("0231"), b[6:]))
				put("year 49", x([]byte("49"), b[2:]))
				put("year 50", x([]byte("50"), b[2:]))
			}
		case 24:
			if len(b) == 15 {
				tag("time in short", 23, b[2:])
				tag("time of the other type", 23, b)
				put("time with a fraction", x(b[:14], []byte(".0Z")))
				put("time with half a second", x(b[:14], []byte(".5Z")))
				put("time with an offset", x(b[:14], []byte("+0000")))
				put("time with an offset of an hour", x(b[:14], []byte("-0100")))
				put("time without zone", b[:14])
			}
		}
		if n.kids != nil && n.tag&32 != 0 {
			ks := n.kids
			list := func(how string, l []*node) {
				n.kids = l
				docs, hows = append(docs, root.enc()), append(hows, fmt.Sprint(how, " of element ", i))
				*n = was
			}
			if len(ks) > 1 {
				var r []*node
				for j := len(ks) - 1; j >= 0; j-- {
					r = append(r, ks[j])
				}
				list("other order", r)
				list("last twice", append(append([]*node{}, ks...), ks[len(ks)-1]))
				list("first twice", append([]*node{ks[0]}, ks...))
				list("first behind", append(append([]*node{}, ks...), ks[0]))
				list("last gone", ks[:len(ks)-1])
				list("first gone", ks[1:])
			}
			list("nothing behind", append(append([]*node{}, ks...), &node{tag: 5}))
			list("nothing in front", append([]*node{{tag: 5}}, ks...))
		}
	}
	return docs, hows
}

// intBody is the content of the INTEGER v
func intBody(v *big.Int) []byte {
	if v.Sign() == 0 {
		return []byte{0}
	}
	n := v.BitLen()/8 + 1
	if v.Sign() < 0 {
		n = new(big.Int).Not(v).BitLen()/8 + 1
		v = new(big.Int).Add(v, new(big.Int).Lsh(big1, uint(8*n)))
	}
	return v.FillBytes(make([]byte, n))
}

// arcBody is the arc v of an identifier
func arcBody(v uint64) []byte {
	b := []byte{byte(v & 127)}
	for v >>= 7; v > 0; v >>= 7 {
		b = append([]byte{128 | byte(v&127)}, b...)
	}
	return b
}

// someNear are at most max of the documents near this one
func someNear(rng *Rng, der []byte, max int) (docs [][]byte, hows []string) {
	ds, hs := near(der)
	for len(ds) > max {
		j := rng.Intn(len(ds))
		ds[j], hs[j] = ds[len(ds)-1], hs[len(hs)-1]
		ds, hs = ds[:len(ds)-1], hs[:len(hs)-1]
	}
	return ds, hs
}
