package main

// Identifiers of digests and algorithms of package x509: what they say of themselves, the objects made from them, and the
// registry behind them.

import (
	"bytes"
	"crypto"
	"fmt"
	"hash"

	"github.com/mmdet/mcrypto/x509"
)

func init() {
	drivers["hashes"] = hashesDrv
	drivers["hashreg"] = hashReg
}

// the identifiers as declared, not as numbered
var hashIds = []x509.Hash{x509.MD4, x509.MD5, x509.SHA1, x509.SHA224, x509.SHA256, x509.SHA384, x509.SHA512, x509.MD5SHA1,
	x509.RIPEMD160, x509.SHA3_224, x509.SHA3_256, x509.SHA3_384, x509.SHA3_512, x509.SHA512_224, x509.SHA512_256,
	x509.BLAKE2s_256, x509.BLAKE2b_256, x509.BLAKE2b_384, x509.BLAKE2b_512, x509.SM3}

// those that come with the package
var linkedIds = []int{2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 20}

var sigIds = []x509.SignatureAlgorithm{x509.MD5WithRSA, x509.SHA1WithRSA, x509.SHA256WithRSA, x509.SHA384WithRSA, x509.SHA512WithRSA,
	x509.DSAWithSHA1, x509.DSAWithSHA256, x509.ECDSAWithSHA1, x509.ECDSAWithSHA256, x509.ECDSAWithSHA384, x509.ECDSAWithSHA512,
	x509.SHA256WithRSAPSS, x509.SHA384WithRSAPSS, x509.SHA512WithRSAPSS, x509.PureEd25519, x509.SM2WithSM3}

var keyIds = []x509.PublicKeyAlgorithm{x509.RSA, x509.DSA, x509.ECDSA, x509.Ed25519, x509.SM2}

// static: what an identifier says of itself (j = 0: not one of them)
func hashStatic(h x509.Hash, j int) M {
	e := M{"op": "static", "j": j, "dec": fmt.Sprint(uint(h)), "str": "", "size": -1, "avail": false, "made": false, "func": "", "std": true}
	try(func() { e["str"] = h.String() })
	try(func() { e["size"] = h.Size() })
	try(func() { e["avail"] = h.Available() })
	try(func() { e["made"] = h.New() != nil })
	try(func() { e["func"] = fmt.Sprint(uint(h.HashFunc())) })
	if f := crypto.Hash(h); j > 0 && j < 20 && e["made"] == true {
		try(func() {
			if f.Available() {
				a, b := h.New(), h.HashFunc().New()
				a.Write([]byte("abc"))
				b.Write([]byte("abc"))
				e["std"] = bytes.Equal(a.Sum(nil), b.Sum(nil))
			}
		})
	}
	return e
}

func hashesDrv(c *Ctx) {
	var hs [][]step
	readJSON(c.In, &hs)
	type job struct {
		label string
		ops   []step
		id    map[int]int // slot -> identifier
		rng   *Rng
	}
	var jobs []job
	// every function alone: lengths around its blocks, in one piece and in several
	for _, j := range linkedIds {
		var lens []int
		for n := 0; n <= 300; n++ {
			switch m := n % 64; {
			case !c.Quick, m == 0, m == 63, m == 1, m == 55, m == 56, n >= 111 && n <= 113, n%72 <= 1, n%72 == 71, n%104 <= 1, n%104 == 103, n%136 <= 1, n%136 >= 134, n%144 <= 1, n%144 >= 142, n < 4:
				lens = append(lens, n)
			}
		}
		for k := 0; k < len(lens); k += 4 {
			var ops []step
			for _, n := range lens[k:min2(k+4, len(lens))] {
				a := c.Rng.Intn(n + 1)
				ops = append(ops, step{Op: "write", O: 1, N: n}, step{Op: "sum", O: 1}, step{Op: "reset", O: 1},
					step{Op: "write", O: 2, N: a}, step{Op: "write", O: 2, N: n - a}, step{Op: "sum", O: 2, Pre: 4}, step{Op: "new", O: 2})
			}
			jobs = append(jobs, job{label: fmt.Sprint("lengths, digest ", j), ops: ops, id: map[int]int{1: j, 2: j}})
		}
	}
	// histories on several objects at a time
	for i, h := range hs {
		ids := map[int]int{}
		for o := 1; o <= 6; o++ {
			ids[o] = linkedIds[c.Rng.Intn(len(linkedIds))]
		}
		if i%3 == 0 { // all the same
			for o := 2; o <= 6; o++ {
				ids[o] = ids[1]
			}
		}
		var ops []step
		for _, s := range h {
			if s.Op != "one" {
				ops = append(ops, s)
			}
		}
		jobs = append(jobs, job{label: "history", ops: ops, id: ids})
	}
	for i := range jobs {
		jobs[i].rng = c.Rng.Fork()
	}
	out := make([]M, len(jobs))
	parallel(len(jobs), func(i int) {
		s := newRec(jobs[i].rng)
		s.mk = func(o int) (hash.Hash, int) { return hashIds[jobs[i].id[o]-1].New(), jobs[i].id[o] }
		s.play(jobs[i].ops)
		out[i] = M{"id": i + 1, "case": jobs[i].label, "ev": s.ev}
	})
	var st []M
	for j, h := range hashIds {
		st = append(st, hashStatic(h, j+1))
	}
	for _, h := range []x509.Hash{0, 21, 22, 23, 36, 255, 256, 257, 1 << 16, 1<<16 + 5, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 5, 1<<32 + 20, 1 << 62} {
		st = append(st, hashStatic(h, 0))
	}
	out = append(out, M{"id": len(out) + 1, "case": "identifiers", "ev": st})
	var nm []M
	name := func(of string, j int, n int, f func() string) {
		e := M{"op": "name", "of": of, "j": j, "dec": fmt.Sprint(n), "str": ""}
		e["panic"] = try(func() { e["str"] = f() })
		nm = append(nm, e)
	}
	for j, a := range sigIds {
		name("signature", j+1, int(a), a.String)
	}
	for j, a := range keyIds {
		name("key", j+1, int(a), a.String)
	}
	for _, n := range []int{0, -1, -16, 17, 18, 100, 256, 272, 1 << 16, 1 << 32, 1<<32 + 1, -1 << 40} {
		name("signature", 0, n, x509.SignatureAlgorithm(n).String)
		if n != 0 {
			name("key", 0, n, x509.PublicKeyAlgorithm(n).String)
		}
	}
	for _, n := range []int{0, 6, 7, 16, 261} {
		name("key", 0, n, x509.PublicKeyAlgorithm(n).String)
	}
	out = append(out, M{"id": len(out) + 1, "case": "names", "ev": nm})
	for _, m := range out {
		c.Out.Put(m)
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---- the registry

type fakeHash struct {
	hash.Hash
	tag string
}

// hashReg: one long history (the registry is the process's)
func hashReg(c *Ctx) {
	var hs [][]struct {
		Op     string
		J, Tag int
	}
	readJSON(c.In, &hs)
	own := map[int][]byte{}
	abc := func(h hash.Hash) []byte { h.Write([]byte("abc")); return h.Sum(nil) }
	for _, j := range linkedIds {
		try(func() { own[j] = abc(hashIds[j-1].New()) })
	}
	var ev []M
	for _, ops := range hs {
		for _, o := range ops {
			switch o.Op {
			case "register":
				tag := ""
				var f func() hash.Hash
				if o.Tag > 0 {
					t := fmt.Sprint("registered ", o.Tag)
					tag, f = t, func() hash.Hash { return fakeHash{tag: t} }
				}
				e := M{"op": "register", "j": o.J, "tag": tag}
				e["panic"] = try(func() { x509.RegisterHash(hashIds[o.J-1], f) })
				ev = append(ev, e)
			case "beyond":
				e := M{"op": "beyond"}
				for _, v := range []x509.Hash{21, 22, 255, 276, 1 << 33} {
					e["panic"] = try(func() { x509.RegisterHash(v, func() hash.Hash { return fakeHash{} }) })
					if e["panic"] == "" {
						break
					}
				}
				ev = append(ev, e)
			case "ask":
				h := hashIds[o.J-1]
				e := M{"op": "ask", "j": o.J, "avail": false, "made": "", "size": -1}
				try(func() { e["avail"] = h.Available() })
				try(func() { e["size"] = h.Size() })
				try(func() {
					switch x := h.New().(type) {
					case nil:
						e["made"] = "nil"
					case fakeHash:
						e["made"] = x.tag
					default:
						if bytes.Equal(abc(x), own[o.J]) && own[o.J] != nil {
							e["made"] = "own"
						} else {
							e["made"] = "other"
						}
					}
				})
				ev = append(ev, e)
			}
		}
	}
	c.Out.Put(M{"id": 1, "case": "registry", "ev": ev})
}
