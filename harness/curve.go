package main

// The curve object: parameters, membership, group operations, and the encodings crypto/elliptic makes with it.

import (
	"bytes"
	"crypto/elliptic"
	"crypto/rand"
	"fmt"
	"math/big"

	"github.com/mmdet/mcrypto/sm2"
)

func init() { drivers["curve"] = curveOps }

type curveScn struct {
	Op           string
	X, Y, X2, Y2 struct {
		Neg bool
		Mag B
	}
	K B
	// equal numbers are one object, and the generator's are the curve's own
	Alias bool
}

func numOf(neg bool, mag B) *big.Int {
	x := new(big.Int).SetBytes(mag)
	if neg {
		x.Neg(x)
	}
	return x
}

// the curve as users get hold of it
func curveObjects() []elliptic.Curve {
	own := &sm2.PublicKey{Curve: sm2.SM2P256V1()}
	cs := []elliptic.Curve{sm2.SM2P256V1(), own, own.Curve}
	var k *sm2.PrivateKey
	var err error
	if call(func() { k, err = sm2.GenerateKey(rand.Reader) }) == "" && err == nil && k != nil && k.Curve != nil {
		cs = append(cs, k.Curve, &k.PublicKey)
	}
	return cs
}

func curveOne(c elliptic.Curve, s curveScn, label string) M {
	x, y, x2, y2 := numOf(s.X.Neg, s.X.Mag), numOf(s.Y.Neg, s.Y.Mag), numOf(s.X2.Neg, s.X2.Mag), numOf(s.Y2.Neg, s.Y2.Mag)
	z := func(b *big.Int) Z { return SZ(b) }
	ev := M{"op": s.Op, "case": label, "x": z(x), "y": z(y), "x2": z(x2), "y2": z(y2), "k": s.K,
		"got": false, "ox": z(i2(0)), "oy": z(i2(0)), "kept": true, "again": true, "panic": ""}
	if s.Alias {
		for _, p := range []**big.Int{&x, &x2} {
			if (*p).Cmp(c.Params().Gx) == 0 {
				*p = c.Params().Gx
			}
		}
		if y.Cmp(c.Params().Gy) == 0 {
			y = c.Params().Gy
		}
		if x2.Cmp(x) == 0 {
			x2 = x
		}
		if y2.Cmp(y) == 0 {
			y2 = y
		}
	}
	k := clone(s.K)
	args := []*big.Int{x, y, x2, y2}
	var before []*big.Int
	for _, a := range args {
		before = append(before, new(big.Int).Set(a))
	}
	point := func(f func() (*big.Int, *big.Int)) {
		var rx, ry *big.Int
		if ev["panic"] = call(func() { rx, ry = f() }); ev["panic"] != "" {
			return
		}
		if rx == nil || ry == nil {
			ev["again"] = (rx == nil) == (ry == nil)
			return
		}
		ev["got"], ev["ox"], ev["oy"] = true, z(rx), z(ry)
		wx, wy := new(big.Int).Set(rx), new(big.Int).Set(ry)
		if s.Op != "params" {
			same := func(r *big.Int) bool {
				for _, a := range args {
					if a == r {
						return true
					}
				}
				return false
			}
			// the caller owns what it was given, unless it is what it passed
			if !same(rx) && !same(ry) {
				rx.Add(rx, big1)
				ry.SetInt64(77)
			}
		}
		var ax, ay *big.Int
		if ev["panic"] = call(func() { ax, ay = f() }); ev["panic"] != "" {
			return
		}
		ev["again"] = ax != nil && ay != nil && ax.Cmp(wx) == 0 && ay.Cmp(wy) == 0
	}
	switch s.Op {
	case "add":
		point(func() (*big.Int, *big.Int) { return c.Add(x, y, x2, y2) })
	case "double":
		point(func() (*big.Int, *big.Int) { return c.Double(x, y) })
	case "mult":
		point(func() (*big.Int, *big.Int) { return c.ScalarMult(x, y, k) })
	case "base":
		point(func() (*big.Int, *big.Int) { return c.ScalarBaseMult(k) })
	case "point":
		point(func() (*big.Int, *big.Int) { return elliptic.Unmarshal(c, k) })
	case "compressed":
		point(func() (*big.Int, *big.Int) { return elliptic.UnmarshalCompressed(c, k) })
	case "on":
		var a, b bool
		ev["panic"] = call(func() { a = c.IsOnCurve(x, y); b = c.IsOnCurve(x, y) })
		ev["on"], ev["again"] = a, a == b
	case "octets":
		var o1, o2 []byte
		ev["panic"] = call(func() { o1, o2 = elliptic.Marshal(c, x, y), elliptic.MarshalCompressed(c, x, y) })
		ev["o1"], ev["o2"] = B(o1), B(o2)
	case "params":
		ev["panic"] = call(func() {
			p := c.Params()
			ev["p"], ev["n"], ev["b"], ev["gx"], ev["gy"], ev["bits"] = N(p.P), N(p.N), N(p.B), N(p.Gx), N(p.Gy), p.BitSize
			ev["a"] = N(sm2.SM2P256V1().A)
		})
	default:
		die("unknown " + s.Op)
	}
	for i, a := range args {
		if a.Cmp(before[i]) != 0 {
			ev["kept"] = false
		}
	}
	if !bytes.Equal(k, s.K) {
		ev["kept"] = false
	}
	return ev
}

func curveOps(c *Ctx) {
	var scn []curveScn
	readJSON(c.In, &scn)
	// random points and scalars besides
	n := 60
	if !c.Quick {
		n = 1500
	}
	for i := 0; i < n; i++ {
		var a, b curveScn
		p, q := pmul(c.Rng.BigIn(big1, nm1), ecG), pmul(c.Rng.BigIn(big1, nm1), ecG)
		a.Op, a.X.Mag, a.Y.Mag = "mult", N(p.x), N(p.y)
		a.K = c.Rng.Bytes([]int{32, 32, 31, 33, 16, 48}[i%6])
		b = a
		b.Op, b.X2.Mag, b.Y2.Mag = "add", N(q.x), N(q.y)
		d := a
		d.Op = "base"
		scn = append(scn, a, b, d)
	}
	for _, s := range scn {
		if s.Op == "add" && s.X.Neg == s.X2.Neg && bytes.Equal(s.X.Mag, s.X2.Mag) || s.Op == "double" || s.Op == "add" && bytes.Equal(s.Y.Mag, s.Y2.Mag) {
			s.Alias = true
			scn = append(scn, s)
		}
	}
	objs := curveObjects()
	put(c, len(scn), func(i int) M {
		return curveOne(objs[i%len(objs)], scn[i], fmt.Sprint(scn[i].Op, " ", i))
	})
	// the parameters afterwards
	for i, o := range objs {
		c.Out.Put(curveOne(o, curveScn{Op: "params"}, fmt.Sprint("params at the end ", i)))
	}
}
