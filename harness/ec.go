package main

import "math/big"

// The SM2 curve with affine arithmetic of the driver's own: used only to craft inputs.

func hx(s string) *big.Int { x, _ := new(big.Int).SetString(s, 16); return x }

var (
	ecP  = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF")
	ecA  = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC")
	ecB  = hx("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93")
	ecN  = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123")
	ecG  = &pt{hx("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7"), hx("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")}
	big1 = big.NewInt(1)
	big0 = big.NewInt(0)
)

// nil is infinity
type pt struct{ x, y *big.Int }

func i2(x int64) *big.Int        { return big.NewInt(x) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func mod(a, m *big.Int) *big.Int { return new(big.Int).Mod(a, m) }
func inv(a, m *big.Int) *big.Int { return new(big.Int).ModInverse(mod(a, m), m) }

func (p *pt) neg() *pt {
	if p == nil {
		return nil
	}
	return &pt{p.x, mod(new(big.Int).Neg(p.y), ecP)}
}

func padd(p, q *pt) *pt {
	if p == nil {
		return q
	}
	if q == nil {
		return p
	}
	var l *big.Int
	if p.x.Cmp(q.x) == 0 {
		if p.y.Cmp(q.y) != 0 || p.y.Sign() == 0 {
			return nil
		}
		l = mul(add(mul(i2(3), mul(p.x, p.x)), ecA), inv(add(p.y, p.y), ecP))
	} else {
		l = mul(sub(q.y, p.y), inv(sub(q.x, p.x), ecP))
	}
	l = mod(l, ecP)
	x := mod(sub(sub(mul(l, l), p.x), q.x), ecP)
	return &pt{x, mod(sub(mul(l, sub(p.x, x)), p.y), ecP)}
}

func pmul(k *big.Int, p *pt) *pt {
	var r *pt
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = padd(r, r)
		if k.Bit(i) == 1 {
			r = padd(r, p)
		}
	}
	return r
}

func rhs(x *big.Int) *big.Int {
	return mod(add(add(mul(mul(x, x), x), mul(ecA, x)), ecB), ecP)
}

// lift gives a point with this x, or nil
func lift(x *big.Int) *pt {
	y := new(big.Int).ModSqrt(rhs(x), ecP)
	if y == nil {
		return nil
	}
	return &pt{x, y}
}

func on(x, y *big.Int) bool {
	return x.Sign() >= 0 && y.Sign() >= 0 && x.Cmp(ecP) < 0 && y.Cmp(ecP) < 0 && mod(mul(y, y), ecP).Cmp(rhs(x)) == 0
}

func b32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }
