package main

import (
	"crypto/cipher"
	"crypto/des"
	"crypto/hmac"
	"crypto/sha1"
	"math/bits"
	"strings"
)

// ---- what PKCS#12 stores are protected with, for writing stores (the specification has its own)

func p12KDF(id byte, salt, pw []byte, r, n int) []byte {
	fill := func(s []byte) []byte {
		o := make([]byte, (len(s)+63)/64*64)
		for i := range o {
			o[i] = s[i%len(s)]
		}
		return o
	}
	in := append(fill(salt), fill(pw)...)
	out := []byte{}
	for {
		m := make([]byte, 64, 64+len(in))
		for i := range m {
			m[i] = id
		}
		a := sha1.Sum(append(m, in...))
		for i := 1; i < r; i++ {
			a = sha1.Sum(a[:])
		}
		out = append(out, a[:]...)
		if len(out) >= n {
			return out[:n]
		}
		p12Step(in, a)
	}
}

// p12Step adds the repeated a and 1 to every block of 64; the carries out of the blocks
func p12Step(in []byte, a [20]byte) (carries []int) {
	for k := 0; k < len(in); k += 64 {
		c := 1
		for j := 63; j >= 0; j-- {
			c += int(in[k+j]) + int(a[j%20])
			in[k+j] = byte(c)
			c >>= 8
		}
		carries = append(carries, c)
	}
	return
}

// p12Hunt looks for a salt with which deriving a triple DES key passes through a rare place
func p12Hunt(rng *Rng, how string, pw []byte, r int) []byte {
	tries, n := 300000/(r+1), 8
	if strings.HasPrefix(how, "stale") && r == 1 {
		tries, n = 2000000, 128
	}
	var salt []byte
	for ; tries > 0; tries-- {
		salt = rng.Bytes(n)
		if n == 128 {
			// two blocks with leading zeros
			salt[0], salt[64], salt[65] = 0, 0, 0
			salt[1] |= 1
		}
		if how == "short" {
			salt[0] = 0
		}
		if how == "carry" {
			salt[0] |= 0xc0
		}
		a := sha1.Sum(nil)
		m := make([]byte, 64)
		for i := range m {
			m[i] = 1
		}
		in := make([]byte, (n+63)/64*64)
		for i := range in {
			in[i] = salt[i%n]
		}
		pb := make([]byte, (len(pw)+63)/64*64)
		for i := range pb {
			pb[i] = pw[i%len(pw)]
		}
		in = append(in, pb...)
		a = sha1.Sum(append(m, in...))
		for i := 1; i < r; i++ {
			a = sha1.Sum(a[:])
		}
		cs := p12Step(in, a)
		l := len(in) - 64
		hit := false
		switch how {
		case "lead0":
			hit = in[0] == 0
		case "lead1":
			hit = in[l] == 0
		case "lead00":
			hit = in[0] == 0 && in[1] == 0
		case "lead11":
			hit = in[l] == 0 && in[l+1] == 0
		case "stale":
			// neither sum overflows, and the second has more leading zeros than the first
			hit = in[0] == 0 && in[1] != 0 && in[64] == 0 && in[65] == 0 && cs[0]+cs[1] == 0
		case "short":
			hit = in[0] == 0 && cs[0] == 0
		case "carry":
			hit = cs[0] == 1
		case "carry1":
			hit = cs[len(cs)-1] == 1
		}
		if hit {
			break
		}
	}
	return salt
}

// RC2, encryption only
type rc2enc [64]uint16

var rc2pi = [256]byte{
	217, 120, 249, 196, 25, 221, 181, 237, 40, 233, 253, 121, 74, 160, 216, 157, 198, 126, 55, 131, 43, 118, 83, 142, 98, 76, 100, 136, 68, 139, 251, 162,
	23, 154, 89, 245, 135, 179, 79, 19, 97, 69, 109, 141, 9, 129, 125, 50, 189, 143, 64, 235, 134, 183, 123, 11, 240, 149, 33, 34, 92, 107, 78, 130,
	84, 214, 101, 147, 206, 96, 178, 28, 115, 86, 192, 20, 167, 140, 241, 220, 18, 117, 202, 31, 59, 190, 228, 209, 66, 61, 212, 48, 163, 60, 182, 38,
	111, 191, 14, 218, 70, 105, 7, 87, 39, 242, 29, 155, 188, 148, 67, 3, 248, 17, 199, 246, 144, 239, 62, 231, 6, 195, 213, 47, 200, 102, 30, 215,
	8, 232, 234, 222, 128, 82, 238, 247, 132, 170, 114, 172, 53, 77, 106, 42, 150, 26, 210, 113, 90, 21, 73, 116, 75, 159, 208, 94, 4, 24, 164, 236,
	194, 224, 65, 110, 15, 81, 203, 204, 36, 145, 175, 80, 161, 244, 112, 57, 153, 124, 58, 133, 35, 184, 180, 122, 252, 2, 54, 91, 37, 85, 151, 49,
	45, 93, 250, 152, 227, 138, 146, 174, 5, 223, 41, 16, 103, 108, 186, 201, 211, 0, 230, 207, 225, 158, 168, 44, 99, 22, 1, 63, 88, 226, 137, 169,
	13, 56, 52, 27, 171, 51, 255, 176, 187, 72, 12, 95, 185, 177, 205, 46, 197, 243, 219, 71, 229, 165, 156, 119, 10, 166, 32, 104, 254, 127, 193, 173}

func newRC2(key []byte, t1 int) *rc2enc {
	var l [128]byte
	copy(l[:], key)
	for i := len(key); i < 128; i++ {
		l[i] = rc2pi[l[i-1]+l[i-len(key)]]
	}
	t8 := (t1 + 7) / 8
	l[128-t8] = rc2pi[l[128-t8]&byte(255>>uint(8*t8-t1))]
	for i := 127 - t8; i >= 0; i-- {
		l[i] = rc2pi[l[i+1]^l[i+t8]]
	}
	var k rc2enc
	for i := range k {
		k[i] = uint16(l[2*i]) | uint16(l[2*i+1])<<8
	}
	return &k
}
func (k *rc2enc) BlockSize() int          { return 8 }
func (k *rc2enc) Decrypt(dst, src []byte) { panic("encryption only") }
func (k *rc2enc) Encrypt(dst, src []byte) {
	var r [4]uint16
	for i := range r {
		r[i] = uint16(src[2*i]) | uint16(src[2*i+1])<<8
	}
	for j := 0; j < 64; j++ {
		i := j % 4
		r[i] += k[j] + (r[(i+3)%4] & r[(i+2)%4]) + (^r[(i+3)%4] & r[(i+1)%4])
		r[i] = bits.RotateLeft16(r[i], []int{1, 2, 3, 5}[i])
		if j == 19 || j == 43 {
			for i := range r {
				r[i] += k[r[(i+3)%4]&63]
			}
		}
	}
	for i := range r {
		dst[2*i], dst[2*i+1] = byte(r[i]), byte(r[i]>>8)
	}
}

// p12Encrypt encrypts padded octets
func p12Encrypt(alg string, salt, pw []byte, r int, padded []byte) []byte {
	var b cipher.Block
	iv := p12KDF(2, salt, pw, r, 8)
	if alg == "rc2-40" || alg == "rc2-128" {
		n := map[string]int{"rc2-40": 5, "rc2-128": 16}[alg]
		b = newRC2(p12KDF(1, salt, pw, r, n), 8*n)
	} else {
		var err error
		if b, err = des.NewTripleDESCipher(p12KDF(1, salt, pw, r, 24)); err != nil {
			die(err)
		}
	}
	out := make([]byte, len(padded))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, padded)
	return out
}

func p12Mac(id byte, salt, pw []byte, r int, content []byte) []byte {
	h := hmac.New(sha1.New, p12KDF(id, salt, pw, r, 20))
	h.Write(content)
	return h.Sum(nil)
}
