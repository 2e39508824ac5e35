package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha1"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	drivers["p12make"] = p12Make
	drivers["p12design"] = p12Design
	drivers["p12bags"] = p12Bags
	drivers["p12attrs"] = p12AttrBags
	drivers["p12alter"] = p12Alter
	drivers["p12turns"] = p12Turns
	drivers["p12rc2"] = p12Rc2
}

// ---- decoding from every entry point

type p12env struct {
	dir string
}

func newP12env(c *Ctx) *p12env {
	d := filepath.Join(c.Dir, "p12")
	if err := os.MkdirAll(d, 0700); err != nil {
		die(err)
	}
	return &p12env{d}
}

func (v *p12env) file() string {
	f, err := os.CreateTemp(v.dir, "store")
	if err != nil {
		die(err)
	}
	f.Close()
	return f.Name()
}

func p12Blocks(bs []*pem.Block) []M {
	out := []M{}
	for _, b := range bs {
		if b == nil {
			out = append(out, M{"type": "nil", "bytes": B{}, "hdrs": []M{}})
			continue
		}
		hs := []M{}
		for k, x := range b.Headers {
			hs = append(hs, M{"k": k, "v": B(x)})
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i]["k"].(string) < hs[j]["k"].(string) })
		out = append(out, M{"type": b.Type, "bytes": B(b.Bytes), "hdrs": hs})
	}
	return out
}

// tries decodes with every entry point; the second result says whether the standard library reads the first certificate
func (v *p12env) tries(der []byte, pw string, want map[string]string) ([]M, bool) {
	std := false
	var out []M
	for _, how := range []string{"all", "one", "pem", "file"} {
		t := M{"how": how, "want": want[how], "blocks": []M{}, "certs": []B{}}
		var key interface{}
		var certs []*x509.Certificate
		var raws []B
		var blocks []*pem.Block
		var err error
		in := clone(der)
		t["panic"] = call(func() {
			switch how {
			case "all":
				key, certs, err = pkcs12.DecodeAll(in, pw)
			case "one":
				var c *stdx509.Certificate
				key, c, err = pkcs12.Decode(in, pw)
				if c != nil {
					raws = append(raws, B(c.Raw))
					if _, e := stdx509.ParseCertificate(c.Raw); e != nil {
						raws[0] = B("nothing that can be read")
					}
				}
			case "pem":
				blocks, err = pkcs12.ToPEM(in, pw)
			case "file":
				name := v.file()
				if e := os.WriteFile(name, in, 0600); e != nil {
					die(e)
				}
				var c *x509.Certificate
				c, key, err = pkcs12.SM2P12Decrypt(name, pw)
				os.Remove(name)
				if c != nil {
					certs = append(certs, c)
				}
			}
		})
		if t["panic"] != "" {
			key, certs, raws, blocks, err = nil, nil, nil, nil, nil
		}
		for _, c := range certs {
			if c == nil {
				raws = append(raws, B{})
			} else {
				raws = append(raws, B(c.Raw))
			}
		}
		if how == "all" && len(raws) > 0 {
			_, e := stdx509.ParseCertificate(raws[0])
			std = e == nil
		}
		if raws != nil {
			t["certs"] = raws
		}
		t["err"], t["bad"] = es(err), err == pkcs12.ErrIncorrectPassword
		t["key"], t["blocks"] = privRec(key), p12Blocks(blocks)
		if len(blocks) > 0 && len(pw)%2 == 0 {
			// what is returned is the caller's: what becomes of one block changes neither the others nor what comes next
			bs := t["blocks"].([]M)
			scribble(blocks[0])
			copy(bs[1:], p12Blocks(blocks[1:]))
			in = clone(der)
			var more []*pem.Block
			if p := call(func() { more, _ = pkcs12.ToPEM(in, pw) }); p != "" {
				t["panic"] = p
			}
			if len(more) > 0 {
				bs[0] = p12Blocks(more[:1])[0]
			} else {
				bs[0]["type"] = "none the second time"
			}
		}
		if how == "pem" {
			t["got"] = len(blocks) > 0
		} else if err != nil {
			t["got"] = !isNil(key) || len(raws) > 0
		} else {
			t["got"] = !isNil(key) && len(raws) > 0
		}
		out = append(out, t)
	}
	return out, std
}

func (v *p12env) event(der []byte, pw, cs string, want map[string]string) M {
	ts, std := v.tries(der, pw, want)
	return M{"op": "p12", "case": cs, "der": B(clone(der)), "pw": B(pw), "tries": ts, "std": std}
}

// ---- the cast

type p12cast struct {
	keys  keyring
	certs map[string]*x509.Certificate
}

func p12Cert(rng *Rng, keys keyring, key, cn, issuer string, ca bool) *x509.Certificate {
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(1 + rng.Intn(1<<30))), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Unix(1600000000, 0),
		NotAfter: time.Unix(1900000000, 0), SignatureAlgorithm: x509.SM2WithSM3, IsCA: ca, BasicConstraintsValid: ca}
	der, err := x509.CreateCertificate(rng, t, &x509.Certificate{Subject: pkix.Name{CommonName: issuer}}, keys.pub(key), &signer{key: keys["ca"], mode: "ok", rng: rng})
	if err != nil {
		die(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		die(err)
	}
	return c
}

var p12Kinds = []string{"sm2", "rsa", "p256", "p384", "p224", "p521", "ed25519", "rsa3", "shortsm2", "shortp256"}

func p12People(rng *Rng) *p12cast {
	keys := newKeyring(rng)
	n := new(big.Int).Sub(sm2.SM2P256V1().Params().N, big.NewInt(2))
	keys["ca"] = mkKey(rng.BigIn(big.NewInt(1), n))
	keys["rsa3"] = newRSA(rng, 1100, 3, 3)
	keys["shortsm2"] = mkKey(shortKeys(rng, 1)[0])
	keys["shortp256"] = ecPriv(elliptic.P256(), new(big.Int).SetBytes(rng.Bytes(30)))
	c := &p12cast{keys: keys, certs: map[string]*x509.Certificate{}}
	for _, k := range p12Kinds {
		c.certs[k] = p12Cert(rng, keys, k, "e "+k, "ca", false)
	}
	c.certs["ca"] = p12Cert(rng, keys, "ca", "ca", "root", true)
	c.certs["root"] = p12Cert(rng, keys, "sm2b", "root", "root", true)
	c.certs["other"] = p12Cert(rng, keys, "sm2b", "other", "ca", false)
	return c
}

// ---- writing stores

func bmpOf(s string) []byte {
	out := []byte{}
	for _, u := range utf16.Encode([]rune(s)) {
		out = append(out, byte(u>>8), byte(u))
	}
	return out
}

func p12Password(how string) string {
	switch how {
	case "plain":
		return "Secret 1"
	case "empty", "nil":
		return ""
	case "unicode":
		return "pässwörd ü中文 š"
	case "top":
		return "\uffff\ufffe\ue000\u0100"
	case "long":
		return strings.Repeat("long ", 20)
	case "exact":
		return strings.Repeat("x", 31) // 64 octets with the terminator
	case "exactplus":
		return strings.Repeat("y", 32)
	case "twoblocks":
		return strings.Repeat("zé", 31) + "z"
	case "space":
		return " "
	case "controls":
		return "\t\n\x7f\u0080"
	case "nul":
		return "\x00"
	case "nulend":
		return "ab\x00"
	}
	die("password " + how)
	return ""
}

func p12OtherPassword(pw, how string) string {
	rs := []rune(pw)
	conv := func(f func(rune) rune) string {
		o := make([]rune, len(rs))
		for i, r := range rs {
			o[i] = f(r)
		}
		return string(o)
	}
	switch how {
	case "same":
		return pw
	case "other":
		return "another"
	case "case":
		if s := strings.ToUpper(pw); s != pw {
			return s
		}
		return strings.ToLower(pw)
	case "prefix":
		if len(rs) > 0 {
			return string(rs[:len(rs)-1])
		}
	case "suffix":
		return pw + "x"
	case "empty":
		return ""
	case "space":
		return pw + " "
	case "high":
		return conv(func(r rune) rune { return 0x2500 | r&0xff })
	case "low":
		return conv(func(r rune) rune { return r & 0xff })
	case "swapped":
		return conv(func(r rune) rune {
			if x := r>>8&0xff | r&0xff<<8; x < 0xd800 || x > 0xdfff {
				return x
			}
			return r
		})
	case "nulend":
		return pw + "\x00"
	case "twice":
		return pw + pw
	case "astral":
		return pw + "\U0001f600"
	case "astralcut":
		return pw + "\uf600"
	case "badutf8":
		return pw + "\xff"
	case "surrogate":
		return pw + "\xed\xa0\x80"
	case "bom":
		return "\ufeff" + pw
	case "composed":
		return pw + "\u0301"
	}
	return pw
}

func p12Pad(how string, pt []byte) []byte {
	n := 8 - len(pt)%8
	rep := func(k, x int) []byte { return bytes.Repeat([]byte{byte(x)}, k) }
	pad := rep(n, n)
	switch how {
	case "zero":
		pad[n-1] = 0
	case "nine":
		pad = rep(n, 9)
	case "last":
		pad[n-1]++
	case "first":
		pad[0] ^= 1
	case "middle":
		// neither the first nor the last, where there is such an octet
		if n > 2 {
			pad[1+len(pt)%(n-2)] ^= 1
		} else {
			pad[0] ^= 1
		}
	case "more":
		pad = rep(n+8, n+8)
	case "less":
		pad = rep(n, n-1)
	case "none":
		pad = rep(n%8, 0)
	case "all":
		return rep(8, 8)
	case "twofifty":
		pad[n-1] = 250
	}
	return append(clone(pt), pad...)
}

func iterTLV(how string) ([]byte, int) {
	lit := func(x int64) []byte { return signedInt(big.NewInt(x)) }
	switch how {
	case "absent", "missing":
		return nil, 1
	case "one", "1":
		return lit(1), 1
	case "0":
		return lit(0), 1
	case "-1":
		return lit(-1), 1
	case "over":
		return lit(1<<24 + 1), 1
	case "huge":
		return lit(1 << 62), 1
	case "negative":
		return lit(-1 << 40), 1
	case "wide":
		return signedInt(new(big.Int).Lsh(big.NewInt(1), 70)), 1
	case "bound":
		return lit(1 << 20), 1 << 20
	}
	var n int64
	fmt.Sscan(how, &n)
	return lit(n), int(n)
}

func p12oid(x ...int) []byte { return oidTLV(append([]int{1, 2, 840, 113549, 1}, x...)...) }

// p12Salt is the salt for a choice
func p12Salt(rng *Rng, how string, pw []byte, r int) []byte {
	if len(how) == 4 && how[:3] == "fix" {
		return []byte("salt of " + how)
	}
	var n int
	if k, _ := fmt.Sscan(how, &n); k == 1 {
		return rng.Bytes(n)
	}
	if len(pw) == 0 || r > 100 {
		return rng.Bytes(8)
	}
	return p12Hunt(rng, how, pw, r)
}

// p12Pbe encrypts: AlgorithmIdentifier and ciphertext
func p12Pbe(rng *Rng, alg, saltHow, iterHow, padHow string, bmp, pt []byte) (ai, ct []byte) {
	it, r := iterTLV(iterHow)
	salt := p12Salt(rng, saltHow, bmp, r)
	oid := map[string][]byte{"3des": p12oid(12, 1, 3), "rc2-40": p12oid(12, 1, 6), "rc2-128": p12oid(12, 1, 5), "rc4": p12oid(12, 1, 1), "3des-2key": p12oid(12, 1, 4), "pbes2": p12oid(5, 13)}[alg]
	ai = seqOf(oid, seqOf(tlv(4, salt), it))
	ct = p12Encrypt(alg, salt, bmp, r, p12Pad(padHow, pt))
	switch padHow {
	case "cut":
		ct = ct[:len(ct)-3]
	case "longer":
		ct = append(ct, rng.Bytes(8)...)
	case "empty":
		ct = nil
	}
	return
}

func p12Attrs(rng *Rng, how string, id []byte) []byte {
	at := func(oid []byte, vals ...[]byte) []byte { return seqOf(oid, setOf(vals...)) }
	name, local, csp := p12oid(9, 20), p12oid(9, 21), oidTLV(1, 3, 6, 1, 4, 1, 311, 17, 1)
	bs := func(b []byte) []byte { return tlv(30, b) }
	fid := at(local, tlv(4, id))
	fname := at(name, bs(bmpOf("Añ 中")))
	switch how {
	case "none":
		return nil
	case "empty":
		return setOf()
	case "name":
		return setOf(fname)
	case "csp":
		return setOf(at(csp, bs(bmpOf("Provider 1"))))
	case "both":
		return setOf(fname, fid)
	case "all":
		return setOf(fid, at(csp, bs(bmpOf("P"))), fname)
	case "nameempty":
		return setOf(at(name, bs(nil)))
	case "namenul":
		return setOf(at(name, bs(bmpOf("a\x00b"))))
	case "nameterm":
		return setOf(at(name, bs(bmpOf("term\x00"))))
	case "nameodd":
		return setOf(at(name, bs([]byte{0, 65, 0})))
	case "namepair":
		return setOf(at(name, bs(bmpOf("pair \U0001f600"))))
	case "namelone":
		return setOf(at(name, bs([]byte{0xd8, 0x3d, 0, 65, 0xde, 0})))
	case "nameutf8":
		return setOf(at(name, tlv(12, []byte("utf8"))))
	case "nametwo":
		return setOf(at(name, bs(bmpOf("one")), bs(bmpOf("two"))))
	case "namenone":
		return setOf(at(name))
	case "idstring":
		return setOf(at(local, tlv(12, id)))
	case "idempty":
		return setOf(at(local, tlv(4, nil)))
	case "unknown":
		return setOf(fid, at(oidTLV(1, 2, 3, 4), tlv(5, nil)))
	case "twice":
		return setOf(fname, at(name, bs(bmpOf("again"))))
	case "notset":
		return setOf(seqOf(name, bs(bmpOf("bare"))))
	case "attrextra":
		return setOf(seqOf(local, setOf(tlv(4, id)), tlv(5, nil)))
	case "attrshort":
		return setOf(seqOf(local))
	}
	return setOf(fid)
}

func p12Bag(kind int, value, attrs []byte) []byte {
	return seqOf(p12oid(12, 10, 1, kind), tlv(160, value), attrs)
}
func p12CertBag(oid, cert, attrs []byte) []byte {
	return p12Bag(3, seqOf(oid, tlv(160, tlv(4, cert))), attrs)
}

var p12x509 = p12oid(9, 22, 1)

// hook alters one of the parts a store is made of, before it is protected
type p12hook struct {
	at string
	f  func([]byte) []byte
}

func (h *p12hook) on(at string, b []byte) []byte {
	if h != nil && h.at == at {
		return h.f(clone(b))
	}
	return b
}

func (c *p12cast) store(rng *Rng, ch map[string]string, h *p12hook) (der []byte, dpw string) {
	pw, word := ch["word"]
	if !word {
		pw = p12Password(ch["pw"])
	}
	bmp := append(bmpOf(pw), 0, 0)
	if ch["pw"] == "nil" {
		bmp = nil
	}
	dpw = p12OtherPassword(pw, ch["dpw"])
	kname := ch["key"]
	ee := c.certs[kname].Raw
	id := sha1.Sum(ee)
	cattrs := p12Attrs(rng, ch["cattrs"], id[:])
	first := true
	bag := func(cert []byte) []byte {
		a := cattrs
		if !first {
			a = nil
		}
		first = false
		return p12CertBag(p12x509, h.on("cert", cert), a)
	}
	var certs [][]byte
	switch how := ch["certs"]; how {
	case "none":
	case "twoinone":
		certs = append(certs, bag(cat(ee, c.certs["ca"].Raw)))
	case "certtrailing":
		certs = append(certs, bag(cat(ee, []byte{0})))
	case "emptybag":
		certs = append(certs, bag(nil))
	case "notoctets":
		certs = append(certs, p12Bag(3, seqOf(p12x509, tlv(160, ee)), cattrs))
	case "bagextra":
		certs = append(certs, p12Bag(3, cat(seqOf(p12x509, tlv(160, tlv(4, ee))), []byte{5, 0}), cattrs))
	case "badid":
		certs = append(certs, p12CertBag([]byte{6, 1, 0x80}, ee, cattrs))
	default:
		for _, n := range strings.Fields(how) {
			switch n {
			case "A":
				certs = append(certs, bag(ee))
			case "junk":
				certs = append(certs, bag(seqOf([]byte{5, 0})))
			case "sdsi":
				certs = append(certs, p12CertBag(p12oid(9, 22, 2), tlv(22, []byte("c2RzaQ==")), nil))
			case "crl":
				certs = append(certs, p12Bag(4, seqOf(p12oid(9, 23, 1), tlv(160, tlv(4, ee))), nil))
			case "other", "nested":
				k := map[string]int{"other": 5, "nested": 6}[n]
				v := seqOf(oidTLV(1, 2, 3), tlv(160, tlv(4, []byte("secret"))))
				if n == "nested" {
					v = seqOf(p12CertBag(p12x509, c.certs["ca"].Raw, nil))
				}
				certs = append(certs, p12Bag(k, v, nil))
			case "plainkey":
				certs = append(certs, bag(ee), p12Bag(1, c.pkcs8("sm2b"), nil))
			default:
				certs = append(certs, bag(c.certs[n].Raw))
			}
		}
	}
	kattrs := p12Attrs(rng, ch["kattrs"], id[:])
	shroud := func(pt []byte, edit ...string) []byte {
		m := map[string]string{"kalg": ch["kalg"], "ksalt": ch["ksalt"], "kiter": ch["kiter"], "kpad": ch["kpad"]}
		for i := 0; i < len(edit); i += 2 {
			m[edit[i]] = edit[i+1]
		}
		ai, ct := p12Pbe(rng, m["kalg"], m["ksalt"], m["kiter"], m["kpad"], bmp, pt)
		return h.on("keybag", seqOf(ai, tlv(4, ct)))
	}
	p8 := h.on("pkcs8", c.pkcs8(kname))
	kbag := func(v []byte) []byte { return p12Bag(2, v, kattrs) }
	one := kbag(shroud(p8))
	var keys [][]byte
	switch ch["keys"] {
	case "none":
	case "two":
		keys = [][]byte{one, kbag(shroud(c.pkcs8("sm2b")))}
	case "same":
		keys = [][]byte{one, one}
	case "bad":
		keys = [][]byte{kbag(shroud(p8, "kpad", "zero"))}
	case "badfirst":
		keys = [][]byte{kbag(shroud(p8, "kpad", "nine")), one}
	case "badsecond":
		keys = [][]byte{one, kbag(shroud(p8, "kpad", "nine"))}
	case "plain":
		keys = [][]byte{p12Bag(1, p8, kattrs)}
	case "unshrouded":
		keys = [][]byte{p12Bag(2, p8, kattrs)}
	case "trailing":
		keys = [][]byte{kbag(shroud(cat(p8, []byte{0})))}
	case "sec1":
		keys = [][]byte{kbag(shroud(c.keyDER("sec1", "p256")))}
	case "emptykey":
		keys = [][]byte{kbag(shroud(nil))}
	case "junk":
		keys = [][]byte{kbag(shroud(seqOf([]byte{2, 1, 0}, []byte{5, 0})))}
	case "garbage":
		keys = [][]byte{kbag(rng.Bytes(40))}
	case "keybagtrailing":
		keys = [][]byte{kbag(cat(shroud(p8), []byte{5, 0}))}
	case "certinkey":
		keys = [][]byte{kbag(shroud(ee))}
	default:
		keys = [][]byte{one}
	}
	cdata, kdata := h.on("certbags", seqOf(certs...)), h.on("keybags", seqOf(keys...))
	data := func(b []byte) []byte { return seqOf(p12oid(7, 1), tlv(160, tlv(4, b))) }
	enc := func(b []byte, edit ...string) []byte {
		m := map[string]string{"v": "0", "t": "1"}
		for i := 0; i < len(edit); i += 2 {
			m[edit[i]] = edit[i+1]
		}
		ai, ct := p12Pbe(rng, ch["calg"], ch["csalt"], ch["citer"], ch["cpad"], bmp, b)
		typ := p12oid(7, 1)
		if m["t"] == "2" {
			typ = p12oid(7, 2)
		}
		ect := tlv(128, ct)
		if m["p"] == "c" {
			ect = tlv(160, tlv(4, ct))
		} else if m["p"] == "n" {
			ect = nil
		}
		return seqOf(p12oid(7, 6), tlv(160, h.on("encdata", seqOf(smallInt(m["v"]), seqOf(typ, ai, ect)))))
	}
	var safes [][]byte
	switch ch["safes"] {
	case "encdata":
		safes = [][]byte{enc(cdata), data(kdata)}
	case "dataenc":
		safes = [][]byte{data(cdata), enc(kdata)}
	case "encenc":
		safes = [][]byte{enc(cdata), enc(kdata)}
	case "datadata":
		safes = [][]byte{data(cdata), data(kdata)}
	case "one":
		safes = [][]byte{enc(seqOf(append(certs, keys...)...))}
	case "onlykey":
		safes = [][]byte{data(kdata)}
	case "three":
		safes = [][]byte{enc(cdata), data(kdata), data(seqOf(p12CertBag(p12x509, c.certs["ca"].Raw, nil)))}
	case "threeempty":
		safes = [][]byte{enc(cdata), data(kdata), data(seqOf())}
	case "none":
	case "enveloped":
		safes = [][]byte{seqOf(p12oid(7, 3), tlv(160, seqOf([]byte{2, 1, 0}))), data(kdata)}
	case "encversion":
		safes = [][]byte{enc(cdata, "v", "2"), data(kdata)}
	case "enctype":
		safes = [][]byte{enc(cdata, "t", "2"), data(kdata)}
	case "encprimitive":
		safes = [][]byte{enc(cdata, "p", "c"), data(kdata)}
	case "encnone":
		safes = [][]byte{enc(cdata, "p", "n"), data(kdata)}
	case "datatrailing":
		safes = [][]byte{enc(cdata), seqOf(p12oid(7, 1), tlv(160, cat(tlv(4, kdata), []byte{5, 0})))}
	case "dataconstructed":
		safes = [][]byte{enc(cdata), seqOf(p12oid(7, 1), tlv(160, tlv(36, tlv(4, kdata))))}
	case "bagstrailing":
		safes = [][]byte{enc(cat(cdata, []byte{5, 0})), data(kdata)}
	case "bagsset":
		safes = [][]byte{enc(setOf(certs...)), data(kdata)}
	case "keyfirst":
		safes = [][]byte{data(kdata), enc(cdata)}
	case "together":
		safes = [][]byte{enc(seqOf(append(append([][]byte{}, certs...), keys...)...)), data(seqOf())}
	case "notype":
		safes = [][]byte{enc(cdata), seqOf(p12oid(7, 1))}
	}
	return c.seal(rng, ch, bmp, pw, h.on("authsafe", seqOf(safes...)), h), dpw
}

// seal puts the authenticated safe under the MAC
func (c *p12cast) seal(rng *Rng, ch map[string]string, bmp []byte, pw string, content []byte, h *p12hook) []byte {
	it, r := iterTLV(ch["miter"])
	salt := p12Salt(rng, ch["msalt"], bmp, r)
	octets := tlv(4, content)
	id, msg, key, ms := byte(3), content, bmp, salt
	switch ch["mac"] {
	case "id1":
		id = 1
	case "id2":
		id = 2
	case "tlv":
		msg = octets
	case "nosalt":
		ms = nil
	case "unterminated":
		if len(bmp) >= 2 {
			key = bmp[:len(bmp)-2]
		}
	case "latin":
		key = []byte(pw)
	}
	mac := p12Mac(id, ms, key, r, msg)
	alg := seqOf(oidTLV(1, 3, 14, 3, 2, 26), []byte{5, 0})
	switch ch["mac"] {
	case "firstbit":
		mac[0] ^= 1
	case "lastbit":
		mac[19] ^= 128
	case "short":
		mac = mac[:19]
	case "long":
		mac = append(mac, 0)
	case "empty":
		mac = nil
	case "zero":
		mac = make([]byte, 20)
	case "sha256":
		alg = seqOf(oidTLV(2, 16, 840, 1, 101, 3, 4, 2, 1), []byte{5, 0})
	case "md5":
		alg = seqOf(p12oidMD5, []byte{5, 0})
	case "noparams":
		alg = seqOf(oidTLV(1, 3, 14, 3, 2, 26))
	case "nulls":
		alg = seqOf(oidTLV(1, 3, 14, 3, 2, 26), []byte{5, 0}, []byte{5, 0})
	}
	md := seqOf(seqOf(alg, tlv(4, mac)), tlv(4, salt), it)
	ver := map[string][]byte{"long": {2, 2, 0, 3}}[ch["version"]]
	if ver == nil {
		ver = smallInt(ch["version"])
	}
	ct := seqOf(p12oid(7, 1), tlv(160, octets))
	switch ch["outer"] {
	case "signed":
		ct = seqOf(p12oid(7, 2), tlv(160, octets))
	case "nocontent":
		ct = seqOf(p12oid(7, 1))
	case "emptycontent":
		ct = seqOf(p12oid(7, 1), tlv(160, nil))
	case "constructed":
		ct = seqOf(p12oid(7, 1), tlv(160, tlv(36, octets)))
	case "utf8":
		ct = seqOf(p12oid(7, 1), tlv(160, tlv(12, content)))
	case "twoinside":
		ct = seqOf(p12oid(7, 1), tlv(160, cat(octets, octets)))
	case "macset":
		md = append([]byte{49}, md[1:]...)
	case "extra":
		ct = seqOf(p12oid(7, 1), tlv(160, octets), []byte{5, 0})
	case "macextra":
		md = seqOf(seqOf(alg, tlv(4, mac)), tlv(4, salt), it, []byte{5, 0})
	}
	if ch["mac"] == "absent" {
		md = nil
	}
	out := seqOf(ver, ct, h.on("macdata", md))
	switch ch["outer"] {
	case "trailing":
		out = append(out, 0)
	case "innertrailing":
		out = seqOf(ver, ct, md, []byte{5, 0})
	case "set":
		out[0] = 49
	}
	return h.on("pfx", out)
}

var p12oidMD5 = oidTLV(1, 2, 840, 113549, 2, 5)

func (c *p12cast) keyDER(fm, name string) []byte {
	k := c.keys[name]
	if fm == "pkcs8" {
		// by the standard library where it can
		if _, ok := k.(*sm2.PrivateKey); !ok {
			if der, err := stdx509.MarshalPKCS8PrivateKey(k); err == nil {
				return der
			}
		}
		s := k.(*sm2.PrivateKey)
		oid := oidTLV(1, 2, 156, 10197, 1, 301)
		sec := seqOf([]byte{2, 1, 1}, tlv(4, b32(s.D)), tlv(161, tlv(3, cat([]byte{0, 4}, b32(s.X), b32(s.Y)))))
		return seqOf([]byte{2, 1, 0}, seqOf(oidTLV(1, 2, 840, 10045, 2, 1), oid), tlv(4, sec))
	}
	der, err := stdx509.MarshalECPrivateKey(k.(*ecdsa.PrivateKey))
	if err != nil {
		die(err)
	}
	return der
}
func (c *p12cast) pkcs8(name string) []byte { return c.keyDER("pkcs8", name) }

func p12Plain(edit ...string) map[string]string {
	m := map[string]string{"pw": "plain", "dpw": "same", "key": "sm2", "msalt": "8", "miter": "absent", "mac": "good", "version": "3", "outer": "data", "safes": "encdata",
		"calg": "rc2-40", "kalg": "3des", "csalt": "8", "ksalt": "8", "citer": "1", "kiter": "1", "cpad": "good", "kpad": "good", "certs": "A", "keys": "one",
		"cattrs": "id", "kattrs": "id"}
	for i := 0; i < len(edit); i += 2 {
		m[edit[i]] = edit[i+1]
	}
	return m
}

// p12Turns opens the same stores one after the other with their own passwords, each other's, and others of the same lengths
func p12Turns(c *Ctx) {
	v := newP12env(c)
	cast := p12People(c.Rng)
	rng := c.Rng
	rounds := 2
	if !c.Quick {
		rounds = 30
	}
	for r := 0; r < rounds; r++ {
		words := []string{"turns", "tuRns", "turn", "", "sn"}
		var ders [][]byte
		for i, w := range words {
			der, _ := cast.store(rng, p12Plain("miter", []string{"one", "2"}[rng.Intn(2)], "word", w, "safes", []string{"encdata", "dataenc", "datadata"}[i%3]), nil)
			ders = append(ders, der)
		}
		// the same contents and salts with another password: what differs is the password alone
		seed := int64(rng.Intn(1 << 30))
		for _, w := range []string{"alpha", "bravo"} {
			words = append(words, w)
			der, _ := cast.store(NewRng(seed), p12Plain("word", w), nil)
			ders = append(ders, der)
		}
		var pairs [][2]int
		for i := range ders {
			for j := range words {
				pairs = append(pairs, [2]int{i, j})
			}
		}
		for k := 0; k < 2; k++ {
			for i := range pairs {
				j := i + rng.Intn(len(pairs)-i)
				pairs[i], pairs[j] = pairs[j], pairs[i]
			}
			for _, p := range pairs {
				c.Out.Put(v.event(ders[p[0]], words[p[1]], fmt.Sprint("turns ", r, k, ": store of ", words[p[0]], " with ", words[p[1]]), nil))
			}
		}
	}
}

func p12Design(c *Ctx) {
	var scn []p7Scn
	readJSON(c.In, &scn)
	v := newP12env(c)
	casts := []*p12cast{p12People(c.Rng), p12People(c.Rng)}
	rngs := make([]*Rng, len(scn))
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	put(c, len(scn), func(i int) M {
		der, pw := casts[i%len(casts)].store(rngs[i], scn[i].Ch, nil)
		return v.event(der, pw, scn[i].Case, nil)
	})
}

// ---- sequences of bags

func p12Bags(c *Ctx) {
	var scn []struct {
		Case  string            `json:"case"`
		Bags  []string          `json:"bags"`
		Split int               `json:"split"`
		Right bool              `json:"right"`
		Want  map[string]string `json:"want"`
	}
	readJSON(c.In, &scn)
	v := newP12env(c)
	cast := p12People(c.Rng)
	rngs := make([]*Rng, len(scn))
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	put(c, len(scn), func(i int) M {
		s, rng := scn[i], rngs[i]
		pw := p12Password([]string{"plain", "empty", "unicode", "long"}[rng.Intn(4)])
		bmp := append(bmpOf(pw), 0, 0)
		var bags [][]byte
		for _, k := range s.Bags {
			var b []byte
			key := func(name, pad string) []byte {
				ai, ct := p12Pbe(rng, []string{"3des", "3des", "rc2-40"}[rng.Intn(3)], "8", "1", pad, bmp, cast.pkcs8(name))
				return p12Bag(2, seqOf(ai, tlv(4, ct)), nil)
			}
			switch k {
			case "Csm2":
				b = p12CertBag(p12x509, cast.certs[[]string{"sm2", "ca", "root", "other"}[rng.Intn(4)]].Raw, nil)
			case "Cp256":
				b = p12CertBag(p12x509, cast.certs[[]string{"p256", "p384", "rsa"}[rng.Intn(3)]].Raw, nil)
			case "Ksm2":
				b = key("sm2", "good")
			case "Krsa":
				b = key("rsa", "good")
			case "Kp256":
				b = key([]string{"p256", "p384"}[rng.Intn(2)], "good")
			case "Kbad":
				b = key("sm2", []string{"zero", "nine", "more"}[rng.Intn(3)])
			case "Cjunk":
				b = p12CertBag(p12x509, seqOf([]byte{5, 0}), nil)
			case "Csdsi":
				b = p12CertBag(p12oid(9, 22, 2), tlv(22, []byte("c2RzaQ==")), nil)
			case "other":
				b = p12Bag(4+rng.Intn(3), seqOf(), nil)
			default:
				die("bag " + k)
			}
			bags = append(bags, b)
		}
		ch := p12Plain()
		var safes [][]byte
		for _, part := range [][][]byte{bags[:s.Split], bags[s.Split:]} {
			if rng.Intn(2) == 0 {
				safes = append(safes, seqOf(p12oid(7, 1), tlv(160, tlv(4, seqOf(part...)))))
				continue
			}
			ai, ct := p12Pbe(rng, []string{"rc2-40", "rc2-40", "3des"}[rng.Intn(3)], "8", "1", "good", bmp, seqOf(part...))
			safes = append(safes, seqOf(p12oid(7, 6), tlv(160, seqOf([]byte{2, 1, 0}, seqOf(p12oid(7, 1), ai, tlv(128, ct))))))
		}
		der := cast.seal(rng, ch, bmp, pw, seqOf(safes...), nil)
		if !s.Right {
			pw += "?"
		}
		return v.event(der, pw, s.Case, s.Want)
	})
}

// p12AttrBags writes bags with the attributes designed by P12AttrGen
func p12AttrBags(c *Ctx) {
	var scn []struct {
		Bags []struct {
			Kind  string
			Attrs []struct {
				Type  string
				Len   int
				Units []int
			}
		}
	}
	readJSON(c.In, &scn)
	v := newP12env(c)
	cast := p12People(c.Rng)
	rngs := make([]*Rng, len(scn))
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	put(c, len(scn), func(i int) M {
		rng := rngs[i]
		pw := p12Password([]string{"plain", "empty", "unicode", "long"}[rng.Intn(4)])
		bmp := append(bmpOf(pw), 0, 0)
		var bags [][]byte
		has := false
		for _, b := range scn[i].Bags {
			var as [][]byte
			for _, a := range b.Attrs {
				var u []byte
				for _, x := range a.Units {
					u = append(u, byte(x>>8), byte(x))
				}
				switch a.Type {
				case "name":
					as = append(as, seqOf(p12oid(9, 20), setOf(tlv(30, u))))
				case "csp":
					as = append(as, seqOf(oidTLV(1, 3, 6, 1, 4, 1, 311, 17, 1), setOf(tlv(30, u))))
				case "id":
					id := rng.Bytes(a.Len)
					copy(id, u)
					as = append(as, seqOf(p12oid(9, 21), setOf(tlv(4, id))))
				default:
					as = append(as, seqOf(oidTLV(1, 2, 3, 4), setOf(tlv(4, rng.Bytes(3)))))
				}
			}
			var attrs []byte
			if len(as) > 0 {
				attrs = setOf(as...)
			}
			switch b.Kind {
			case "cert", "ca":
				bags = append(bags, p12CertBag(p12x509, cast.certs[map[string]string{"cert": "p256", "ca": "ca"}[b.Kind]].Raw, attrs))
			default:
				has = true
				ai, ct := p12Pbe(rng, "3des", "8", "1", "good", bmp, cast.pkcs8(b.Kind))
				bags = append(bags, p12Bag(2, seqOf(ai, tlv(4, ct)), attrs))
			}
		}
		// some of them as whole stores, for the other decoders
		if len(scn[i].Bags) == 1 && i%2 == 0 {
			if has {
				bags = append(bags, p12CertBag(p12x509, cast.certs["p256"].Raw, nil))
			} else {
				ai, ct := p12Pbe(rng, "3des", "8", "1", "good", bmp, cast.pkcs8("p256"))
				bags = append(bags, p12Bag(2, seqOf(ai, tlv(4, ct)), nil))
			}
		}
		n := rng.Intn(len(bags) + 1)
		var safes [][]byte
		for _, part := range [][][]byte{bags[:n], bags[n:]} {
			if rng.Intn(2) == 0 {
				safes = append(safes, seqOf(p12oid(7, 1), tlv(160, tlv(4, seqOf(part...)))))
				continue
			}
			ai, ct := p12Pbe(rng, "rc2-40", "8", "1", "good", bmp, seqOf(part...))
			safes = append(safes, seqOf(p12oid(7, 6), tlv(160, seqOf([]byte{2, 1, 0}, seqOf(p12oid(7, 1), ai, tlv(128, ct))))))
		}
		der := cast.seal(rng, p12Plain(), bmp, pw, seqOf(safes...), nil)
		return v.event(der, pw, fmt.Sprintf("%v", scn[i].Bags), nil)
	})
}

// ---- alterations

func p12Alter(c *Ctx) {
	v := newP12env(c)
	cast := p12People(c.Rng)
	one, all := 14, 6
	if !c.Quick {
		one, all = 700, 260
	}
	// a part altered before it is protected, so that the MAC is right
	parts := []string{"cert", "pkcs8", "keybag", "certbags", "keybags", "encdata", "authsafe", "macdata", "pfx"}
	bases := []map[string]string{p12Plain("cattrs", "all"), p12Plain("key", "p256", "kattrs", "both", "certs", "A ca"), p12Plain("key", "rsa", "safes", "encenc", "pw", "empty", "citer", "2"),
		p12Plain("safes", "dataenc", "kalg", "rc2-40", "calg", "3des", "pw", "nil", "miter", "2")}
	put(c, len(parts)*len(bases)*one, func(i int) M {
		rng := NewRng(int64(i) + c.Seed<<20)
		part, ch := parts[i%len(parts)], bases[i/len(parts)%len(bases)]
		how := ""
		der, pw := cast.store(rng, ch, &p12hook{part, func(b []byte) []byte {
			d, h := alter(rng, b)
			how = h
			if rng.Intn(4) == 0 {
				d2, h2 := alter(rng, d)
				d, how = d2, h+", "+h2
			}
			return d
		}})
		return v.event(der, pw, fmt.Sprint("store ", i/len(parts)%len(bases), ", ", part, ": ", how), nil)
	})
	put(c, len(parts)*len(bases)*2*one, func(i int) M {
		rng := NewRng(int64(i) + c.Seed<<21)
		part, ch := parts[i%len(parts)], bases[i/len(parts)%len(bases)]
		how := ""
		der, pw := cast.store(rng, ch, &p12hook{part, func(b []byte) []byte {
			if ds, hows := someNear(rng, b, 1); len(ds) > 0 {
				b, how = ds[0], hows[0]
			}
			return b
		}})
		return v.event(der, pw, fmt.Sprint("store ", i/len(parts)%len(bases), ", ", part, ": ", how), nil)
	})
	// a written store with bytes and lengths changed
	var stores [][]byte
	var pws []string
	for i, k := range []string{"sm2", "rsa", "p256"} {
		pw := p12Password([]string{"plain", "empty", "unicode"}[i])
		der, err := pkcs12.Encode(cast.keys[k], cast.certs[k], nil, pw)
		if err != nil {
			continue // p12make says so
		}
		stores, pws = append(stores, der), append(pws, pw)
	}
	step := 16
	if !c.Quick {
		step = 1
	}
	for si, b := range stores {
		if c.Quick && si > 0 {
			step = 40
		}
		b, pw := b, pws[si]
		put(c, len(b)/step, func(i int) M {
			at := (i*step + int(c.Seed)%step) % len(b)
			d := clone(b)
			d[at] ^= 1 << uint((i+int(c.Seed))%8)
			return v.event(d, pw, fmt.Sprint("written store ", si, ": bit at ", at), nil)
		})
		put(c, len(b)/(2*step), func(i int) M {
			return v.event(b[:i*2*step], pw, fmt.Sprint("written store ", si, ": cut at ", i*2*step), nil)
		})
		put(c, all*10, func(i int) M {
			d, how := alter(NewRng(int64(i)+c.Seed<<20), b)
			return v.event(d, pw, fmt.Sprint("written store ", si, ": ", how), nil)
		})
		c.Out.Put(v.event(append(clone(b), 0), pw, "trailing octet", nil))
		c.Out.Put(v.event(append(clone(b), b...), pw, "twice", nil))
	}
	c.Out.Put(v.event([]byte{}, "", "nothing", nil))
	c.Out.Put(v.event(nil, "x", "nil", nil))
	c.Out.Put(v.event([]byte{48, 0}, "x", "empty sequence", nil))
	// no file
	e := v.event(nil, "x", "no file", nil)
	for _, t := range e["tries"].([]M) {
		if t["how"] == "file" {
			var cert *x509.Certificate
			var key interface{}
			var err error
			t["panic"] = call(func() { cert, key, err = pkcs12.SM2P12Decrypt(filepath.Join(v.dir, "missing", "file"), "x") })
			t["err"], t["bad"], t["got"] = es(err), false, cert != nil || !isNil(key)
		}
	}
	c.Out.Put(e)
}

// ---- production

// saltsIn finds the three salts of a written store
func saltsIn(der []byte) (out []B) {
	kids := func(b []byte) []asn1.RawValue {
		var r asn1.RawValue
		if _, err := asn1.Unmarshal(b, &r); err != nil {
			return nil
		}
		var ks []asn1.RawValue
		for rest := r.Bytes; len(rest) > 0; {
			var k asn1.RawValue
			var err error
			if rest, err = asn1.Unmarshal(rest, &k); err != nil {
				return nil
			}
			ks = append(ks, k)
		}
		return ks
	}
	// path walks down: the number of the element at each level; 'o' enters an octet string
	path := func(p ...int) B {
		b := der
		for _, at := range p {
			if at < 0 {
				var r asn1.RawValue
				asn1.Unmarshal(b, &r)
				b = r.Bytes
				continue
			}
			ks := kids(b)
			if at >= len(ks) {
				return B{}
			}
			b = ks[at].FullBytes
		}
		var r asn1.RawValue
		asn1.Unmarshal(b, &r)
		return B(r.Bytes)
	}
	const in = -1
	return []B{path(2, 1), path(1, 1, 0, in, 0, 1, 0, 1, 1, 1, 0), path(1, 1, 0, in, 1, 1, 0, in, 0, 1, 0, 0, 1, 0)}
}

func p12Make(c *Ctx) {
	v := newP12env(c)
	cast := p12People(c.Rng)
	rng := c.Rng
	type job struct {
		what      string
		key       interface{}
		cert      *x509.Certificate
		cas       []*stdx509.Certificate
		pw        string
		may, must bool
		file      bool
	}
	var jobs []job
	pws := []string{"plain", "empty", "unicode", "top", "long", "exact", "exactplus", "twoblocks", "space", "controls", "nul", "nulend"}
	std := func(names ...string) (out []*stdx509.Certificate) {
		for _, n := range names {
			if sc, err := stdx509.ParseCertificate(cast.certs[n].Raw); err == nil {
				out = append(out, sc)
			} else {
				out = append(out, &stdx509.Certificate{Raw: cast.certs[n].Raw}) // only its octets count
			}
		}
		return
	}
	for i, k := range p12Kinds {
		for j := 0; j < 2; j++ {
			jobs = append(jobs, job{what: k, key: cast.keys[k], cert: cast.certs[k], cas: std([]string{"ca", "root", "p256", "ca"}[:(i+2*j)%5]...), pw: p12Password(pws[(i+3*j)%len(pws)]), may: true, must: k != "ed25519"})
		}
	}
	for _, p := range pws {
		jobs = append(jobs, job{what: "password " + p, key: cast.keys["sm2"], cert: cast.certs["sm2"], pw: p12Password(p), may: true, must: true, file: true},
			job{what: "password " + p, key: cast.keys["p256"], cert: cast.certs["p256"], pw: p12Password(p), may: true, must: true})
	}
	for _, p := range []string{"\U0001f600", "a\U00010000", "\xff", "a\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "abc\xe4"} {
		jobs = append(jobs, job{what: fmt.Sprintf("password %q", p), key: cast.keys["sm2"], cert: cast.certs["sm2"], pw: p},
			job{what: fmt.Sprintf("password %q", p), key: cast.keys["sm2"], cert: cast.certs["sm2"], pw: p, file: true})
	}
	// characters that some code takes for something else: marks of byte order, unused
	// code points, edges of the encodings, spaces of many kinds
	telling := []rune{0xfeff, 0xfffe, 0xffff, 0xfffd, 0, 0xad, 0x200b, 0x301, 0xe9, 0x65, 0xd7ff, 0xe000, ' ', '\t', '\n', '\r', 0xa0, 0x3000, 0x212a, 0x100, 0x80, 0x7ff, 0x800, '"', '=', 0x1b, 0x7f}
	for i, ch := range telling {
		for j, p := range []string{string(ch) + "pass", "pass" + string(ch), "pa" + string(ch) + "ss", string(ch), string([]rune{ch, ch})} {
			k, toFile := []string{"sm2", "p256", "rsa", "sm2"}[(i+j)%4], (i+j)%4 == 0
			jobs = append(jobs, job{what: fmt.Sprintf("password %+q", p), key: cast.keys[k], cert: cast.certs[k], pw: p, may: true, must: true, file: toFile})
		}
	}
	// a certificate that is not the key's: what is stored is what was given
	jobs = append(jobs, job{what: "another's certificate", key: cast.keys["sm2"], cert: cast.certs["rsa"], pw: "x", may: true, must: true},
		job{what: "the same again", key: cast.keys["sm2"], cert: cast.certs["sm2"], pw: "x", may: true, must: true},
		job{what: "the same again", key: cast.keys["sm2"], cert: cast.certs["sm2"], pw: "x", may: true, must: true},
		job{what: "the certificate as its own CA", key: cast.keys["sm2"], cert: cast.certs["sm2"], cas: std("sm2", "sm2"), pw: "x", may: true, must: true},
		job{what: "empty list of CAs", key: cast.keys["rsa"], cert: cast.certs["rsa"], cas: []*stdx509.Certificate{}, pw: "x", may: true, must: true})
	unfit := map[string]interface{}{"none": nil, "text": "key", "public": cast.keys.pub("sm2"), "value": *(cast.keys["sm2"].(*sm2.PrivateKey)), "signer": &signer{key: cast.keys["sm2"], mode: "ok", rng: rng}}
	for _, name := range keysOf(unfit) {
		jobs = append(jobs, job{what: "unsupported key: " + name, key: unfit[name], cert: cast.certs["sm2"], pw: "x"})
	}
	reps := 16
	if !c.Quick {
		reps = 700
	}
	for i := 0; i < reps; i++ {
		k := p12Kinds[rng.Intn(len(p12Kinds))]
		var key interface{} = cast.keys[k]
		cert := cast.certs[k]
		if k == "sm2" || k == "shortsm2" {
			nk := mkKey(rng.BigIn(big.NewInt(1), new(big.Int).Sub(sm2.SM2P256V1().Params().N, big.NewInt(2))))
			key = nk
		}
		pr := make([]rune, rng.Intn(40))
		for j := range pr {
			pr[j] = rune([]int{rng.Intn(128), rng.Intn(0xd800), 0xe000 + rng.Intn(0x2000)}[rng.Intn(3)])
		}
		var cas []string
		for j := rng.Intn(4); j > 0; j-- {
			cas = append(cas, p12Kinds[rng.Intn(len(p12Kinds))])
		}
		jobs = append(jobs, job{what: fmt.Sprint("random ", i), key: key, cert: cert, cas: std(cas...), pw: string(pr), may: true, must: k != "ed25519", file: k == "sm2"})
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].what < jobs[j].what })
	events := make([]M, len(jobs))
	rngs := make([]*Rng, len(jobs))
	for i := range rngs {
		rngs[i] = rng.Fork()
	}
	parallel(len(jobs), func(i int) {
		jb := jobs[i]
		e := M{"op": "p12make", "case": jb.what, "pw": B(jb.pw), "key": privRec(jb.key), "may": jb.may, "must": jb.must, "salts": []B{}, "repeats": false, "tries": []M{}, "std": false}
		certs := []B{B(clone(jb.cert.Raw))}
		var der []byte
		var err error
		sk, isSM2 := jb.key.(*sm2.PrivateKey)
		if jb.file && isSM2 && len(jb.cas) == 0 {
			name := v.file()
			e["case"] = jb.what + ", to a file"
			var old []byte
			if n := []int{0, 1, 9000}[len(jb.pw)%3]; n > 0 { // a file that is there is written over
				e["case"] = fmt.Sprint(jb.what, ", to a file of ", n)
				old = rngs[i].Bytes(n)
				if os.WriteFile(name, old, 0600) != nil {
					die("cannot write " + name)
				}
			}
			e["panic"] = call(func() { err = pkcs12.SM2P12Encrypt(jb.cert, jb.pw, sk, name) })
			der, _ = os.ReadFile(name)
			os.Remove(name)
			if err != nil && bytes.Equal(der, old) {
				der = nil
			}
		} else {
			for _, ca := range jb.cas {
				certs = append(certs, B(clone(ca.Raw)))
			}
			e["panic"] = call(func() { der, err = pkcs12.Encode(jb.key, jb.cert, jb.cas, jb.pw) })
		}
		e["err"], e["got"], e["der"], e["certs"] = es(err), len(der) > 0, B(clone(der)), certs
		if len(der) > 0 {
			e["salts"] = saltsIn(der)
			e["tries"], e["std"] = v.tries(der, jb.pw, nil)
		}
		events[i] = e
	})
	seen := map[string]bool{}
	for _, e := range events {
		for _, s := range e["salts"].([]B) {
			if seen[string(s)] {
				e["repeats"] = true
			}
			seen[string(s)] = true
		}
		c.Out.Put(e)
	}
	// a folder that is not there
	e := M{"op": "p12make", "case": "no such folder", "pw": B("x"), "key": privRec(cast.keys["sm2"]), "may": false, "must": false, "salts": []B{}, "repeats": false, "tries": []M{}, "std": false,
		"got": false, "der": B{}, "certs": []B{B(cast.certs["sm2"].Raw)}}
	var err error
	e["panic"] = call(func() {
		err = pkcs12.SM2P12Encrypt(cast.certs["sm2"], "x", cast.keys["sm2"].(*sm2.PrivateKey), filepath.Join(v.dir, "missing", "file"))
	})
	e["err"] = es(err)
	c.Out.Put(e)
	// stores other implementations wrote
	for _, f := range fixtures("p12-") {
		pw := "mcrypto ü"
		if strings.Contains(f.name, "empty") {
			pw = ""
		}
		want := map[string]string{"all": "ok", "pem": "ok"}
		if strings.Contains(f.name, "sm2") {
			want["pem"], want["file"] = "", "ok"
		}
		c.Out.Put(v.event(f.data, pw, f.name, want))
		c.Out.Put(v.event(f.data, pw+"x", f.name+", wrong password", map[string]string{"all": "err", "one": "err", "pem": "err", "file": "err"}))
	}
}

// ---- RC2

func p12Rc2(c *Ctx) {
	rng := c.Rng
	var jobs []M
	n := 3
	if !c.Quick {
		n = 60
	}
	ev := func(key []byte, t1 int, block []byte) {
		e := M{"op": "rc2", "case": fmt.Sprintf("key of %d, %d bits", len(key), t1), "key": B(clone(key)), "t1": t1, "block": B(clone(block)),
			"enc": B{}, "dec": B{}, "inenc": B{}, "indec": B{}, "back": B{}, "clean": true, "size": 8, "got": false, "err": ""}
		e["panic"] = call(func() {
			k := clone(key)
			ci, err := pkcs12.New(k, t1)
			e["err"], e["got"] = es(err), ci != nil && !isNil(ci)
			if err != nil || ci == nil {
				return
			}
			for i := range k {
				k[i] ^= 0x5a // the cipher has its own copy
			}
			e["size"] = ci.BlockSize()
			clean := true
			run := func(f func(dst, src []byte)) B {
				src := append(clone(block), 1, 2, 3)
				keep := clone(src)
				dst := []byte{9, 9, 9, 9, 9, 9, 9, 9, 7, 7, 7}
				f(dst, src)
				clean = clean && bytes.Equal(src, keep) && bytes.Equal(dst[8:], []byte{7, 7, 7})
				return B(dst[:8])
			}
			in := func(f func(dst, src []byte)) B { b := clone(block); f(b, b); return B(b) }
			e["enc"], e["dec"] = run(ci.Encrypt), run(ci.Decrypt)
			e["inenc"], e["indec"] = in(ci.Encrypt), in(ci.Decrypt)
			b := clone(block)
			ci.Encrypt(b, b)
			ci.Decrypt(b, b)
			e["back"], e["clean"] = B(b), clean
		})
		jobs = append(jobs, e)
	}
	blk := func() []byte {
		switch rng.Intn(5) {
		case 0:
			return make([]byte, 8)
		case 1:
			return bytes.Repeat([]byte{255}, 8)
		}
		return rng.Bytes(8)
	}
	for l := 0; l <= 130; l++ {
		for j := 0; j < n; j++ {
			t1 := []int{8 * l, 1 + rng.Intn(1024), 40, 64, 1024}[rng.Intn(5)]
			if j == 0 {
				t1 = 8 * l
			}
			ev(rng.Bytes(l), t1, blk())
		}
	}
	for t1 := -2; t1 <= 1040; t1 += 1 + rng.Intn(3)*(3/n) {
		ev(rng.Bytes(1+rng.Intn(128)), t1, blk())
	}
	for _, t1 := range []int{-1 << 31, -1024, -8, 0, 1, 7, 8, 9, 1023, 1024, 1025, 1032, 4096, 1 << 30} {
		ev(rng.Bytes(16), t1, blk())
		ev(nil, t1, blk())
	}
	ev(make([]byte, 129), 64, blk())
	ev(make([]byte, 256), 64, blk())
	ev(make([]byte, 5), 40, make([]byte, 8))
	for _, e := range jobs {
		c.Out.Put(e)
	}
}
