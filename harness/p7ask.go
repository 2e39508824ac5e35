package main

import (
	"encoding/asn1"
	"errors"
	"math/big"
	"reflect"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

// Messages for the accessors of a parsed PKCS#7 value: their design comes from P7AskGen.

func init() { drivers["p7ask"] = p7Ask }

type askScn struct {
	Signers []struct {
		Name  string
		Ok    bool
		Attrs []struct {
			Type string
			Vals []string
		}
	}
	Certs []string
	Crls  int
	Outer string
}

var askTypes = map[string]asn1.ObjectIdentifier{"ctype": oidCType, "digest": oidDigest, "time": oidSigTime, "own": {1, 2, 3, 4}, "far": {2, 999, 1 << 30, 0, 127, 128},
	"none": {1, 2, 3, 4, 5}}
var askOrder = []string{"ctype", "digest", "time", "own", "far", "none"}

func askVal(rng *Rng, how string, text []byte) []byte {
	switch how {
	case "sm3":
		return tlv(4, sm3Sum(text))
	case "sm3x":
		return tlv(4, sm3Sum(append(clone(text), 1)))
	case "octempty":
		return tlv(4, nil)
	case "octets":
		return tlv(4, rng.Bytes(1+rng.Intn(40)))
	case "int0":
		return tlv(2, []byte{0})
	case "int128":
		return tlv(2, []byte{0, byte(128 + rng.Intn(128))})
	case "intneg":
		return tlv(2, []byte{byte(128 + rng.Intn(128))})
	case "int64":
		return tlv(2, append([]byte{byte(1 + rng.Intn(127))}, rng.Bytes(7)...))
	case "intbig":
		return tlv(2, append([]byte{byte(1 + rng.Intn(127))}, rng.Bytes(8+rng.Intn(30))...))
	case "true":
		return tlv(1, []byte{255})
	case "false":
		return tlv(1, []byte{0})
	case "utf8":
		return tlv(12, []byte("grün 国密"))
	case "print":
		return tlv(19, []byte("Print 'able (1)"))
	case "ia5":
		return tlv(22, []byte("ia5@example"))
	case "oid":
		return oidTLV(2, 5, 4, 3)
	case "oidgm":
		return oidTLV(oidGMData...)
	case "utc":
		return tlv(23, []byte([]string{"260102030405Z", "491231235959Z", "500101000000Z", "000229120000Z"}[rng.Intn(4)]))
	case "gen":
		return tlv(24, []byte([]string{"20260102030405Z", "20500101000000Z", "19491231235959Z", "99991231235959Z"}[rng.Intn(4)]))
	case "null":
		return []byte{5, 0}
	case "seq":
		return seqOf(tlv(2, []byte{5}), tlv(4, []byte("in it")))
	case "set":
		return setOf(tlv(4, []byte("in a set")))
	case "nested":
		return tlv(4, tlv(4, rng.Bytes(5)))
	case "ctx":
		return tlv(128, rng.Bytes(3))
	case "hightag":
		return append([]byte{0x9f, 0x81, 0x01, 3}, rng.Bytes(3)...)
	case "long":
		return tlv(4, rng.Bytes(200+rng.Intn(400)))
	}
	die(errors.New("value " + how))
	return nil
}

// askAll puts every question, in an order of its own
func askAll(rng *Rng, p *x509.PKCS7, asked *[]M) {
	kinds := []string{"raw", "bytes", "oid", "time", "string", "int", "bool", "big", "any"}
	var qs [][2]string
	for _, t := range askOrder {
		for _, k := range kinds {
			qs = append(qs, [2]string{t, k})
		}
	}
	for i := len(qs) - 1; i > 0; i-- {
		j := rng.Intn(i + 1)
		qs[i], qs[j] = qs[j], qs[i]
	}
	for _, q := range qs {
		o := askTypes[q[0]]
		e := M{"oid": oidContent(o), "kind": q[1], "val": B{}, "t": tTime{}, "n": recBig(new(big.Int))}
		var err error
		switch q[1] {
		case "raw":
			var v asn1.RawValue
			if err = p.UnmarshalSignedAttribute(o, &v); err == nil {
				e["val"] = B(clone(v.FullBytes))
			}
		case "bytes":
			var v []byte
			if err = p.UnmarshalSignedAttribute(o, &v); err == nil {
				e["val"] = B(clone(v))
				for i := range v { // what is handed out is the caller's
					v[i] ^= 0x55
				}
			}
		case "oid":
			var v asn1.ObjectIdentifier
			if err = p.UnmarshalSignedAttribute(o, &v); err == nil {
				e["val"] = oidContent(v)
			}
		case "time":
			var v time.Time
			if err = p.UnmarshalSignedAttribute(o, &v); err == nil {
				e["t"] = timeRec(v)
			}
		case "string":
			var v string
			if err = p.UnmarshalSignedAttribute(o, &v); err == nil {
				e["val"] = B(v)
			}
		case "int":
			var v int64
			if err = p.UnmarshalSignedAttribute(o, &v); err == nil {
				e["n"] = recBig(big.NewInt(v))
			}
		case "bool":
			var v bool
			if err = p.UnmarshalSignedAttribute(o, &v); err == nil && v {
				e["val"] = B{255}
			} else if err == nil {
				e["val"] = B{0}
			}
		case "big":
			var v *big.Int
			if err = p.UnmarshalSignedAttribute(o, &v); err == nil {
				e["n"] = recBig(v)
			}
		case "any":
			var v interface{}
			err = p.UnmarshalSignedAttribute(o, &v)
		}
		e["ok"] = err == nil
		*asked = append(*asked, e)
	}
}

func p7Ask(c *Ctx) {
	var scns []askScn
	readJSON(c.In, &scns)
	cast := p7People(c.Rng.Fork())
	gm := func(n int) []byte { return oidTLV(1, 2, 156, 10197, 6, 1, 4, 2, n) }
	rfc := func(n int) []byte { return oidTLV(1, 2, 840, 113549, 1, 7, n) }
	rngs := make([]*Rng, len(scns))
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	put(c, len(scns), func(i int) M {
		s, rng := scns[i], rngs[i]
		text := rng.Bytes(rng.Intn(80))
		var signers [][]byte
		for _, sg := range s.Signers {
			var as [][]byte
			for _, a := range sg.Attrs {
				var vals [][]byte
				for _, v := range a.Vals {
					vals = append(vals, askVal(rng, v, text))
				}
				as = append(as, p7Attr(askTypes[a.Type], vals...))
			}
			as = sortBytes(as)
			msg := text
			if len(as) > 0 {
				msg = setOf(as...)
			}
			key := "A"
			if sg.Name == "B" {
				key = "B"
			}
			who := cast.certs["A"]
			if cc := cast.certs[sg.Name]; cc != nil {
				who = cc
			}
			iss, ser := who.RawIssuer, who.SerialNumber
			if sg.Name == "Z" {
				ser = new(big.Int).Add(ser, big.NewInt(1<<40))
			}
			sig, err := sm2.Sign(rng, cast.keys[key].(*sm2.PrivateKey), msg, nil)
			if err != nil {
				die(err)
			}
			if !sg.Ok {
				sig[len(sig)-1] ^= 1
			}
			out := [][]byte{smallInt("1"), seqOf(iss, signedInt(ser)), algTLV("sm3")}
			if len(as) > 0 {
				out = append(out, tlv(160, cat(as...)))
			}
			signers = append(signers, seqOf(append(out, algTLV("sm2sm3"), tlv(4, sig))...))
		}
		body := [][]byte{smallInt("1"), setOf(algTLV("sm3")), seqOf(gm(1), tlv(160, tlv(4, text)))}
		if len(s.Certs) > 0 {
			var cs [][]byte
			for _, n := range s.Certs {
				cs = append(cs, cast.certs[n].Raw)
			}
			body = append(body, tlv(160, cat(cs...)))
		}
		if s.Crls > 0 {
			body = append(body, tlv(161, cat(cast.crls[:s.Crls]...)))
		}
		sd := seqOf(append(body, setOf(signers...))...)
		outer := gm(2)
		switch s.Outer {
		case "gm1", "gm3", "gm4", "gm5", "gm6":
			outer = gm(int(s.Outer[2] - '0'))
		case "rfc1", "rfc2", "rfc3":
			outer = rfc(int(s.Outer[3] - '0'))
		case "odd":
			outer = oidTLV(1, 2, 3)
		case "short":
			outer = oidTLV(1, 2, 156, 10197, 6, 1, 4, 2)
		case "deep":
			outer = oidTLV(1, 2, 156, 10197, 6, 1, 4, 2, 2, 1)
		}
		der := seqOf(outer, tlv(160, sd))
		if s.Outer == "prim" {
			der = seqOf(gm(1))
		}
		e := M{"op": "p7ask", "case": s.Outer, "der": B(clone(der)), "ver": false, "mism": false, "exp": B{}, "act": B{}, "only": B{}, "only2": B{}}
		asked := []M{}
		var p *x509.PKCS7
		var err error
		e["panic"] = call(func() { p, err = x509.ParsePKCS7(der) })
		e["err"], e["got"], e["unsup"], e["seen"] = es(err), p != nil, errors.Is(err, x509.ErrUnsupportedContentType), p7Seen(p)
		if p != nil {
			trouble := call(func() {
				if cc := p.GetOnlySigner(); cc != nil {
					e["only"] = B(cc.Raw)
				}
				askAll(rng, p, &asked)
				verr := p.Verify()
				e["ver"] = verr == nil
				var mm *x509.MessageDigestMismatchError
				if errors.As(verr, &mm) {
					e["mism"], e["exp"], e["act"] = true, B(clone(mm.ExpectedDigest)), B(clone(mm.ActualDigest))
				}
				// whatever was asked and verified before, the answers stay
				if i%4 == 0 {
					askAll(rng, p, &asked)
				}
				if cc := p.GetOnlySigner(); cc != nil {
					e["only2"] = B(cc.Raw)
				}
			})
			if trouble != "" {
				e["panic"] = trouble
			}
			if after := p7Seen(p); !reflect.DeepEqual(after, e["seen"]) {
				e["seen"] = after
			}
		}
		e["asked"] = asked
		return e
	})
}
