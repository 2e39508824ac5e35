package main

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"strings"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	drivers["certmake"] = certMake
}

// ---- shapes shared with spec/CertGen.tla and spec/CertSpec.tla

// S is a text of the scenario: a string there, octets everywhere else
type S []byte

func (s *S) UnmarshalJSON(d []byte) error {
	if len(d) > 0 && d[0] == '[' {
		return (*B)(s).UnmarshalJSON(d)
	}
	var x string
	if err := json.Unmarshal(d, &x); err != nil {
		return err
	}
	x = strings.ReplaceAll(x, "{e}", "é")
	*s = []byte(strings.ReplaceAll(x, "{ff}", "\xff"))
	return nil
}
func (s S) MarshalJSON() ([]byte, error) { return B(s).MarshalJSON() }

type tAttr struct {
	Oid B `json:"oid"`
	Val S `json:"val"`
}
type tName struct {
	C      []S     `json:"c"`
	O      []S     `json:"o"`
	Ou     []S     `json:"ou"`
	L      []S     `json:"l"`
	St     []S     `json:"st"`
	Street []S     `json:"street"`
	Pc     []S     `json:"pc"`
	Cn     S       `json:"cn"`
	Sn     S       `json:"sn"`
	Extra  []tAttr `json:"extra"`
	Raw    B       `json:"raw"`
}
type tExt struct {
	Oid  B    `json:"oid"`
	Crit bool `json:"crit"`
	Val  B    `json:"val"`
}
type tNet struct {
	IP   B `json:"ip"`
	Mask B `json:"mask"`
}
type tTime [2]int64
type tCert struct {
	HasSerial bool   `json:"hasserial"`
	Serial    Z      `json:"serial"`
	Subject   tName  `json:"subject"`
	Nb        tTime  `json:"nb"`
	Na        tTime  `json:"na"`
	Ku        int    `json:"ku"`
	Eku       []int  `json:"eku"`
	Ueku      []B    `json:"ueku"`
	Bcv       bool   `json:"bcv"`
	IsCA      bool   `json:"isca"`
	Mpl       int    `json:"mpl"`
	Mplz      bool   `json:"mplz"`
	Ski       B      `json:"ski"`
	Aki       B      `json:"aki"`
	DNS       []S    `json:"dns"`
	Emails    []S    `json:"emails"`
	IPs       []B    `json:"ips"`
	URIs      []S    `json:"uris"`
	Policies  []B    `json:"policies"`
	CrlDp     []S    `json:"crldp"`
	OCSP      []S    `json:"ocsp"`
	Issuers   []S    `json:"issuers"`
	PermCrit  bool   `json:"permcrit"`
	Pdns      []S    `json:"pdns"`
	Edns      []S    `json:"edns"`
	Pip       []tNet `json:"pip"`
	Eip       []tNet `json:"eip"`
	Pemail    []S    `json:"pemail"`
	Eemail    []S    `json:"eemail"`
	Puri      []S    `json:"puri"`
	Euri      []S    `json:"euri"`
	Extra     []tExt `json:"extra"`
	Alg       string `json:"alg"`
}
type tReqAttr struct {
	Oid    B         `json:"oid"`
	Values [][]tAttr `json:"values"`
}
type tEntry struct {
	Serial Z      `json:"serial"`
	T      tTime  `json:"t"`
	Exts   []tExt `json:"exts"`
}
type tCsr struct {
	Subject tName      `json:"subject"`
	DNS     []S        `json:"dns"`
	Emails  []S        `json:"emails"`
	IPs     []B        `json:"ips"`
	URIs    []S        `json:"uris"`
	Extra   []tExt     `json:"extra"`
	Attrs   []tReqAttr `json:"attrs"`
	Alg     string     `json:"alg"`
}
type tCrl struct {
	Api       string   `json:"api"`
	Alg       string   `json:"alg"`
	Entries   []tEntry `json:"entries"`
	HasNumber bool     `json:"hasnumber"`
	Number    Z        `json:"number"`
	Tu        tTime    `json:"tu"`
	Nu        tTime    `json:"nu"`
	Extra     []tExt   `json:"extra"`
}
type tParent struct {
	Name tName  `json:"name"`
	Ski  B      `json:"ski"`
	Ku   int    `json:"ku"`
	Key  string `json:"key"`
}
type certScn struct {
	Fam  string          `json:"fam"`
	Mode string          `json:"mode"`
	Key  string          `json:"key"`
	Zb   int             `json:"zb"`
	Za   int             `json:"za"`
	Ze   int             `json:"ze"`
	Fb   int64           `json:"fb"`
	Fa   int64           `json:"fa"`
	Case string          `json:"case"`
	T    json.RawMessage `json:"T"`
	P    tParent         `json:"P"`
	Self bool            `json:"self"`
	Pub  string          `json:"pub"`
}

// ---- conversions

func oidFromContent(c []byte) asn1.ObjectIdentifier {
	var o asn1.ObjectIdentifier
	der := append([]byte{6, byte(len(c))}, c...)
	if _, err := asn1.Unmarshal(der, &o); err != nil {
		die(fmt.Sprint("oid ", c, ": ", err))
	}
	return o
}
func oidContent(o asn1.ObjectIdentifier) B {
	if len(o) < 2 {
		return B{}
	}
	out := B{}
	arc := func(v int) {
		var t []byte
		for first := true; first || v > 0; first = false {
			b := byte(v & 127)
			if len(t) > 0 {
				b |= 128
			}
			t = append([]byte{b}, t...)
			v >>= 7
		}
		out = append(out, t...)
	}
	arc(o[0]*40 + o[1])
	for _, v := range o[2:] {
		arc(v)
	}
	return out
}
func strs(x []S) []string {
	var out []string
	for _, s := range x {
		out = append(out, string(s))
	}
	return out
}
func recStrs(x []string) []B {
	out := []B{}
	for _, s := range x {
		out = append(out, B(s))
	}
	return out
}
func bigOf(z Z) *big.Int {
	x := new(big.Int).SetBytes(z.Mag)
	if z.Neg {
		x.Neg(x)
	}
	return x
}
func timeOf(t tTime, nanos int64, zone int) time.Time {
	x := time.Unix(t[0]*86400+t[1], nanos).UTC()
	if zone != 0 {
		x = x.In(time.FixedZone("z", zone))
	}
	return x
}
func timeRec(t time.Time) tTime {
	u := t.Unix()
	d := u / 86400
	if u%86400 < 0 {
		d--
	}
	return tTime{d, u - d*86400}
}
func nameOf(n tName) pkix.Name {
	r := pkix.Name{Country: strs(n.C), Organization: strs(n.O), OrganizationalUnit: strs(n.Ou), Locality: strs(n.L), Province: strs(n.St),
		StreetAddress: strs(n.Street), PostalCode: strs(n.Pc), CommonName: string(n.Cn), SerialNumber: string(n.Sn)}
	for _, a := range n.Extra {
		r.ExtraNames = append(r.ExtraNames, pkix.AttributeTypeAndValue{Type: oidFromContent(a.Oid), Value: string(a.Val)})
	}
	return r
}
func extsOf(x []tExt) []pkix.Extension {
	var out []pkix.Extension
	for _, e := range x {
		out = append(out, pkix.Extension{Id: oidFromContent(e.Oid), Critical: e.Crit, Value: clone(e.Val)})
	}
	return out
}
func recExts(x []pkix.Extension) []tExt {
	out := []tExt{}
	for _, e := range x {
		out = append(out, tExt{oidContent(e.Id), e.Critical, B(e.Value)})
	}
	return out
}
func ipsOf(x []B) []net.IP {
	var out []net.IP
	for _, i := range x {
		out = append(out, net.IP(clone(i)))
	}
	return out
}
func netsOf(x []tNet) []*net.IPNet {
	var out []*net.IPNet
	for _, n := range x {
		out = append(out, &net.IPNet{IP: clone(n.IP), Mask: clone(n.Mask)})
	}
	return out
}
func urisOf(x []S) []*url.URL {
	var out []*url.URL
	for _, s := range x {
		u, err := url.Parse(string(s))
		if err != nil {
			die(err)
		}
		out = append(out, u)
	}
	return out
}
func uriStrings(x []*url.URL) []S {
	out := []S{}
	for _, u := range x {
		out = append(out, S(u.String()))
	}
	return out
}

var algNames = map[x509.SignatureAlgorithm]string{
	x509.MD5WithRSA: "MD5-RSA", x509.SHA1WithRSA: "SHA1-RSA", x509.SHA256WithRSA: "SHA256-RSA", x509.SHA384WithRSA: "SHA384-RSA",
	x509.SHA512WithRSA: "SHA512-RSA", x509.DSAWithSHA1: "DSA-SHA1", x509.DSAWithSHA256: "DSA-SHA256", x509.ECDSAWithSHA1: "ECDSA-SHA1",
	x509.ECDSAWithSHA256: "ECDSA-SHA256", x509.ECDSAWithSHA384: "ECDSA-SHA384", x509.ECDSAWithSHA512: "ECDSA-SHA512",
	x509.SHA256WithRSAPSS: "SHA256-RSAPSS", x509.SHA384WithRSAPSS: "SHA384-RSAPSS", x509.SHA512WithRSAPSS: "SHA512-RSAPSS",
	x509.PureEd25519: "Ed25519", x509.SM2WithSM3: "SM2-SM3"}

func algOf(name string) x509.SignatureAlgorithm {
	for a, n := range algNames {
		if n == name {
			return a
		}
	}
	if name == "" {
		return 0
	}
	return 99
}

// ---- what the code says of what it parsed

func recName(n pkix.Name) []M { return recAttrs(n.Names) }
func recAttrs(as []pkix.AttributeTypeAndValue) []M {
	out := []M{}
	for _, a := range as {
		v, ok := a.Value.(string)
		if !ok {
			v = fmt.Sprintf("?%T", a.Value)
		}
		out = append(out, M{"oid": oidContent(a.Type), "val": B(v)})
	}
	return out
}
func recOids(x []asn1.ObjectIdentifier) []B {
	out := []B{}
	for _, o := range x {
		out = append(out, oidContent(o))
	}
	return out
}
func recNets(x []*net.IPNet) []B {
	out := []B{}
	for _, n := range x {
		if n == nil {
			out = append(out, B{})
			continue
		}
		out = append(out, append(B(clone(n.IP)), n.Mask...))
	}
	return out
}
func recIPs(x []net.IP) []B {
	out := []B{}
	for _, i := range x {
		out = append(out, B(i))
	}
	return out
}
func recUris(x []*url.URL) []B {
	out := []B{}
	for _, u := range x {
		out = append(out, B(u.String()))
	}
	return out
}
func recBig(x *big.Int) Z {
	if x == nil {
		return Z{Mag: B{}}
	}
	return SZ(x)
}

// numbers of 2^23 and more count as 2^30 in the specification
func clip(n int) int {
	if n >= 1<<23 {
		return 1 << 30
	}
	if n < -(1 << 23) {
		return -(1 << 30)
	}
	return n
}

func certSeen(c *x509.Certificate) M {
	if c == nil {
		c = &x509.Certificate{}
	}
	eku := []int{}
	for _, e := range c.ExtKeyUsage {
		eku = append(eku, int(e))
	}
	return M{"version": clip(c.Version), "serial": recBig(c.SerialNumber), "alg": algNames[c.SignatureAlgorithm],
		"issuer": recName(c.Issuer), "subject": recName(c.Subject), "nb": timeRec(c.NotBefore), "na": timeRec(c.NotAfter),
		"key": pubRec(c.PublicKey), "exts": recExts(c.Extensions), "sig": B(c.Signature), "rawtbs": B(c.RawTBSCertificate),
		"rawissuer": B(c.RawIssuer), "rawsubject": B(c.RawSubject), "rawspki": B(c.RawSubjectPublicKeyInfo),
		"ku": int(c.KeyUsage), "bcv": c.BasicConstraintsValid, "isca": c.IsCA, "mpl": clip(c.MaxPathLen), "mplz": c.MaxPathLenZero,
		"dns": recStrs(c.DNSNames), "emails": recStrs(c.EmailAddresses), "ips": recIPs(c.IPAddresses), "uris": recUris(c.URIs),
		"permcrit": c.PermittedDNSDomainsCritical, "pdns": recStrs(c.PermittedDNSDomains), "edns": recStrs(c.ExcludedDNSDomains),
		"pip": recNets(c.PermittedIPRanges), "eip": recNets(c.ExcludedIPRanges), "pemail": recStrs(c.PermittedEmailAddresses),
		"eemail": recStrs(c.ExcludedEmailAddresses), "puri": recStrs(c.PermittedURIDomains), "euri": recStrs(c.ExcludedURIDomains),
		"crldp": recStrs(c.CRLDistributionPoints), "ocsp": recStrs(c.OCSPServer), "issuers": recStrs(c.IssuingCertificateURL),
		"ski": B(c.SubjectKeyId), "aki": B(c.AuthorityKeyId), "eku": eku, "ueku": recOids(c.UnknownExtKeyUsage),
		"policies": recOids(c.PolicyIdentifiers), "unhandled": recOids(c.UnhandledCriticalExtensions)}
}
func csrSeen(c *x509.CertificateRequest) M {
	if c == nil {
		c = &x509.CertificateRequest{}
	}
	return M{"version": clip(c.Version), "alg": algNames[c.SignatureAlgorithm], "subject": recName(c.Subject), "key": pubRec(c.PublicKey),
		"exts": recExts(c.Extensions), "dns": recStrs(c.DNSNames), "emails": recStrs(c.EmailAddresses), "ips": recIPs(c.IPAddresses),
		"uris": recUris(c.URIs), "sig": B(c.Signature), "rawtbs": B(c.RawTBSCertificateRequest), "rawsubject": B(c.RawSubject),
		"rawspki": B(c.RawSubjectPublicKeyInfo), "attrs": recPairs(c.Attributes)}
}
func recPairs(as []pkix.AttributeTypeAndValueSET) []tReqAttr {
	out := []tReqAttr{}
	for _, a := range as {
		r := tReqAttr{Oid: oidContent(a.Type), Values: [][]tAttr{}}
		for _, v := range a.Value {
			ps := []tAttr{}
			for _, p := range v {
				val, _ := p.Value.([]byte)
				ps = append(ps, tAttr{Oid: oidContent(p.Type), Val: S(clone(val))})
			}
			r.Values = append(r.Values, ps)
		}
		out = append(out, r)
	}
	return out
}
func aiName(ai pkix.AlgorithmIdentifier) string {
	// the name the package gives the identifier: it is read only inside signed objects, so put it into one
	tbs, err := asn1.Marshal(struct {
		Version int
		Subject asn1.RawValue
		Key     asn1.RawValue
		Attrs   []asn1.RawValue `asn1:"tag:0"`
	}{0, asn1.RawValue{FullBytes: []byte{48, 0}}, asn1.RawValue{FullBytes: plainSpki}, nil})
	if err != nil {
		die(err)
	}
	der, err := asn1.Marshal(struct {
		Tbs asn1.RawValue
		Ai  pkix.AlgorithmIdentifier
		Sig asn1.BitString
	}{asn1.RawValue{FullBytes: tbs}, ai, asn1.BitString{Bytes: []byte{1}, BitLength: 8}})
	if err != nil {
		return "?" + err.Error()
	}
	r, err := x509.ParseCertificateRequest(der)
	if err != nil {
		return "?" + err.Error()
	}
	return algNames[r.SignatureAlgorithm]
}

var plainSpki []byte

func init() {
	var err error
	if plainSpki, err = x509.MarshalPKIXPublicKey(ed25519.NewKeyFromSeed(make([]byte, 32)).Public()); err != nil {
		die(err)
	}
}
func crlSeen(c *pkix.CertificateList) M {
	if c == nil {
		return M{"version": 0, "issuer": []M{}, "tu": tTime{}, "nu": tTime{}, "revoked": []M{}, "exts": []tExt{}, "sig": B{}, "rawtbs": B{},
			"alg": "", "outer": ""}
	}
	issuer := []M{}
	for _, set := range c.TBSCertList.Issuer {
		issuer = append(issuer, recAttrs(set)...)
	}
	rev := []M{}
	for _, e := range c.TBSCertList.RevokedCertificates {
		rev = append(rev, M{"serial": recBig(e.SerialNumber), "t": timeRec(e.RevocationTime), "exts": recExts(e.Extensions)})
	}
	nu := tTime{}
	if !c.TBSCertList.NextUpdate.IsZero() {
		nu = timeRec(c.TBSCertList.NextUpdate)
	}
	return M{"version": clip(c.TBSCertList.Version), "issuer": issuer, "tu": timeRec(c.TBSCertList.ThisUpdate), "nu": nu, "revoked": rev,
		"exts": recExts(c.TBSCertList.Extensions), "sig": B(c.SignatureValue.RightAlign()), "rawtbs": B(c.TBSCertList.Raw),
		"alg": aiName(c.TBSCertList.Signature), "outer": aiName(c.SignatureAlgorithm)}
}

// ---- keys and signers

type keyring map[string]interface{}

func newKeyring(rng *Rng) keyring {
	k := keyring{}
	r1, r2 := newRSA(rng, 1200, 2, 65537), newRSA(rng, 1024, 2, 3)
	r1.Precompute()
	r2.Precompute()
	k["rsa"], k["rsa2"] = r1, r2
	curves := map[string]elliptic.Curve{"p224": elliptic.P224(), "p256": elliptic.P256(), "p384": elliptic.P384(), "p521": elliptic.P521(),
		"sm2": sm2.SM2P256V1(), "sm2b": sm2.SM2P256V1()}
	for _, n := range keysOf(curves) {
		c := curves[n]
		seed := NewRng(int64(len(n)) + rng.Int63())
		k[n] = ecPriv(c, seed.BigIn(big.NewInt(1), new(big.Int).Sub(c.Params().N, big.NewInt(2))))
	}
	k["ed25519"] = ed25519.NewKeyFromSeed(rng.Bytes(32))
	return k
}
func (k keyring) pub(name string) interface{} {
	switch name {
	case "":
		return nil
	case "bad":
		return "no key"
	case "odd", "oddsm2", "dsa":
		return pubOf(unsupportedKey(name))
	}
	return pubOf(k[name])
}
func (k keyring) pubRec(name string) M {
	switch name {
	case "bad", "odd", "oddsm2", "dsa": // no key the package knows
		return pubRec(nil)
	}
	return pubRec(k.pub(name))
}

// oddCurve is a curve the package does not know: P-256 with another base point
func oddCurve() elliptic.Curve {
	p := *elliptic.P256().Params()
	p.Gx, p.Gy = elliptic.P256().Double(p.Gx, p.Gy)
	p.Name = "odd"
	return &p
}

// unsupportedKey gives keys of kinds and curves that the package does not support
func unsupportedKey(name string) interface{} {
	c := oddCurve()
	x, y := c.ScalarBaseMult([]byte{7})
	switch name {
	case "odd":
		return &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: c, X: x, Y: y}, D: big.NewInt(7)}
	case "oddsm2":
		return &sm2.PrivateKey{PublicKey: sm2.PublicKey{Curve: c, X: x, Y: y}, D: big.NewInt(7)}
	case "dsa":
		k := &dsa.PrivateKey{X: big.NewInt(7)}
		k.P, k.Q, k.G, k.Y = big.NewInt(23), big.NewInt(11), big.NewInt(4), big.NewInt(8)
		return k
	}
	return nil
}

// signer signs as its mode says
type signer struct {
	key  interface{}
	mode string
	rng  *Rng
	rand io.Reader
	msgs [][]byte
}

func (s *signer) Public() crypto.PublicKey { return pubOf(s.key) }
func (s *signer) Sign(rand io.Reader, digest []byte, opts crypto.SignerOpts) ([]byte, error) {
	if s.mode == "fails" {
		return nil, errors.New("verif: the signer refuses")
	}
	in := clone(digest)
	if s.mode == "garbage" {
		// a signature over something else
		if len(in) == 0 {
			return []byte{1, 2, 3}, nil
		}
		n := len(in)
		if n > 20 { // small curves use only the beginning of a long digest
			n = 20
		}
		in[s.rng.Intn(n)] ^= 1 << uint(s.rng.Intn(8))
	}
	switch k := s.key.(type) {
	case *sm2.PrivateKey:
		return sm2.Sign(rand, k, in, nil)
	case *rsa.PrivateKey:
		return k.Sign(rand, in, opts)
	case *ecdsa.PrivateKey:
		return k.Sign(rand, in, opts)
	case ed25519.PrivateKey:
		return k.Sign(rand, in, opts)
	}
	return nil, errors.New("verif: no key")
}

// ---- templates

func (t *tCert) build(s *certScn) *x509.Certificate {
	c := &x509.Certificate{Subject: nameOf(t.Subject), NotBefore: timeOf(t.Nb, s.Fb, s.Zb), NotAfter: timeOf(t.Na, s.Fa, s.Za),
		KeyUsage: x509.KeyUsage(t.Ku), BasicConstraintsValid: t.Bcv, IsCA: t.IsCA, MaxPathLen: t.Mpl, MaxPathLenZero: t.Mplz,
		SubjectKeyId: nilIf(t.Ski), AuthorityKeyId: nilIf(t.Aki), DNSNames: strs(t.DNS), EmailAddresses: strs(t.Emails), IPAddresses: ipsOf(t.IPs),
		URIs: urisOf(t.URIs), CRLDistributionPoints: strs(t.CrlDp), OCSPServer: strs(t.OCSP), IssuingCertificateURL: strs(t.Issuers),
		PermittedDNSDomainsCritical: t.PermCrit, PermittedDNSDomains: strs(t.Pdns), ExcludedDNSDomains: strs(t.Edns),
		PermittedIPRanges: netsOf(t.Pip), ExcludedIPRanges: netsOf(t.Eip), PermittedEmailAddresses: strs(t.Pemail),
		ExcludedEmailAddresses: strs(t.Eemail), PermittedURIDomains: strs(t.Puri), ExcludedURIDomains: strs(t.Euri),
		ExtraExtensions: extsOf(t.Extra), SignatureAlgorithm: algOf(t.Alg), RawSubject: nilIf(t.Subject.Raw)}
	if t.HasSerial {
		c.SerialNumber = bigOf(t.Serial)
	}
	for _, e := range t.Eku {
		c.ExtKeyUsage = append(c.ExtKeyUsage, x509.ExtKeyUsage(e))
	}
	for _, o := range t.Ueku {
		c.UnknownExtKeyUsage = append(c.UnknownExtKeyUsage, oidFromContent(o))
	}
	for _, o := range t.Policies {
		c.PolicyIdentifiers = append(c.PolicyIdentifiers, oidFromContent(o))
	}
	t.URIs = uriStrings(c.URIs)
	return c
}
func nilIf(b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	return clone(b)
}
func (t *tCsr) build() *x509.CertificateRequest {
	c := &x509.CertificateRequest{Subject: nameOf(t.Subject), RawSubject: nilIf(t.Subject.Raw), DNSNames: strs(t.DNS), EmailAddresses: strs(t.Emails),
		IPAddresses: ipsOf(t.IPs), URIs: urisOf(t.URIs), ExtraExtensions: extsOf(t.Extra), SignatureAlgorithm: algOf(t.Alg)}
	for _, a := range t.Attrs {
		set := pkix.AttributeTypeAndValueSET{Type: oidFromContent(a.Oid)}
		for _, v := range a.Values {
			vs := []pkix.AttributeTypeAndValue{}
			for _, p := range v {
				vs = append(vs, pkix.AttributeTypeAndValue{Type: oidFromContent(p.Oid), Value: clone(p.Val)})
			}
			set.Value = append(set.Value, vs)
		}
		c.Attributes = append(c.Attributes, set)
	}
	t.URIs = uriStrings(c.URIs)
	return c
}
func (p *tParent) build(k keyring) *x509.Certificate {
	return &x509.Certificate{Subject: nameOf(p.Name), RawSubject: nilIf(p.Name.Raw), SubjectKeyId: nilIf(p.Ski), KeyUsage: x509.KeyUsage(p.Ku), PublicKey: k.pub(p.Key)}
}
func entriesOf(x []tEntry, zone int) []pkix.RevokedCertificate {
	var out []pkix.RevokedCertificate
	for _, e := range x {
		out = append(out, pkix.RevokedCertificate{SerialNumber: bigOf(e.Serial), RevocationTime: timeOf(e.T, 0, zone), Extensions: extsOf(e.Exts)})
	}
	return out
}

// ---- creation

func (k keyring) parentRec(p tParent) M {
	return M{"name": p.Name, "ski": p.Ski, "ku": p.Ku, "key": k.pubRec(p.Key)}
}

func certMake(c *Ctx) {
	var scn []certScn
	readJSON(c.In, &scn)
	keys := newKeyring(c.Rng)
	rngs := make([]*Rng, len(scn))
	for i := range scn {
		rngs[i] = c.Rng.Fork()
	}
	out := make([]M, len(scn))
	parallel(len(scn), func(i int) { out[i] = certEvent(keys, &scn[i], rngs[i]) })
	lists := false
	for i, e := range out {
		if e != nil {
			c.Out.Put(e)
		}
		lists = lists || scn[i].Fam == "crl"
	}
	if !lists {
		return
	}
	// a list needs a template and an issuer
	issuer := &x509.Certificate{Subject: pkix.Name{CommonName: "i"}, KeyUsage: x509.KeyUsageCRLSign, SubjectKeyId: []byte{1}, PublicKey: keys.pub("sm2")}
	for _, how := range []string{"no template", "no issuer", "neither"} {
		l, i := &x509.RevocationList{Number: big.NewInt(1), ThisUpdate: time.Unix(1, 0), NextUpdate: time.Unix(2, 0)}, issuer
		if how != "no issuer" {
			l = nil
		}
		if how != "no template" {
			i = nil
		}
		var der []byte
		var err error
		p := call(func() {
			der, err = x509.CreateRevocationList(c.Rng, l, i, &signer{key: keys["sm2"], mode: "ok", rng: c.Rng})
		})
		c.Out.Put(M{"op": "refused", "case": how, "panic": p, "err": es(err), "got": len(der) > 0})
	}
}

func certEvent(keys keyring, s *certScn, rng *Rng) M {
	sg := &signer{key: keys[s.Key], mode: s.Mode, rng: rng}
	var priv interface{} = sg
	who := s.Key
	if k := unsupportedKey(s.Mode); k != nil {
		sg.key, sg.mode, who = k, "ok", s.Mode
	}
	if s.Mode == "nosigner" {
		priv = struct{ D *big.Int }{big.NewInt(5)}
	}
	e := M{"case": s.Case, "S": M{"mode": s.Mode, "key": keys.pubRec(who)}}
	var der []byte
	var err error
	var trouble string
	vok := false
	perr := ""
	signed := &x509.Certificate{PublicKey: keys.pub(s.Key)}
	parse := func(f func()) {
		if err == nil && trouble == "" && der != nil {
			if p := call(f); p != "" {
				trouble = p
			}
		}
	}
	switch s.Fam {
	case "cert":
		var t tCert
		if err := json.Unmarshal(s.T, &t); err != nil {
			die(err)
		}
		tmpl := t.build(s)
		parent := s.P.build(keys)
		if s.Self {
			parent = tmpl
		}
		trouble = call(func() { der, err = x509.CreateCertificate(rng, tmpl, parent, keys.pub(s.Pub), priv) })
		e["op"], e["T"], e["P"], e["pub"] = "create", t, keys.parentRec(s.P), keys.pubRec(s.Pub)
		var back *x509.Certificate
		parse(func() {
			var perr2 error
			in := clone(der)
			back, perr2 = x509.ParseCertificate(in)
			perr = es(perr2)
			if perr2 == nil {
				vok = signed.CheckSignature(back.SignatureAlgorithm, back.RawTBSCertificate, back.Signature) == nil
			}
		})
		e["seen"] = certSeen(back)
	case "csr":
		var t tCsr
		if err := json.Unmarshal(s.T, &t); err != nil {
			die(err)
		}
		tmpl := t.build()
		trouble = call(func() { der, err = x509.CreateCertificateRequest(rng, tmpl, priv) })
		e["op"], e["T"] = "csrcreate", t
		var back *x509.CertificateRequest
		parse(func() {
			var perr2 error
			back, perr2 = x509.ParseCertificateRequest(clone(der))
			perr = es(perr2)
			if perr2 == nil {
				vok = back.CheckSignature() == nil
			}
		})
		e["seen"] = csrSeen(back)
	case "crl":
		var t tCrl
		if err := json.Unmarshal(s.T, &t); err != nil {
			die(err)
		}
		if t.Api == "list" && s.Mode == "nosigner" {
			return nil // the type of the argument rules it out
		}
		issuer := s.P.build(keys)
		tu, nu := timeOf(t.Tu, s.Fb, s.Zb), timeOf(t.Nu, s.Fa, s.Za)
		trouble = call(func() {
			if t.Api == "list" {
				l := &x509.RevocationList{SignatureAlgorithm: algOf(t.Alg), RevokedCertificates: entriesOf(t.Entries, s.Ze), ThisUpdate: tu, NextUpdate: nu,
					ExtraExtensions: extsOf(t.Extra)}
				if t.HasNumber {
					l.Number = bigOf(t.Number)
				}
				der, err = x509.CreateRevocationList(rng, l, issuer, sg)
			} else {
				der, err = issuer.CreateCRL(rng, priv, entriesOf(t.Entries, s.Ze), tu, nu)
			}
		})
		e["op"], e["T"], e["P"] = "crlcreate", t, keys.parentRec(s.P)
		var back *pkix.CertificateList
		parse(func() {
			var perr2 error
			back, perr2 = x509.ParseCRL(clone(der))
			perr = es(perr2)
			if perr2 == nil {
				vok = signed.CheckCRLSignature(back) == nil
			}
		})
		e["seen"] = crlSeen(back)
	}
	e["der"], e["got"], e["err"], e["perr"], e["vok"], e["panic"] = B(der), len(der) > 0, es(err), perr, vok, trouble
	return e
}

var _ = bytes.Equal
