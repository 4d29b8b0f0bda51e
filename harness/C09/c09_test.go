package c09

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	fcrypto "github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

var keys []*rsa.PrivateKey
var ders [][]byte

func init() {
	for i := 0; i < 3; i++ {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		if err != nil {
			if k, err = rsa.GenerateKey(rand.Reader, 2048); err != nil {
				panic(err)
			}
		}
		d, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
		if err != nil {
			panic(err)
		}
		keys, ders = append(keys, k), append(ders, d)
	}
}

func words(h *vlib.H, n int) []string {
	var l []string
	for ; n > 0; n-- {
		l = append(l, fmt.Sprintf("w%d", h.Rng.Intn(50)))
	}
	return l
}

func tm(h *vlib.H) time.Time {
	t := time.Unix(int64(h.Rng.Intn(1e9)), int64(h.Rng.Intn(3))*int64(h.Rng.Intn(1e9))).UTC()
	if h.Rng.Intn(4) == 0 {
		t = t.In(time.FixedZone("", 3600*(h.Rng.Intn(20)-10)))
	}
	return t
}

func opt(h *vlib.H, n int) []byte {
	switch h.Rng.Intn(4) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	b := make([]byte, n, n+h.Rng.Intn(8)) // spare capacity: nothing may be written there
	copy(b, h.Bytes(n))
	return b
}

func attrs(h *vlib.H) common.PolicyAttributes {
	return common.PolicyAttributes{AllowedCAs: words(h, h.Rng.Intn(3)), AllowedSubdomains: words(h, h.Rng.Intn(3)),
		DisallowedSubdomains: words(h, h.Rng.Intn(2)), ExcludedSubdomains: words(h, h.Rng.Intn(2))}
}

// polCert makes a policy certificate with the public key k.
func polCert(h *vlib.H, k int) *common.PolicyCertificate {
	r := h.Rng
	c := common.NewPolicyCertificate(r.Intn(3), r.Intn(1000), strings.Join(words(h, r.Intn(3)), "."), tm(h), tm(h), r.Intn(2) == 0, r.Intn(2) == 0,
		append([]byte(nil), ders[k]...), common.PublicKeyAlgorithm(r.Intn(2)), common.SignatureAlgorithm(r.Intn(2)), tm(h), attrs(h),
		opt(h, 40), opt(h, 32), nil, opt(h, 40), opt(h, 32))
	for j := r.Intn(3); j > 0; j-- {
		c.SPCTs = append(c.SPCTs, *common.NewSignedPolicyCertificateTimestamp(r.Intn(3), h.Bytes(8), tm(h), h.Bytes(12)))
	}
	return c
}

// deep copies a value, keeping nil and empty apart.
func deep(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	switch v.Kind() {
	case reflect.Slice:
		if !v.IsNil() {
			n = reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				n.Index(i).Set(deep(v.Index(i)))
			}
		}
	case reflect.Struct:
		if _, ok := v.Interface().(time.Time); !ok {
			for i := 0; i < v.NumField(); i++ {
				if n.Field(i).CanSet() {
					n.Field(i).Set(deep(v.Field(i)))
				}
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			n = reflect.New(v.Type().Elem())
			n.Elem().Set(deep(v.Elem()))
		}
	}
	return n
}

func clone[T any](p *T) *T { return deep(reflect.ValueOf(p)).Interface().(*T) }

// alterations returns one function per serialized leaf below v that changes it, with its path.
func alterations(v reflect.Value, path string, out map[string]func()) {
	switch v.Kind() {
	case reflect.Struct:
		if _, ok := v.Interface().(time.Time); ok {
			out[path] = func() { v.Set(reflect.ValueOf(v.Interface().(time.Time).Add(time.Second))) }
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || strings.HasPrefix(f.Tag.Get("json"), "-") {
				continue
			}
			p := path + "." + f.Name
			if f.Anonymous {
				p = path
			}
			alterations(v.Field(i), p, out)
		}
	case reflect.String:
		out[path] = func() { v.SetString(v.String() + "x") }
	case reflect.Bool:
		out[path] = func() { v.SetBool(!v.Bool()) }
	case reflect.Int, reflect.Int64, reflect.Int32:
		out[path] = func() { v.SetInt(v.Int() + 1) }
	case reflect.Uint8, reflect.Uint, reflect.Uint32, reflect.Uint64:
		out[path] = func() { v.SetUint(v.Uint() ^ 1) }
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Len() == 0 {
				out[path] = func() { v.SetBytes([]byte{1}) }
			} else {
				out[path] = func() { b := v.Bytes(); b[len(b)/2] ^= 4 }
			}
			return
		}
		out[path+"[+]"] = func() {
			n := reflect.New(v.Type().Elem()).Elem()
			if n.Kind() == reflect.String {
				n.SetString("added")
			}
			v.Set(reflect.Append(v, n))
		}
		for i := 0; i < v.Len(); i++ {
			alterations(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	}
}

func signerHash(c *common.PolicyCertificate) []byte {
	x := clone(c)
	x.SPCTs, x.IssuerSignature = nil, nil
	b, err := common.ToJSON(x)
	if err != nil {
		panic(err)
	}
	s := sha256.Sum256(b)
	return s[:]
}

// sigOK tells whether sig is k's signature over doc's canonical serialization.
func sigOK(k *rsa.PublicKey, doc any, sig []byte) bool {
	b, err := common.ToJSON(doc)
	if err != nil {
		panic(err)
	}
	s := sha256.Sum256(b)
	return rsa.VerifyPKCS1v15(k, crypto.SHA256, s[:], sig) == nil
}

// sign returns k's signature over doc's canonical serialization.
func sign(k *rsa.PrivateKey, doc any) []byte {
	b, err := common.ToJSON(doc)
	if err != nil {
		panic(err)
	}
	s := sha256.Sum256(b)
	sig, err := rsa.SignPKCS1v15(rand.Reader, k, crypto.SHA256, s[:])
	if err != nil {
		panic(err)
	}
	return sig
}

// wrongHashes returns values close to the hash x, and x itself.
func wrongHashes(h *vlib.H, x []byte) [][]byte {
	f := append([]byte(nil), x...)
	f[h.Rng.Intn(len(f))] ^= 1 << h.Rng.Intn(8)
	z := append([]byte(nil), x...)
	z[len(z)-1] = 0
	return [][]byte{nil, {}, x[:1+h.Rng.Intn(len(x)-1)], x[:len(x)-1], append(append([]byte(nil), x...), 0), append(append([]byte(nil), x...), x...), f, z,
		make([]byte, 32), x[1:], x}
}

func same(h *vlib.H, key, what string, before, after any) {
	if !reflect.DeepEqual(before, after) {
		h.Fail(key, "%s was modified:\nbefore %+v\nafter  %+v", what, before, after)
	}
}

func request(c *common.PolicyCertificate) *common.PolicyCertificateSigningRequest {
	return common.NewPolicyCertificateSigningRequest(c.Version, c.SerialNumberField, c.DomainField, c.NotBefore, c.NotAfter, c.CanIssue, c.CanOwn,
		c.PublicKey, c.PublicKeyAlgorithm, c.SignatureAlgorithm, c.TimeStamp, c.PolicyAttributes, nil, nil)
}

// TestVerifC09Hash: ComputeHashAsSigner.
func TestVerifC09Hash(t *testing.T) {
	vlib.Run(t, "random policy certificates hashed as signer by the real function, before and after altering each field", func(h *vlib.H) {
		for n := 0; n < h.N(150, 8000) && h.More(); n++ {
			c := polCert(h, h.Rng.Intn(3))
			before := clone(c)
			h.Case(fmt.Sprintf("%+v", c))
			got, err := fcrypto.ComputeHashAsSigner(c)
			same(h, "mutated", "the certificate hashed", before, c)
			if err != nil || string(got) != string(signerHash(c)) {
				h.Fail("hash", "ComputeHashAsSigner(%+v) = %x, %v", c, got, err)
			}
			alts := map[string]func(){}
			alterations(reflect.ValueOf(c).Elem(), "", alts)
			for p := range alts {
				x := clone(c)
				a := map[string]func(){}
				alterations(reflect.ValueOf(x).Elem(), "", a)
				a[p]()
				g, err := fcrypto.ComputeHashAsSigner(x)
				excluded := strings.HasPrefix(p, ".SPCTs") || p == ".IssuerSignature"
				if err != nil || (string(g) == string(got)) != excluded {
					h.Fail("hash-fields", "altering %s of %+v: hash equal %v, error %v", p, c, string(g) == string(got), err)
				}
			}
		}
	})
}

func TestVerifC09Owner(t *testing.T) {
	vlib.Run(t, "random requests signed as owner by the real functions and verified; each field of the signed document and of the signer altered one at a time (oracle: crypto/rsa over the canonical serialization); refused requests; arguments compared before and after", func(h *vlib.H) {
		for n := 0; n < h.N(60, 4000) && h.More(); n++ {
			r := h.Rng
			ok := r.Intn(3)
			owner := polCert(h, ok)
			req := request(polCert(h, r.Intn(3)))
			ownerB, reqB := clone(owner), clone(req)
			h.Case(fmt.Sprintf("%+v", req))
			// Refusals.
			for _, f := range []func(o *common.PolicyCertificate, q *common.PolicyCertificateSigningRequest){
				func(o *common.PolicyCertificate, q *common.PolicyCertificateSigningRequest) { o.CanOwn = false },
				func(o *common.PolicyCertificate, q *common.PolicyCertificateSigningRequest) { o.CanOwn, q.OwnerHash = true, h.Bytes(32) },
				func(o *common.PolicyCertificate, q *common.PolicyCertificateSigningRequest) { o.CanOwn, q.OwnerSignature = true, h.Bytes(32) },
			} {
				o, q := clone(owner), clone(req)
				f(o, q)
				oB, qB := clone(o), clone(q)
				if err := fcrypto.SignAsOwner(o, keys[ok], q); err == nil {
					h.Fail("refusal", "SignAsOwner accepted CanOwn %v, present signature %v, hash %v", o.CanOwn, qB.OwnerSignature != nil, qB.OwnerHash != nil)
				}
				same(h, "mutated", "the owner certificate (refused)", oB, o)
				same(h, "mutated", "the refused request", qB, q)
			}
			owner.CanOwn, ownerB.CanOwn = true, true
			// A key that cannot sign: the request stays as it was.
			{
				q := clone(req)
				bad := &rsa.PrivateKey{}
				*bad = *keys[ok]
				bad.D, bad.Primes, bad.Precomputed = nil, nil, rsa.PrecomputedValues{}
				func() {
					defer func() { recover() }()
					if err := fcrypto.SignAsOwner(clone(owner), bad, q); err != nil {
						same(h, "mutated-on-failure", "the request that could not be signed", reqB, q)
					}
				}()
			}
			var err error
			if !h.Try("sign", func() string { return fmt.Sprintf("%+v", req) }, func() { err = fcrypto.SignAsOwner(owner, keys[ok], req) }) {
				continue
			}
			if err != nil {
				h.Fail("sign", "SignAsOwner(%+v): %v", reqB, err)
				continue
			}
			same(h, "mutated", "the owner certificate", ownerB, owner)
			x := clone(req)
			x.OwnerSignature, x.OwnerHash = nil, nil
			same(h, "mutated", "a field other than signature and hash of the request", reqB, x)
			if string(req.OwnerHash) != string(signerHash(owner)) {
				h.Fail("signer-hash", "owner hash of the request is not the owner's")
			}
			// The signature covers all other fields; issuer's fields and timestamps are not covered.
			pc := common.NewPolicyCertificateFromRequest(clone(req))
			donor := polCert(h, r.Intn(3))
			pc.SPCTs, pc.IssuerSignature, pc.IssuerHash = donor.SPCTs, donor.IssuerSignature, donor.IssuerHash
			check := func(what string, o, c *common.PolicyCertificate) {
				oB, cB := clone(o), clone(c)
				var err error
				if !h.Try("verify", func() string { return fmt.Sprintf("%s %+v %+v", what, o, c) }, func() { err = fcrypto.VerifyOwnerSignatureInPolicyCertificate(o, c) }) {
					return
				}
				same(h, "mutated", "the owner certificate ("+what+")", oB, o)
				same(h, "mutated", "the certificate verified ("+what+")", cB, c)
				body := clone(c)
				body.SPCTs, body.IssuerSignature, body.IssuerHash, body.OwnerSignature = nil, nil, nil, nil
				want := string(c.OwnerHash) == string(signerHash(o))
				if want {
					pk, perr := x509.ParsePKIXPublicKey(o.PublicKey)
					k, isRSA := pk.(*rsa.PublicKey)
					want = perr == nil && isRSA && sigOK(k, body, c.OwnerSignature)
				}
				if want != (err == nil) {
					h.Fail("verify-owner", "%s: VerifyOwnerSignatureInPolicyCertificate = %v, want accepted %v\nowner %+v\ncertificate %+v", what, err, want, o, c)
				}
				if len(c.SPCTs) == 0 && c.IssuerSignature == nil && c.IssuerHash == nil {
					q := request(clone(c))
					q.OwnerSignature, q.OwnerHash = c.OwnerSignature, c.OwnerHash
					qB := clone(q)
					if err := fcrypto.VerifyOwnerSignature(o, q); want != (err == nil) {
						h.Fail("verify-owner-request", "%s: VerifyOwnerSignature = %v, want accepted %v", what, err, want)
					}
					same(h, "mutated", "the request verified ("+what+")", qB, q)
				}
			}
			check("honest", owner, pc)
			check("honest request", owner, common.NewPolicyCertificateFromRequest(req))
			alts := map[string]func(){}
			alterations(reflect.ValueOf(pc).Elem(), "", alts)
			for p := range alts {
				c := clone(pc)
				a := map[string]func(){}
				alterations(reflect.ValueOf(c).Elem(), "", a)
				a[p]()
				check("altered "+p, owner, c)
			}
			alts = map[string]func(){}
			alterations(reflect.ValueOf(owner).Elem(), "", alts)
			for p := range alts {
				o := clone(owner)
				a := map[string]func(){}
				alterations(reflect.ValueOf(o).Elem(), "", a)
				a[p]()
				check("signer altered "+p, o, clone(pc))
			}
			// The hash of another certificate recorded: the signature must still be that key's.
			o2 := polCert(h, (ok+1)%3)
			c := clone(pc)
			c.OwnerHash = signerHash(o2)
			check("other owner", o2, c)
			c = clone(pc)
			c.OwnerSignature = nil
			check("no signature", owner, c)
			// Another recorded hash under a valid signature of the owner's key.
			for i, hash := range wrongHashes(h, signerHash(owner)) {
				c := clone(pc)
				c.OwnerHash = hash
				body := clone(c)
				body.SPCTs, body.IssuerSignature, body.IssuerHash, body.OwnerSignature = nil, nil, nil, nil
				c.OwnerSignature = sign(keys[ok], body)
				check(fmt.Sprintf("recorded hash %d re-signed", i), owner, c)
			}
			o3 := clone(owner)
			o3.PublicKey = o3.PublicKey[:len(o3.PublicKey)/2]
			c = clone(pc)
			c.OwnerHash = signerHash(o3)
			check("owner with a broken key", o3, c)
		}
	})
}

func TestVerifC09Issuer(t *testing.T) {
	vlib.Run(t, "random policy certificates signed as issuer by the real functions and verified; each field of the signed document and of the signer altered one at a time (oracle: crypto/rsa over the canonical serialization); refusals; arguments compared before and after", func(h *vlib.H) {
		for n := 0; n < h.N(60, 4000) && h.More(); n++ {
			r := h.Rng
			ik := r.Intn(3)
			issuer, child := polCert(h, ik), polCert(h, r.Intn(3))
			child.IssuerSignature, child.IssuerHash = nil, nil
			issuerB, childB := clone(issuer), clone(child)
			h.Case(fmt.Sprintf("%+v", child))
			for k := 0; k < 2; k++ {
				c := clone(child)
				if k == 0 {
					c.IssuerHash = h.Bytes(32)
				} else {
					c.IssuerSignature = h.Bytes(16)
				}
				cB := clone(c)
				if err := fcrypto.SignPolicyCertificateAsIssuer(issuer, keys[ik], c); err == nil {
					h.Fail("refusal", "SignPolicyCertificateAsIssuer accepted a signed certificate")
				}
				same(h, "mutated", "the refused certificate", cB, c)
				same(h, "mutated", "the issuer certificate (refused)", issuerB, issuer)
			}
			var err error
			if !h.Try("sign", func() string { return fmt.Sprintf("%+v", child) }, func() { err = fcrypto.SignPolicyCertificateAsIssuer(issuer, keys[ik], child) }) {
				continue
			}
			if err != nil {
				h.Fail("sign", "SignPolicyCertificateAsIssuer(%+v): %v", childB, err)
				continue
			}
			same(h, "mutated", "the issuer certificate", issuerB, issuer)
			x := clone(child)
			x.IssuerSignature, x.IssuerHash = nil, nil
			same(h, "mutated", "a field other than signature and hash of the certificate", childB, x)
			check := func(what string, o, c *common.PolicyCertificate) {
				oB, cB := clone(o), clone(c)
				var err error
				if !h.Try("verify", func() string { return fmt.Sprintf("%s %+v %+v", what, o, c) }, func() { err = fcrypto.VerifyIssuerSignature(o, c) }) {
					return
				}
				same(h, "mutated", "the issuer certificate ("+what+")", oB, o)
				same(h, "mutated", "the certificate verified ("+what+")", cB, c)
				body := clone(c)
				body.IssuerSignature = nil
				want := string(c.IssuerHash) == string(signerHash(o))
				if want {
					pk, perr := x509.ParsePKIXPublicKey(o.PublicKey)
					k, isRSA := pk.(*rsa.PublicKey)
					want = perr == nil && isRSA && sigOK(k, body, c.IssuerSignature)
				}
				if want != (err == nil) {
					h.Fail("verify-issuer", "%s: VerifyIssuerSignature = %v, want accepted %v\nissuer %+v\ncertificate %+v", what, err, want, o, c)
				}
			}
			check("honest", issuer, child)
			alts := map[string]func(){}
			alterations(reflect.ValueOf(child).Elem(), "", alts)
			for p := range alts {
				c := clone(child)
				a := map[string]func(){}
				alterations(reflect.ValueOf(c).Elem(), "", a)
				a[p]()
				check("altered "+p, issuer, c)
			}
			alts = map[string]func(){}
			alterations(reflect.ValueOf(issuer).Elem(), "", alts)
			for p := range alts {
				o := clone(issuer)
				a := map[string]func(){}
				alterations(reflect.ValueOf(o).Elem(), "", a)
				a[p]()
				check("signer altered "+p, o, clone(child))
			}
			for i, hash := range wrongHashes(h, signerHash(issuer)) {
				c := clone(child)
				c.IssuerHash, c.IssuerSignature = hash, nil
				c.IssuerSignature = sign(keys[ik], c)
				check(fmt.Sprintf("recorded hash %d re-signed", i), issuer, c)
			}
			o2 := polCert(h, (ik+1)%3)
			c := clone(child)
			c.IssuerHash = signerHash(o2)
			check("other issuer", o2, c)
			// A request signed as issuer becomes a certificate with exactly its fields.
			req := request(polCert(h, r.Intn(3)))
			req.OwnerSignature, req.OwnerHash = opt(h, 20), opt(h, 32)
			reqB := clone(req)
			pc, err := fcrypto.SignRequestAsIssuer(issuer, keys[ik], req)
			same(h, "mutated", "the request", reqB, req)
			same(h, "mutated", "the issuer certificate", issuerB, issuer)
			if err != nil {
				h.Fail("sign-request", "%v", err)
				continue
			}
			check("request", issuer, pc)
			want := common.NewPolicyCertificateFromRequest(reqB)
			got := clone(pc)
			got.IssuerSignature, got.IssuerHash = nil, nil
			if !reflect.DeepEqual(want, got) {
				h.Fail("sign-request", "certificate %+v does not carry exactly the fields of the request %+v", pc, reqB)
			}
		}
	})
}

// TestVerifC09Unserializable: documents that cannot be serialized are refused and left as they were.
func TestVerifC09Unserializable(t *testing.T) {
	vlib.Run(t, "documents that cannot be serialized (a year beyond 9999) as signer or as signed document in every signing and verification function; arguments compared before and after", func(h *vlib.H) {
		for n := 0; n < h.N(100, 5000) && h.More(); n++ {
			r := h.Rng
			k := r.Intn(3)
			signer, child := polCert(h, k), polCert(h, r.Intn(3))
			signer.CanOwn = true
			far := time.Date(20000, 1, 1, 0, 0, 0, 0, time.UTC)
			where := r.Intn(2)
			if where == 0 {
				child.NotAfter = far
			} else {
				signer.TimeStamp = far
			}
			if where == 0 {
				child.OwnerHash, child.IssuerHash = signerHash(signer), signerHash(signer)
			}
			req := request(clone(child))
			h.Case(fmt.Sprint(n, where))
			signerB := clone(signer)
			expect := func(what string, before, after any, err error) {
				if err == nil {
					h.Fail("unserializable", "%s succeeded on a document that cannot be serialized", what)
				}
				same(h, "mutated-on-failure", "the document given to "+what, before, after)
				same(h, "mutated-on-failure", "the signer given to "+what, signerB, signer)
			}
			in := func() string { return fmt.Sprintf("signer %+v document %+v", signer, child) }
			h.Try("unserializable", in, func() {
				c := clone(child)
				b := clone(c)
				expect("VerifyOwnerSignatureInPolicyCertificate", b, c, fcrypto.VerifyOwnerSignatureInPolicyCertificate(signer, c))
				c = clone(child)
				expect("VerifyIssuerSignature", clone(c), c, fcrypto.VerifyIssuerSignature(signer, c))
				c = clone(child)
				c.IssuerHash, c.IssuerSignature = nil, nil
				b = clone(c)
				expect("SignPolicyCertificateAsIssuer", b, c, fcrypto.SignPolicyCertificateAsIssuer(signer, keys[k], c))
				q := clone(req)
				q.OwnerHash, q.OwnerSignature = nil, nil
				qb := clone(q)
				expect("SignAsOwner", qb, q, fcrypto.SignAsOwner(signer, keys[k], q))
				q = clone(req)
				q.OwnerHash, q.OwnerSignature = child.OwnerHash, h.Bytes(10)
				qb = clone(q)
				expect("VerifyOwnerSignature", qb, q, fcrypto.VerifyOwnerSignature(signer, q))
				q = clone(req)
				qb = clone(q)
				_, err := fcrypto.SignRequestAsIssuer(signer, keys[k], q)
				expect("SignRequestAsIssuer", qb, q, err)
				if where == 1 {
					_, err := fcrypto.ComputeHashAsSigner(signer)
					expect("ComputeHashAsSigner", 0, 0, err)
				}
			})
		}
	})
}
