package c27

import (
	"bytes"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	fcrypto "github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/pca"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

var keys []*rsa.PrivateKey
var ders [][]byte

func init() {
	for i := 0; i < 3; i++ {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		if err != nil {
			if k, err = rsa.GenerateKey(rand.Reader, 2048); err != nil {
				panic(err)
			}
		}
		d, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
		if err != nil {
			panic(err)
		}
		keys, ders = append(keys, k), append(ders, d)
	}
}

// logs records what log servers are sent.
type logs struct {
	asked, final map[string]int
	failURL      string
}

func (l *logs) ObtainSptFromLogServer(url string, pc *common.PolicyCertificate) (*common.SignedPolicyCertificateTimestamp, error) {
	l.asked[url]++
	if url == l.failURL {
		return nil, errors.New("injected log server failure")
	}
	return common.NewSignedPolicyCertificateTimestamp(1, []byte(url), time.Unix(77, 0).UTC(), []byte("sig of "+url)), nil
}

func (l *logs) SendPolicyCertificateToLogServer(url string, pc *common.PolicyCertificate) error {
	l.final[url]++
	return nil
}

func attrs(h *vlib.H) common.PolicyAttributes {
	a := common.PolicyAttributes{}
	if h.Rng.Intn(2) == 0 {
		a.AllowedCAs = []string{fmt.Sprint("ca", h.Rng.Intn(9))}
	}
	if h.Rng.Intn(2) == 0 {
		a.AllowedSubdomains = []string{"*"}
	}
	return a
}

func TestVerifC27(t *testing.T) {
	vlib.Run(t, "histories of signing requests on a policy CA: validity periods around the CA's own at the second and nanosecond, random fields; serial numbers over accepted and refused requests; requests unsigned, signed by a stored owner, by an unknown one, altered after signing; log servers 0 to 4, one failing; a case is one request", func(h *vlib.H) {
		for n := 0; n < h.N(60, 5000) && h.More(); n++ {
			r := h.Rng
			nb, na := time.Unix(1000000, 500).UTC(), time.Unix(2000000, 0).UTC()
			root := common.NewPolicyCertificate(1, 0, "", nb, na, true, true, ders[0], common.RSA, common.SHA256, nb, common.PolicyAttributes{}, nil, nil, nil, nil, nil)
			l := &logs{map[string]int{}, map[string]int{}, ""}
			ca := &pca.PCA{CAName: "ca", RsaKeyPair: keys[0], RootPolicyCert: root, CtLogServers: map[[32]byte]*pca.CTLogServerEntryConfig{},
				DB: map[[32]byte]*common.PolicyCertificate{}, LogServerRequester: l, SerialNumber: r.Intn(5)}
			for k := r.Intn(5); k > 0; k-- {
				url := fmt.Sprint("http://log", k)
				ca.CtLogServers[sha256.Sum256([]byte(url))] = &pca.CTLogServerEntryConfig{Name: url, URL: url}
			}
			last, serial := ca.SerialNumber, ca.SerialNumber
			edge := func(t0 time.Time) time.Time {
				d := []time.Duration{0, 1, -1, time.Second, -time.Second, time.Hour, -time.Hour, -100 * time.Hour}[r.Intn(8)]
				x := t0.Add(d)
				if r.Intn(3) == 0 {
					x = x.In(time.FixedZone("", 3600*5))
				}
				return x
			}
			for k := 0; k < 6; k++ {
				f, to := edge(nb), edge(na)
				if r.Intn(4) == 0 {
					f, to = edge(na), edge(nb)
				}
				version, dom := r.Intn(4), fmt.Sprintf("d%d.com", r.Intn(9))
				ci, co := r.Intn(2) == 0, r.Intn(2) == 0
				pub := ders[r.Intn(3)]
				a := attrs(h)
				var oh []byte
				if r.Intn(2) == 0 {
					oh = h.Bytes(32)
				}
				sig := h.Bytes(20)
				var signed []byte
				in := fmt.Sprintf("#%d/%d CA valid [%v,%v], request [%v,%v] for %s", n, k, nb, na, f, to, dom)
				h.Case(in)
				var req *common.PolicyCertificateSigningRequest
				var err error
				t0 := time.Now()
				if !h.Try("request", func() string { return in }, func() {
					req, err = ca.NewPolicyCertificateSigningRequest(version, dom, f, to, ci, co, pub, common.RSA, common.SHA256, a, func(b []byte) []byte {
						signed = append([]byte(nil), b...)
						return sig
					}, oh)
				}) {
					continue
				}
				valid := !f.Before(nb) && !to.After(na)
				if valid != (err == nil) {
					h.Fail("validity", "%s: error %v, inside the CA's validity: %v", in, err, valid)
				}
				if err != nil {
					if ca.SerialNumber != serial {
						h.Fail("serial-consumed", "%s: refused, but the serial number went from %d to %d", in, serial, ca.SerialNumber)
					}
					continue
				}
				if req.SerialNumber() <= last {
					h.Fail("serial", "%s: serial number %d after %d", in, req.SerialNumber(), last)
				}
				last, serial = req.SerialNumber(), ca.SerialNumber
				want := common.NewPolicyCertificateSigningRequest(version, req.SerialNumberField, dom, f, to, ci, co, pub, common.RSA, common.SHA256, req.TimeStamp, a, sig, oh)
				if !reflect.DeepEqual(want, req) {
					h.Fail("fields", "%s: got %+v, want %+v", in, req, want)
				}
				if req.TimeStamp.Before(t0.Add(-time.Second)) || req.TimeStamp.After(time.Now().Add(time.Second)) {
					h.Fail("fields", "%s: time stamp %v is not now", in, req.TimeStamp)
				}
				q := *want
				q.OwnerSignature = nil
				b, _ := common.ToJSON(common.NewPolicyCertificateFromRequest(&q))
				if !bytes.Equal(b, signed) {
					h.Fail("to-be-signed", "%s: the owner was given %s to sign, want %s", in, signed, b)
				}
			}
			// Owners.
			owner := common.NewPolicyCertificate(1, 7, "own.com", nb, na, true, true, ders[1], common.RSA, common.SHA256, nb, attrs(h), nil, nil, nil, nil, nil)
			oh, _ := fcrypto.ComputeHashAsSigner(owner)
			known := r.Intn(2) == 0
			if known {
				ca.DB[[32]byte(oh)] = owner
			}
			req, err := ca.NewPolicyCertificateSigningRequest(1, "a.own.com", nb.Add(time.Hour), na, false, true, ders[2], common.RSA, common.SHA256, attrs(h),
				func(b []byte) []byte {
					d := sha256.Sum256(b)
					s, _ := rsa.SignPKCS1v15(rand.Reader, keys[1], crypto.SHA256, d[:])
					return s
				}, oh)
			if err != nil {
				h.Fail("validity", "%v", err)
				continue
			}
			kind := []string{"honest", "altered domain", "altered signature", "unsigned", "short hash", "other owner", "altered key"}[r.Intn(7)]
			bad := true
			switch kind {
			case "honest":
				bad = false
			case "altered domain":
				req.DomainField = "b.own.com"
			case "altered signature":
				req.OwnerSignature[3] ^= 1
			case "unsigned":
				req.OwnerSignature = nil
			case "short hash":
				req.OwnerHash = req.OwnerHash[:31]
			case "other owner":
				req.OwnerHash = h.Bytes(32)
			case "altered key":
				req.PublicKey = ders[0]
			}
			in := fmt.Sprintf("%s request, owner stored %v, %d log servers", kind, known, len(ca.CtLogServers))
			h.Case(fmt.Sprint(n, in))
			approved := !bad && known
			wantErr := kind == "short hash" || (known && bad && kind != "unsigned" && kind != "other owner")
			if skip != nil {
				ok, err := skip(ca, req)
				if ok != approved {
					h.Fail("approval", "%s: owner-approved %v, want %v (error %v)", in, ok, approved, err)
				}
				if (err != nil) != wantErr {
					h.Fail("approval", "%s: error %v, want one: %v", in, err, wantErr)
				}
			}
			if len(ca.CtLogServers) > 0 && r.Intn(4) == 0 {
				for _, s := range ca.CtLogServers {
					l.failURL = s.URL
					break
				}
			}
			stored := len(ca.DB)
			var pc *common.PolicyCertificate
			if !h.Try("issue", func() string { return in }, func() { pc, err = ca.SignAndLogRequest(req) }) {
				continue
			}
			if wantErr || l.failURL != "" {
				if err == nil || pc != nil {
					h.Fail("issue", "%s (failing log %q): issued %v, error %v", in, l.failURL, pc, err)
				}
				if len(ca.DB) != stored {
					h.Fail("issue", "%s: a certificate not issued was stored", in)
				}
				continue
			}
			if err != nil {
				h.Fail("issue", "%s: %v", in, err)
				continue
			}
			if len(pc.SPCTs) != len(ca.CtLogServers) {
				h.Fail("timestamps", "%s: %d timestamps", in, len(pc.SPCTs))
			}
			seen := map[string]bool{}
			for _, s := range pc.SPCTs {
				seen[string(s.LogID)] = true
			}
			for _, s := range ca.CtLogServers {
				if !seen[s.URL] || l.asked[s.URL] != 1 || l.final[s.URL] != 1 {
					h.Fail("timestamps", "%s: log server %s: timestamp %v, asked %d times, sent %d times", in, s.URL, seen[s.URL], l.asked[s.URL], l.final[s.URL])
				}
			}
			if err := fcrypto.VerifyIssuerSignature(root, pc); err != nil {
				h.Fail("issue", "%s: the issued certificate does not verify: %v", in, err)
			}
			got := *pc
			got.SPCTs, got.IssuerSignature, got.IssuerHash = nil, nil, nil
			if !reflect.DeepEqual(&got, common.NewPolicyCertificateFromRequest(req)) {
				h.Fail("issue", "%s: the certificate does not carry the fields of the request", in)
			}
		}
	})
	_ = strings.TrimSpace
}

// skip is canSkipCoolOffPeriod, if the harness has access to it.
var skip func(*pca.PCA, *common.PolicyCertificateSigningRequest) (bool, error)
