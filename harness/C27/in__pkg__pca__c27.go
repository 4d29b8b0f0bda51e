package pca

import "github.com/netsec-ethz/fpki/pkg/common"

// VerifSkip gives the harness access to canSkipCoolOffPeriod.
func VerifSkip(p *PCA, r *common.PolicyCertificateSigningRequest) (bool, error) {
	return p.canSkipCoolOffPeriod(r)
}
