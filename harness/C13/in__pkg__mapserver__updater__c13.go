package updater

import "github.com/netsec-ethz/fpki/pkg/db"

// VerifDomainEntriesToSMTInput gives the harness access to domainEntriesToSMTInput.
func VerifDomainEntriesToSMTInput(e []db.DomainEntryRecord) ([][]byte, [][]byte, error) {
	return domainEntriesToSMTInput(e)
}
