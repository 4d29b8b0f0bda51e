package c27

import "github.com/netsec-ethz/fpki/pkg/pca"

func init() { skip = pca.VerifSkip }
