module github.com/netsec-ethz/fpki

go 1.24
