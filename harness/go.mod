module github.com/chemikadze/asn1go/verifharness

go 1.24

require github.com/chemikadze/asn1go v0.0.0

replace github.com/chemikadze/asn1go => /repo
