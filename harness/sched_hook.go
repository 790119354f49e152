//go:build verifsched

package main

import a "github.com/chemikadze/asn1go"

func init() { setPoint = func(f func(int)) { a.VerifPoint = f } }
