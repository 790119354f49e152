package main

import (
	"fmt"
	"strings"

	a "github.com/chemikadze/asn1go"
)

// Types that are nearly the same, next to each other in one module: what is generated for one must not be taken for the other.

var twinTypes = []string{
	"SEQUENCE { a INTEGER }",
	"SEQUENCE { a INTEGER OPTIONAL }",
	"SEQUENCE { a INTEGER DEFAULT 5 }",
	"SEQUENCE { a INTEGER DEFAULT 6 }",
	"SEQUENCE { a [1] INTEGER }",
	"SEQUENCE { a [1] IMPLICIT INTEGER }",
	"SEQUENCE { a [1] EXPLICIT INTEGER }",
	"SEQUENCE { a [2] INTEGER }",
	"SEQUENCE { a [APPLICATION 1] INTEGER }",
	"SEQUENCE { a In }",
	"SEQUENCE { a INTEGER (1..5) }",
	"SEQUENCE { b INTEGER }",
	"SEQUENCE { a BOOLEAN }",
	"SEQUENCE { a INTEGER , ... }",
	"SEQUENCE { a INTEGER , ... , a-b INTEGER }",
	"SEQUENCE { a INTEGER , b BOOLEAN }",
	"SEQUENCE { a INTEGER , ... , b BOOLEAN }",
	"SEQUENCE { b BOOLEAN , a INTEGER }",
	"SEQUENCE { }",
	"SET { a INTEGER }",
	"SET { a [1] INTEGER OPTIONAL }",
	"SEQUENCE { a IA5String }",
	"SEQUENCE { a UTF8String }",
	"SEQUENCE { a NumericString }",
	"SEQUENCE { a GeneralizedTime }",
	"SEQUENCE { a UTCTime }",
	"SEQUENCE { a SEQUENCE { a INTEGER } }",
	"SEQUENCE { a SET { a INTEGER } }",
	"SEQUENCE { a SEQUENCE OF INTEGER }",
	"SEQUENCE { a SET OF INTEGER }",
	"SEQUENCE OF INTEGER",
	"SET OF INTEGER",
	"SEQUENCE OF SEQUENCE { a INTEGER }",
	"SET OF SET { a INTEGER }",
	"CHOICE { a INTEGER }",
	"CHOICE { a [1] INTEGER }",
	"CHOICE { a INTEGER , b BOOLEAN }",
	"CHOICE { a [0] INTEGER , b BOOLEAN }",
	"INTEGER",
	"INTEGER { one(1) }",
	"In",
	"BIT STRING",
	"BIT STRING { one(1) }",
	"OCTET STRING",
	"IA5String",
	"UTF8String",
	"GeneralizedTime",
	"UTCTime",
	"ENUMERATED { a , b }",
	"ENUMERATED { b , a }",
}

// twinContexts: where the two are; W is the type whose encoding is explored.
var twinContexts = []string{
	"A ::= X W ::= SEQUENCE { x [8] Y , z BOOLEAN }",
	"W ::= SEQUENCE { z A , x [8] Y } A ::= X",
	"W ::= SEQUENCE { x [8] X , y [9] Y }",
	"A ::= X B ::= Y W ::= SEQUENCE { x [8] A , y [9] B , z [10] A }",
	"A ::= SEQUENCE { c X } B ::= SEQUENCE { c Y } W ::= SEQUENCE { x A , y [9] B OPTIONAL }",
	"A ::= SEQUENCE { c [3] X OPTIONAL } W ::= SEQUENCE { c [3] Y OPTIONAL , d A }",
	"A ::= SEQUENCE OF X B ::= SEQUENCE OF Y W ::= SEQUENCE { x [8] A , y [9] B }",
	"A ::= SET { c [3] X } W ::= SEQUENCE { s SEQUENCE { c [3] Y } , t A }",
	"W ::= SEQUENCE { s SEQUENCE { x X } , t [1] SEQUENCE { x Y } , ... , u [2] SET { x X } }",
	"A ::= X B ::= A C ::= Y W ::= SEQUENCE { a [8] C , b [9] B , c [10] SEQUENCE OF A }",
	"A ::= CHOICE { x X } B ::= CHOICE { x Y } W ::= SEQUENCE { x [8] A , y [9] B }",
	"A ::= SET OF X W ::= SEQUENCE { a [8] X , y [9] SEQUENCE { a [8] Y } , z [10] SET OF Y }",
}

func twinText(c *Ctl, types []string, contexts int) (text string, same bool) {
	x, y := c.Choose(len(types)), c.Choose(len(types))
	text = strings.NewReplacer("X", types[x], "Y", types[y]).Replace(twinContexts[c.Choose(contexts)])
	if strings.Contains(text, "In") {
		text += " In ::= INTEGER"
	}
	return text, x == y
}

func twinsSpace(j cgJudge) *Space {
	return &Space{
		Name:  "twins",
		Bound: fmt.Sprintf("every ordered pair out of %d types that are nearly the same, in each of %d modules (as definitions, components, elements, alternatives, before and after each other), x INTEGER representation", len(twinTypes), len(twinContexts)),
		Run: func(c *Ctl) {
			k := cgConfig{mod: "M"}
			if c.Bool() {
				k.p.IntegerRepr = a.IntegerReprBigInt
				k.desc = "big.Int "
			}
			body, _ := twinText(c, twinTypes, len(twinContexts))
			runCg(c, j, k, k.module(body+" "))
		},
	}
}

// derTwinsSpace: their encodings.
func derTwinsSpace() *Space {
	var types []string
	for _, t := range twinTypes {
		if !strings.Contains(t, "CHOICE { a [") {
			types = append(types, t)
		}
	}
	return &Space{
		Name:  "twins",
		Bound: fmt.Sprintf("every ordered pair out of %d types that are nearly the same, in each of %d modules, x 3 tag defaults", len(types), len(twinContexts)),
		Run: func(c *Ctl) {
			tags := c.Pick("", "IMPLICIT TAGS ", "EXPLICIT TAGS ")
			body, _ := twinText(c, types, len(twinContexts))
			text := "M DEFINITIONS " + tags + "::= BEGIN " + body + " END"
			c.Input(text)
			judgeDER(c, parseForGen(text), a.GenParams{}, text, 3)
		},
	}
}
