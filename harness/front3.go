package main

import (
	"fmt"
	"strings"
)

// Edits of whole phrases: constructs of the notation where they do not belong, constructs of the full
// ASN.1 notation that the supported subset lacks, and spans of items deleted, doubled or exchanged.

var phrases = []string{
	"N DEFINITIONS ::= BEGIN END", "N DEFINITIONS ::= BEGIN B ::= NULL END", "END N DEFINITIONS ::= BEGIN", "BEGIN END",
	"DEFINITIONS ::= BEGIN", "IMPLICIT TAGS", "AUTOMATIC TAGS", "EXTENSIBILITY IMPLIED", "INSTRUCTIONS TAGS",
	"EXPORTS ;", "EXPORTS ALL ;", "EXPORTS A , b ;", "IMPORTS ;", "IMPORTS A FROM B ;", "IMPORTS A , b FROM B { 1 2 } ;", "A FROM B", "FROM B", "WITH SUCCESSORS",
	"B ::= NULL", "b INTEGER ::= 1", "B INTEGER ::= { 1 | 2 }", "B ::= CLASS { }", "B { T } ::= SEQUENCE { a T }", "b ::= 1", "B ::= 1", "b INTEGER ::= NULL", "::= INTEGER", "::= 1",
	"SEQUENCE { a NULL }", "SEQUENCE { }", "SET { ... }", "CHOICE { a NULL }", "CHOICE { }", "ENUMERATED { a }", "ENUMERATED { }", "INTEGER { a ( 1 ) }", "INTEGER { }", "BIT STRING", "BIT STRING { a ( 0 ) }", "BIT STRING { }", "OCTET STRING", "OBJECT IDENTIFIER", "CHARACTER STRING", "SEQUENCE OF T", "SEQUENCE SIZE ( 1 ) OF T", "SET OF a T", "ANY DEFINED BY a", "EMBEDDED PDV", "INSTANCE OF T", "a < T", "M . T", "M.T", "T { 1 }", "T . & id", "EXTERNAL", "RELATIVE-OID", "DATE", "TIME",
	"[ 1 ]", "[ 1 ] IMPLICIT", "[ UNIVERSAL 1 ] EXPLICIT", "[ APPLICATION a ]", "[ PRIVATE M.a ]", "[ ]", "[ T ]", "[ -1 ]", "[ 1 ] [ 2 ]", "[ 1 2 ]", "[ CONTEXT 1 ]", "IMPLICIT EXPLICIT",
	"( 1 )", "( 1 , ... )", "( 1 , ... , 2 )", "( ... )", "( )", "( 1 .. 2 )", "( 1 < .. < 2 )", "( MIN .. MAX )", "( .. )", "( 1 .. )", "( MAX .. MIN )", "( ALL EXCEPT 1 )", "( ALL )", "( SIZE ( 1 ) )", "( SIZE 1 )", "( INCLUDES T )", "( FROM ( 1 ) )", "( PATTERN 1 )", "( CONTAINING T )", "( ENCODED BY a )", "( CONSTRAINED BY { } )", "( WITH COMPONENT ( 1 ) )", "( WITH COMPONENTS { a } )", "( WITH COMPONENTS { ... , a } )", "( WITH COMPONENTS { } )", "( WITH COMPONENTS { ... } )", "( { T } )", "( 1 ! 2 )", "( 1 ! a )", "( 1 ! INTEGER : 3 )", "( 1 ! T )", "| 1", "1 |", "^ 1", "UNION INTERSECTION", "EXCEPT 1", "EXCEPT EXCEPT", "! 1", "SIZE ( 1 )",
	", ...", "... ,", ", ... ,", ", ... , ...", ", ... , ... , ...", ", ... ! 1", ", a NULL", "a NULL ,", ", a", ", ,", ", COMPONENTS OF T", "COMPONENTS OF a T", "COMPONENTS OF", "[[ a NULL ]]", "[[ 2 : a NULL ]]", ", [[ a NULL ]]", "[[ ]]", "[[ 2 : ]]", "OPTIONAL OPTIONAL", "OPTIONAL DEFAULT 1", "DEFAULT 1 OPTIONAL", "DEFAULT 1", "DEFAULT", "DEFAULT a", "DEFAULT { 1 }", "DEFAULT { a 1 }",
	"- 1", "- - 1", "+ 1", "1 . 5", "1. 5", "1 .5", "1.5.2", "1 e 5", "1.5e-3", "1.5e+3", "- a", "1 2", "1 a", "TRUE FALSE", "PLUS-INFINITY", "- PLUS-INFINITY", "NULL", "\"abc\"", "'01'B", "'AF'H", "{ 1 2 }", "{ a b }", "{ a ( 1 ) }", "{ }", "{ a 1 , b 2 }", "{ 1 , 2 }", "{ a : 1 }", "a : 1", "a : b", "{ M.a 1 }", "{ a ( b ) }", "{ 1 ( 2 ) }", "{ T }", "{ a ( -1 ) }", "{ mantissa 1 , base 2 , exponent 3 }", "M . a", "M.a.b", "a.b", "a . b", "M .",
	"; ;", "..", ".. ..", ". .", "... ...", "( (", ") )", "} }", "{ {", "[ [", "] ]", "@ a", "@ . a", "& id",
}

func phraseSpace(d derivation, dev, depth int, j judge) *Space {
	ph := make([][]string, len(phrases))
	for i, p := range phrases {
		ph[i] = words(p)
	}
	return &Space{
		Name:  "phrase-" + d.name,
		Bound: fmt.Sprintf("every derivation with at most %d non-default choices x every position x each of %d phrases, inserted, instead of the next item, instead of the bracketed or comma-delimited span that starts there", dev, len(phrases)),
		Run: func(c *Ctl) {
			ts := d.tokens(c, dev, depth)
			i := c.Choose(len(ts) + 1)
			ends := spanEnds(ts, i)
			e := ends[c.Choose(len(ends))]
			p := ph[c.Choose(len(ph))]
			out := append(append(append([]string{}, ts[:i]...), p...), ts[e:]...)
			text := strings.Join(out, " ")
			c.Input(text)
			judgeText(c, j, text)
		},
	}
}

// spanEnds lists where a span starting at i may end: nothing, one item, to the matching bracket, to the next delimiter.
func spanEnds(ts []string, i int) []int {
	ends := []int{i}
	add := func(e int) {
		if e > ends[len(ends)-1] && e <= len(ts) {
			ends = append(ends, e)
		}
	}
	add(i + 1)
	depth := 0
	for k := i; k < len(ts); k++ {
		switch ts[k] {
		case "{", "(", "[", "[[":
			depth++
		case "}", ")", "]", "]]":
			depth--
		}
		if depth < 0 || depth == 0 && (ts[k] == "," || ts[k] == "::=" || ts[k] == "END" || ts[k] == ";") {
			add(k)
			break
		}
		if depth == 0 && (ts[k] == "}" || ts[k] == ")" || ts[k] == "]" || ts[k] == "]]") {
			add(k + 1)
		}
	}
	return ends
}

// spanSpace: every span of items deleted, doubled, or moved to every other place.
func spanSpace(d derivation, dev, depth, max int, j judge) *Space {
	return &Space{
		Name:  "span-" + d.name,
		Bound: fmt.Sprintf("every derivation with at most %d non-default choices x every span of 2 to %d items deleted, doubled or moved to every other place", dev, max),
		Run: func(c *Ctl) {
			ts := d.tokens(c, dev, depth)
			if len(ts) < 2 {
				return
			}
			n := 2 + c.Choose(max-1)
			if n > len(ts) {
				return
			}
			i := c.Choose(len(ts) - n + 1)
			span := ts[i : i+n]
			rest := append(append([]string{}, ts[:i]...), ts[i+n:]...)
			var out []string
			switch k := c.Choose(2 + len(rest) + 1); k {
			case 0:
				out = rest
			case 1:
				out = append(append(append([]string{}, ts[:i+n]...), span...), ts[i+n:]...)
			default:
				at := k - 2
				out = append(append(append([]string{}, rest[:at]...), span...), rest[at:]...)
			}
			text := strings.Join(out, " ")
			c.Input(text)
			judgeText(c, j, text)
		},
	}
}
