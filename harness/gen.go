package main

// Deviation-bounded derivation of modules: a derivation makes the default
// choice everywhere except in at most dev places; the explorer enumerates all
// such derivations.

import "fmt"

type gen struct {
	c     *Ctl
	dev   int
	toks  []string
	depth int // remaining nesting depth
	marks []int
	nid   int
}

func (g *gen) e(xs ...string) { g.toks = append(g.toks, xs...) }

// alt is a choice whose non-default alternatives cost one deviation.
func (g *gen) alt(n int) int {
	if g.dev <= 0 || n <= 1 {
		return 0
	}
	k := g.c.Choose(n)
	if k > 0 {
		g.dev--
	}
	return k
}

// list emits between 1 and max items, each further one costs a deviation.
func (g *gen) list(max int, sep string, item func(i int)) {
	for i := 0; ; i++ {
		item(i)
		if i+1 >= max || g.alt(2) == 0 {
			return
		}
		if sep != "" {
			g.e(sep)
		}
	}
}

var lowerNames = []string{"a", "b-c", "x9", "eE", "integer", "sEQUENCE", "end-of"}
var upperNames = []string{"T", "Ab-C", "END-Game", "SEQUENCEOF", "Integer", "X2", "SET-", "E"}

func (g *gen) lower(i int) {
	k := g.alt(len(lowerNames))
	if k == 0 {
		g.e([]string{"a", "b", "c", "d", "f", "g"}[i%6])
		return
	}
	g.e(lowerNames[k])
}

func (g *gen) upper(i int) {
	names := []string{"", "Ab-C", "END-Game", "SEQUENCEOF", "Integer", "X2", "E"}
	k := g.alt(len(names))
	if k == 0 {
		g.e([]string{"T", "U", "V", "W", "X", "Y"}[i%6])
		return
	}
	g.e(names[k])
}

func (g *gen) module(maxAssign int) {
	g.upper(0)
	switch g.alt(4) {
	case 1:
		g.e("{")
		g.list(3, "", func(i int) {
			switch g.alt(3) {
			case 0:
				g.lower(i)
			case 1:
				g.e(fmt.Sprint(i + 3))
			case 2:
				g.lower(i)
				g.e("(", fmt.Sprint(i+5), ")")
			}
		})
		g.e("}")
	case 2:
		g.e("{", "1", "2", "3", "}")
	case 3:
		g.e("{", "iso", "org", "(", "3", ")", "dod", "(", "6", ")", "7", "}")
	}
	g.e("DEFINITIONS")
	switch g.alt(4) {
	case 1:
		g.e("IMPLICIT", "TAGS")
	case 2:
		g.e("AUTOMATIC", "TAGS")
	case 3:
		g.e("EXPLICIT", "TAGS")
	}
	if g.alt(2) == 1 {
		g.e("EXTENSIBILITY", "IMPLIED")
	}
	g.e("::=", "BEGIN")
	if g.alt(2) == 1 {
		g.e("END")
		return
	}
	switch g.alt(4) {
	case 1:
		g.e("EXPORTS", ";")
	case 2:
		g.e("EXPORTS", "ALL", ";")
	case 3:
		g.e("EXPORTS")
		g.symbols()
		g.e(";")
	}
	if k := g.alt(4); k > 0 {
		g.e("IMPORTS")
		for i := 1; i < k; i++ {
			g.symbols()
			g.e("FROM")
			g.upper(2 + i)
			switch g.alt(4) {
			case 1:
				g.e("{")
				g.oid()
				g.e("}")
			case 2:
				g.lower(5)
			case 3:
				g.upper(5)
				g.e(".")
				g.lower(4)
			}
		}
		g.e(";")
	}
	g.list(maxAssign, "", func(i int) {
		if g.alt(2) == 0 {
			g.upper(i)
			g.e("::=")
			g.typ()
		} else {
			g.lower(i)
			g.typ()
			g.e("::=")
			g.value()
		}
	})
	g.e("END")
}

func (g *gen) symbols() {
	g.list(3, ",", func(i int) {
		if g.alt(2) == 0 {
			g.upper(i + 1)
		} else {
			g.lower(i)
		}
	})
}

func (g *gen) oid() {
	g.list(4, "", func(i int) {
		switch g.alt(6) {
		case 0:
			g.e(fmt.Sprint(i + 1))
		case 1:
			g.lower(i)
		case 2:
			g.lower(i)
			g.e("(", fmt.Sprint(i+7), ")")
		case 3:
			g.upper(i)
			g.e(".")
			g.lower(i)
		case 4:
			g.lower(i)
			g.e("(")
			g.lower(i + 1)
			g.e(")")
		case 5:
			g.lower(i)
			g.e("(")
			g.upper(i)
			g.e(".")
			g.lower(i + 1)
			g.e(")")
		}
	})
}

func (g *gen) value() {
	switch g.alt(13) {
	case 0:
		g.e("1")
	case 1:
		g.e("-", "2")
	case 2:
		g.e("TRUE")
	case 3:
		g.e("FALSE")
	case 4:
		g.e("2.5")
	case 5:
		g.e("-", "0.05")
	case 6:
		g.e("3e-2")
	case 7:
		g.e("10.010e2")
	case 8:
		g.e("PLUS-INFINITY")
	case 9:
		g.e("MINUS-INFINITY")
	case 10:
		g.lower(3)
	case 11:
		g.e("{")
		g.oid()
		g.e("}")
	case 12:
		g.e("9223372036854775807")
	}
}

var plainTypes = []string{"INTEGER", "BOOLEAN", "NULL", "REAL", "GeneralizedTime", "UTCTime", "OCTET STRING", "CHARACTER STRING", "OBJECT IDENTIFIER", "ANY",
	"BMPString", "GeneralString", "GraphicString", "IA5String", "ISO646String", "NumericString", "PrintableString", "TeletexString", "T61String",
	"UniversalString", "UTF8String", "VideotexString", "VisibleString", "BIT STRING"}

func words(s string) []string {
	var out []string
	w := ""
	for _, r := range s + " " {
		if r == ' ' {
			if w != "" {
				out = append(out, w)
			}
			w = ""
			continue
		}
		w += string(r)
	}
	return out
}

func (g *gen) typ() {
	np := len(plainTypes)
	structured := 18
	if g.depth <= 0 {
		structured = 4
	}
	g.depth--
	defer func() { g.depth++ }()
	k := g.alt(np + structured)
	switch {
	case k < np:
		g.e(words(plainTypes[k])...)
	case k == np: // reference
		g.upper(4)
	case k == np+1:
		g.e("INTEGER", "{")
		g.list(3, ",", func(i int) { g.lower(i); g.nnum(i) })
		g.e("}")
	case k == np+2:
		g.e("ENUMERATED", "{")
		g.list(3, ",", func(i int) {
			g.lower(i)
			if g.alt(2) == 1 {
				g.nnum(i)
			}
		})
		g.e("}")
	case k == np+3:
		g.e("BIT", "STRING", "{")
		g.list(3, ",", func(i int) {
			g.lower(i)
			g.e("(")
			switch g.alt(3) {
			case 0:
				g.e(fmt.Sprint(i))
			case 1:
				g.lower(i + 2)
			case 2:
				g.upper(i)
				g.e(".")
				g.lower(i + 2)
			}
			g.e(")")
		})
		g.e("}")
	case k == np+4, k == np+5:
		g.e([]string{"SEQUENCE", "SET"}[k-np-4])
		g.structBody()
	case k == np+6:
		g.e("CHOICE")
		g.choiceBody()
	case k == np+7, k == np+8, k == np+9, k == np+10:
		// SEQUENCE OF / SET OF, named or not
		g.e([]string{"SEQUENCE", "SET"}[(k-np-7)&1])
		switch g.alt(3) {
		case 1:
			g.e("SIZE")
			g.constraint()
		case 2:
			g.constraint()
		}
		g.e("OF")
		if k >= np+9 {
			g.lower(1)
		}
		g.typ()
	case k == np+11, k == np+12, k == np+13:
		g.e("[")
		switch g.alt(4) {
		case 1:
			g.e("UNIVERSAL")
		case 2:
			g.e("APPLICATION")
		case 3:
			g.e("PRIVATE")
		}
		switch g.alt(4) {
		case 0:
			g.e("5")
		case 1:
			g.e("0")
		case 2:
			g.lower(4)
		case 3:
			g.upper(3)
			g.e(".")
			g.lower(4)
		}
		g.e("]")
		if k == np+12 {
			g.e("IMPLICIT")
		} else if k == np+13 {
			g.e("EXPLICIT")
		}
		g.typ()
		return // constraints belong to the inner type
	case k == np+14:
		g.e("ANY", "DEFINED", "BY")
		g.lower(1)
	case k == np+15: // constrained
		g.typ()
		g.constraint()
		return
	case k == np+16: // two constraints
		g.typ()
		g.constraint()
		g.constraint()
		return
	case k == np+17:
		g.e("SEQUENCE", "{", "a", "INTEGER", "DEFAULT", "1", ",", "b", "BOOLEAN", "DEFAULT", "TRUE", ",", "c", "REAL", "DEFAULT", "2.5", "}")
	}
}

func (g *gen) nnum(i int) {
	g.e("(")
	switch g.alt(4) {
	case 0:
		g.e(fmt.Sprint(i + 2))
	case 1:
		g.e("-", fmt.Sprint(i+3))
	case 2:
		g.lower(i + 1)
	case 3:
		g.upper(i)
		g.e(".")
		g.lower(i + 1)
	}
	g.e(")")
}

func (g *gen) component(i int) {
	if g.alt(2) == 1 {
		g.e("COMPONENTS", "OF")
		g.typ()
		return
	}
	g.lower(i)
	g.typ()
	switch g.alt(3) {
	case 1:
		g.e("OPTIONAL")
	case 2:
		g.e("DEFAULT")
		g.value()
	}
}

func (g *gen) exception() {
	switch g.alt(7) {
	case 1:
		g.e("!", "1")
	case 2:
		g.e("!", "-", "1")
	case 3:
		g.e("!")
		g.lower(1)
	case 4:
		g.e("!")
		g.upper(1)
		g.e(".")
		g.lower(1)
	case 5:
		g.e("!")
		g.typ()
		g.e(":")
		g.value()
	case 6:
		g.e("!")
		g.upper(1)
		g.e(":")
		g.value()
	}
}

func (g *gen) structBody() {
	g.e("{")
	defer g.e("}")
	switch g.alt(9) {
	case 1:
		return
	case 2:
		g.e("...")
		g.exception()
		return
	case 3:
		g.e("...")
		g.exception()
		g.e(",", "...")
		return
	case 0:
		g.list(4, ",", g.component)
	case 4:
		g.list(2, ",", g.component)
		g.e(",", "...")
		g.exception()
	case 5:
		g.list(2, ",", g.component)
		g.e(",", "...")
		g.exception()
		g.e(",")
		g.list(3, ",", func(i int) { g.component(i + 2) })
	case 6:
		g.list(2, ",", g.component)
		g.e(",", "...")
		g.exception()
		g.e(",")
		g.list(3, ",", func(i int) { g.component(i + 2) })
		g.e(",", "...")
	case 7:
		g.list(2, ",", g.component)
		g.e(",", "...")
		g.exception()
		g.e(",", "...", ",")
		g.list(3, ",", func(i int) { g.component(i + 2) })
	case 8:
		g.list(2, ",", g.component)
		g.e(",", "...")
		g.exception()
		g.e(",")
		g.list(2, ",", func(i int) { g.component(i + 2) })
		g.e(",", "...", ",")
		g.list(2, ",", func(i int) { g.component(i + 4) })
	}
}

func (g *gen) choiceBody() {
	g.e("{")
	defer g.e("}")
	item := func(i int) { g.lower(i); g.typ() }
	switch g.alt(7) {
	case 0:
		g.list(4, ",", item)
	case 1:
		g.list(3, ",", item)
		g.e(",", "...")
		g.exception()
	case 2:
		g.list(3, ",", item)
		g.e(",", "...")
		g.exception()
		g.e(",")
		g.list(3, ",", func(i int) { item(i + 3) })
	case 3:
		g.list(3, ",", item)
		g.e(",", "...")
		g.exception()
		g.e(",")
		g.list(3, ",", func(i int) { item(i + 3) })
		g.e(",", "...")
	case 4:
		g.e("...")
		g.exception()
	case 5:
		g.e("...")
		g.exception()
		g.e(",")
		g.list(3, ",", item)
	case 6:
		g.list(3, ",", item)
		g.e(",", "...")
		g.exception()
		g.e(",", "...")
	}
}

func (g *gen) constraint() {
	g.e("(")
	g.elementSet()
	switch g.alt(3) {
	case 1:
		g.e(",", "...")
	case 2:
		g.e(",", "...", ",")
		g.elementSet()
	}
	g.exception()
	g.e(")")
}

func (g *gen) elementSet() {
	if g.alt(2) == 1 {
		g.e("ALL", "EXCEPT")
		g.element()
		return
	}
	g.element()
	for i := 0; i < 4; i++ {
		k := g.alt(6)
		if k == 0 {
			return
		}
		g.e([]string{"", "|", "^", "EXCEPT", "UNION", "INTERSECTION"}[k])
		g.element()
		if k == 3 {
			// EXCEPT takes one element; only | or ^ may follow
			k = g.alt(3)
			if k == 0 {
				return
			}
			g.e([]string{"", "|", "^"}[k])
			g.element()
		}
	}
}

func (g *gen) element() {
	g.depth--
	defer func() { g.depth++ }()
	n := 13
	if g.depth < -2 {
		n = 4
	}
	switch g.alt(n) {
	case 0:
		g.e("1")
	case 1:
		g.e("0", "..", "9")
	case 2:
		g.e("MIN", "<", "..", "<", "MAX")
	case 3:
		g.value()
	case 4:
		g.value()
		if g.alt(2) == 1 {
			g.e("<")
		}
		g.e("..")
		if g.alt(2) == 1 {
			g.e("<")
		}
		g.value()
	case 5:
		g.e("(")
		g.elementSet()
		g.e(")")
	case 6:
		g.e("SIZE")
		g.constraint()
	case 7:
		g.typ0()
	case 8:
		g.e("WITH", "COMPONENT")
		g.constraint()
	case 9:
		g.e("WITH", "COMPONENTS", "{")
		if g.alt(2) == 1 {
			g.e("...", ",")
		}
		g.list(3, ",", func(i int) {
			g.lower(i)
			if g.alt(2) == 1 {
				g.constraint()
			}
			switch g.alt(4) {
			case 1:
				g.e("PRESENT")
			case 2:
				g.e("ABSENT")
			case 3:
				g.e("OPTIONAL")
			}
		})
		g.e("}")
	case 10:
		g.e("MIN", "..", "5")
	case 11:
		g.e("5", "..", "MAX")
	case 12:
		g.upper(2)
	}
}

// typ0 is a type that can be told from a value by its first item.
func (g *gen) typ0() { g.typ() }
