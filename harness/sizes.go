package main

import (
	"fmt"
	"strings"

	a "github.com/chemikadze/asn1go"
)

// Sizes: every construct that can be repeated or nested, in many sizes, with one item that differs from the others at its beginning, middle or end.

// sizesTo are 1..n, and the numbers around powers of two and of ten up to max.
func sizesTo(n, max int) []int {
	seen := map[int]bool{}
	var out []int
	add := func(k int) {
		if k > 0 && k <= max && !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	for i := 1; i <= n; i++ {
		add(i)
	}
	for _, b := range []int{50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000} {
		add(b - 1)
		add(b)
		add(b + 1)
	}
	return out
}

var sizeComps = []string{"INTEGER", "BOOLEAN OPTIONAL", "[%d] IA5String", "OCTET STRING", "REAL", "SEQUENCE OF INTEGER", "INTEGER DEFAULT %d", "Def"}

var sizeSpecials = []string{"BOOLEAN DEFAULT TRUE", "[3] EXPLICIT INTEGER OPTIONAL", "SET OF Sdef", "GeneralizedTime", "BIT STRING { x(0) }", "CHOICE { a INTEGER , b [0] NULL }", "SET { a Def }", "INTEGER { a(1) } (0..5)", "NULL", "[vv] INTEGER", "Undef"}

var sizeAlts = []string{"[5] BOOLEAN", "Tg", "Undef", "NULL", "SEQUENCE { a [1] INTEGER }", "CHOICE { x [0] INTEGER }", "BOOLEAN (1)"}

type sizeForm struct {
	name     string
	specials []string
	text     func(n, at int, special string) string
	max      int
}

// list joins n items; the one at the given place is the special one.
func list(n, at int, sep string, item func(i int, special bool) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(item(i, i == at))
	}
	return b.String()
}

func comp(special string) func(i int, is bool) string {
	return func(i int, is bool) string {
		if is {
			return fmt.Sprintf("c%d %s", i, special)
		}
		return fmt.Sprintf("c%d %s", i, strings.ReplaceAll(sizeComps[i%len(sizeComps)], "%d", fmt.Sprint(i)))
	}
}

const sizeDefs = " Def ::= SEQUENCE { a INTEGER } Sdef ::= SET { a BOOLEAN } Tg ::= [7] INTEGER "

func alt(special string) func(i int, is bool) string {
	return func(i int, is bool) string {
		if is {
			return fmt.Sprintf("c%d %s", i, special)
		}
		return fmt.Sprintf("c%d %s", i, []string{"INTEGER", "BOOLEAN", "Def", "NULL"}[i%4])
	}
}

var sizeForms = []sizeForm{
	{"components", sizeSpecials, func(n, at int, s string) string {
		return "T ::= SEQUENCE { " + list(n, at, " , ", comp(s)) + " }" + sizeDefs
	}, 2049},
	{"set components", sizeSpecials, func(n, at int, s string) string {
		return "T ::= SET { " + list(n, at, " , ", comp(s)) + " }" + sizeDefs
	}, 513},
	{"additions", sizeSpecials, func(n, at int, s string) string {
		return "T ::= SEQUENCE { z REAL , ... , " + list(n, at, " , ", comp(s)) + " }" + sizeDefs
	}, 513},
	{"trailing", sizeSpecials, func(n, at int, s string) string {
		return "T ::= SEQUENCE OF SET { z REAL , ... , y REAL , ... , " + list(n, at, " , ", comp(s)) + " }" + sizeDefs
	}, 257},
	{"alternatives", sizeAlts, func(n, at int, s string) string {
		return "T ::= CHOICE { " + list(n, at, " , ", alt(s)) + " }" + sizeDefs
	}, 2049},
	{"alternatives of a component", sizeAlts, func(n, at int, s string) string {
		return "T ::= SEQUENCE { f CHOICE { " + list(n, at, " , ", alt(s)) + " } OPTIONAL , g SET OF CHOICE { " + list(n, at, " , ", alt(s)) + " , ... } }" + sizeDefs
	}, 513},
	{"further alternatives", sizeAlts, func(n, at int, s string) string {
		return "T ::= CHOICE { z BOOLEAN , y Def , ... , " + list(n, at, " , ", alt(s)) + " }" + sizeDefs
	}, 257},
	{"types before use", sizeSpecials[2:], func(n, at int, s string) string {
		return list(n, at, " ", func(i int, is bool) string {
			if is {
				return fmt.Sprintf("T%d ::= %s", i, s)
			}
			return fmt.Sprintf("T%d ::= %s", i, []string{"INTEGER", "SEQUENCE { a BOOLEAN }", "SET OF REAL", "[2] OCTET STRING"}[i%4])
		}) + fmt.Sprintf(" User ::= SEQUENCE { a T%d , b SET OF T%d } Alias ::= T%d", at, at, at) + sizeDefs
	}, 2049},
	{"types after use", sizeSpecials[2:], func(n, at int, s string) string {
		return fmt.Sprintf("User ::= SEQUENCE { a T%d , b SET OF T%d } Alias ::= T%d", at, at, at) + sizeDefs + list(n, at, " ", func(i int, is bool) string {
			if is {
				return fmt.Sprintf("T%d ::= %s", i, s)
			}
			return fmt.Sprintf("T%d ::= T%d", i, at)
		})
	}, 1025},
	{"references", []string{"SET { a INTEGER }", "SEQUENCE { a INTEGER }", "GeneralizedTime", "[1] CHOICE { a INTEGER , b [0] NULL }", "SET OF BOOLEAN", "INTEGER", "Undef", "NULL"}, func(n, at int, s string) string {
		return "User ::= SEQUENCE { " + list(n, at, " , ", func(i int, is bool) string {
			if is {
				return fmt.Sprintf("c%d [%d] Ref (1) OPTIONAL", i, i)
			}
			return fmt.Sprintf("c%d Ref", i)
		}) + " } Ref ::= " + s
	}, 513},
	{"forward chain", []string{"SET { a INTEGER }", "INTEGER { a(1) }", "CHOICE { a [0] NULL }", "SET OF Def", "UTCTime", "Undef", "NULL"}, func(n, at int, s string) string {
		return list(n, at, " ", func(i int, is bool) string {
			if is {
				return fmt.Sprintf("T%d ::= [3] T%d (1)", i, i+1)
			}
			return fmt.Sprintf("T%d ::= T%d", i, i+1)
		}) + fmt.Sprintf(" T%d ::= %s", n, s) + sizeDefs
	}, 129},
	{"backward chain", []string{"SET { a INTEGER }", "INTEGER { a(1) }", "CHOICE { a [0] NULL }", "SET OF Def", "UTCTime", "Undef", "NULL"}, func(n, at int, s string) string {
		return fmt.Sprintf("T0 ::= %s", s) + sizeDefs + list(n, at, " ", func(i int, is bool) string {
			if is {
				return fmt.Sprintf("T%d ::= [3] T%d (1)", i+1, i)
			}
			return fmt.Sprintf("T%d ::= T%d", i+1, i)
		})
	}, 129},
	{"values", []string{"REAL ::= 1.5", "BOOLEAN ::= TRUE", "INTEGER ::= -7", "Def ::= 5", "OBJECT IDENTIFIER ::= { a 1 }", "Undef ::= 4"}, func(n, at int, s string) string {
		return list(n, at, " ", func(i int, is bool) string {
			if is {
				return fmt.Sprintf("v%d %s", i, s)
			}
			return fmt.Sprintf("v%d %s", i, []string{fmt.Sprintf("INTEGER ::= %d", i), "BOOLEAN ::= FALSE", fmt.Sprintf("REAL ::= %d.25", i)}[i%3])
		}) + " Def ::= INTEGER"
	}, 2049},
	{"named numbers", []string{"(-7)", "(vv)", "(undef)", "(Mm.vv)"}, func(n, at int, s string) string {
		return "T ::= [2] INTEGER { " + list(n, at, " , ", func(i int, is bool) string {
			if is {
				return fmt.Sprintf("n%d%s", i, s)
			}
			return fmt.Sprintf("n%d(%d)", i, 3*i)
		}) + " } vv INTEGER ::= 41"
	}, 2049},
	{"values behind values", []string{"INTEGER ::= 41", "INTEGER ::= -1", "BOOLEAN ::= TRUE"}, func(n, at int, s string) string {
		return fmt.Sprintf("T ::= INTEGER { a(1) , b(v%d) , c(-3) } ", at) + list(n, at, " ", func(i int, is bool) string {
			if is {
				return fmt.Sprintf("v%d %s", i, s)
			}
			return fmt.Sprintf("v%d INTEGER ::= %d", i, i+100)
		})
	}, 1025},
	{"names of bits and enumerations", []string{"(0)", "(70)", "(vv)"}, func(n, at int, s string) string {
		items := list(n, at, " , ", func(i int, is bool) string {
			if is {
				return fmt.Sprintf("n%d%s", i, s)
			}
			return fmt.Sprintf("n%d(%d)", i, i)
		})
		return "T ::= SEQUENCE { a ENUMERATED { " + items + " } , b BIT STRING { " + items + " } , c INTEGER { " + items + " } } vv INTEGER ::= 3"
	}, 513},
	{"nested sequences", sizeSpecials, func(n, at int, s string) string {
		var b strings.Builder
		b.WriteString("T ::= ")
		for i := 0; i < n; i++ {
			b.WriteString([]string{"SEQUENCE { ", "SET { ", "SEQUENCE OF SEQUENCE { z INTEGER , "}[i%3])
			if i == at {
				b.WriteString("s " + s + " , ")
			}
			b.WriteString("n ")
		}
		return b.String() + "BOOLEAN" + strings.Repeat(" }", n) + sizeDefs
	}, 257},
	{"nested lists", []string{"SET OF", "SEQUENCE SIZE (1..2) OF", "SET (SIZE (1)) OF", "SEQUENCE OF x"}, func(n, at int, s string) string {
		return "T ::= " + list(n, at, " ", func(i int, is bool) string {
			if is {
				return s
			}
			return "SEQUENCE OF"
		}) + " Def" + sizeDefs
	}, 513},
	{"nested choices", []string{"[1] INTEGER", "NULL", "REAL"}, func(n, at int, s string) string {
		var b strings.Builder
		b.WriteString("T ::= SEQUENCE { f ")
		for i := 0; i < n; i++ {
			b.WriteString("CHOICE { ")
			if i == at {
				b.WriteString("s " + s + " , ")
			}
			b.WriteString("n ")
		}
		return b.String() + "BOOLEAN" + strings.Repeat(" }", n) + " }"
	}, 257},
	{"tags", []string{"[3] EXPLICIT", "[APPLICATION 4] IMPLICIT", "[vv]"}, func(n, at int, s string) string {
		tags := list(n, at, " ", func(i int, is bool) string {
			if is {
				return s
			}
			return fmt.Sprintf("[%d]", i)
		})
		return "T ::= SEQUENCE { f " + tags + " Sdef OPTIONAL } U ::= " + tags + " SET { a REAL }" + sizeDefs
	}, 257},
	{"constraints", []string{"(SIZE (1..2))", "(1 | 2 ^ 3)", "(MIN<..MAX)"}, func(n, at int, s string) string {
		cs := list(n, at, " ", func(i int, is bool) string {
			if is {
				return s
			}
			return fmt.Sprintf("(%d)", i)
		})
		us := list(n, at, " | ", func(i int, is bool) string {
			if is {
				return s
			}
			return fmt.Sprintf("%d..%d", i, i+1)
		})
		return "T ::= SET { f Sdef " + cs + " OPTIONAL , g INTEGER (" + us + ") } U ::= SET OF INTEGER " + cs + sizeDefs
	}, 513},
	{"imports", []string{"T%d , U%d FROM Mm%d { a 1 }", "v%d FROM Mm%d"}, func(n, at int, s string) string {
		return "IMPORTS " + list(n, at, " ", func(i int, is bool) string {
			if is {
				return strings.ReplaceAll(s, "%d", fmt.Sprint(i))
			}
			return fmt.Sprintf("T%d FROM M%d", i, i)
		}) + " ; T ::= SEQUENCE { a INTEGER , b UTCTime } v REAL ::= 1" + sizeDefs
	}, 513},
	{"imported symbols", []string{"v0", "Def"}, func(n, at int, s string) string {
		return "IMPORTS " + list(n, at, " , ", func(i int, is bool) string {
			if is {
				return s
			}
			return fmt.Sprintf("T%d", i)
		}) + " FROM Mm ; T ::= SEQUENCE { a INTEGER , b UTCTime } v REAL ::= 1" + sizeDefs
	}, 1025},
	{"object identifier", []string{"a(2)", "b", "Mm.c"}, func(n, at int, s string) string {
		return "o OBJECT IDENTIFIER ::= { " + list(n, at, " ", func(i int, is bool) string {
			if is {
				return s
			}
			return fmt.Sprint(i)
		}) + " } T ::= SEQUENCE { a OBJECT IDENTIFIER DEFAULT { a 1 } , b INTEGER }"
	}, 513},
}

// sizesSpace: quick runs take all special items only in small sizes.
func sizesSpace(j cgJudge, every, max int) *Space {
	sizes := sizesTo(every, max)
	return &Space{
		Name:  "sizes",
		Bound: fmt.Sprintf("%d constructs that can be repeated or nested x %d sizes (1 to %d, and around powers of two and ten up to %d, less for nesting) x one special item at the beginning, in the middle, at the end, x INTEGER representation (large sizes: beginning and end, three special items)", len(sizeForms), len(sizes), every, max),
		Run: func(c *Ctl) {
			n := sizes[c.Choose(len(sizes))]
			f := sizeForms[c.Choose(len(sizeForms))]
			if n > f.max {
				return
			}
			at := 0
			if n > 1 {
				at = []int{0, n - 1, n / 2}[c.Choose(min(n, map[bool]int{true: 2, false: 3}[n > every]))]
			}
			ns := len(f.specials)
			if n > every && ns > 3 {
				ns = 3
			}
			s := f.specials[(c.Choose(ns)+n)%len(f.specials)]
			k := cgConfig{mod: "M"}
			if n <= every && c.Bool() {
				k.p.IntegerRepr = a.IntegerReprBigInt
				k.desc = "big.Int "
			}
			text := k.module(f.text(n, at, s) + " ")
			c.Input(fmt.Sprintf("%s %d with %q at %d: %s%s", f.name, n, s, at, k.desc, clip(text, 300)))
			judgeGen(c, j, parseForGen(text), k.p, k.desc+clip(text, 2000))
		},
	}
}
