package main

import (
	"fmt"
	"strings"

	a "github.com/chemikadze/asn1go"
)

// ---------------------------------------------------------------- names

var goWords = strings.Fields(`break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var
any append bool byte cap clear close comparable complex complex128 complex64 copy delete error false float32 float64 imag int int16 int32 int64 int8 iota len make max min new nil panic print println real recover rune string true uint uint16 uint32 uint64 uint8 uintptr
init main asn1 big math time fmt string-x raw-value bit-string object-identifier enumerated inf new-int val set
acl api ascii cpu css dn dns eof guid html http https id ids ip json lhs mac oid pdu pki qps ram rhs rpc sid sla smtp sql ssh ssl tcp tls ttl udp ui uid uri url utf8 uuid vm x509 xml xmpp xsrf xss crl ca csr ocsp cn ber der per asn
test version type-t type-1 types name value tag flag key list choice sequence sequence-of set-of options ext extension extensions reserved unknown none null optional`)

var nameAffixes = []string{"%s", "%s-x", "x-%s", "x%s", "%sX", "%s-1", "%s1", "x-%s-y", "%s-%s", "%s-10", "%s-test", "test-%s", "get-%s", "%s-t", "my%s", "is-%s", "%s-set", "%s-val", "%sSET", "%s-SET", "%sSETS", "%sVal"}

// shortNames are all names of up to n characters over a small alphabet.
func shortNames(n int) []string {
	var out []string
	var rec func(s string)
	rec = func(s string) {
		if s[len(s)-1] != '-' {
			out = append(out, s)
		}
		if len(s) == n {
			return
		}
		for _, r := range "abZ01-" {
			if r == '-' && s[len(s)-1] == '-' {
				continue
			}
			rec(s + string(r))
		}
	}
	rec("a")
	rec("z")
	return out
}

// upperFirst makes a type or module reference of a name.
func upperFirst(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

var nameUses = []struct{ name, text string }{
	{"type", "%T ::= SEQUENCE { f INTEGER } User ::= SEQUENCE { g %T , h SET OF %T } Alias ::= %T"},
	{"scalar type", "User ::= SEQUENCE { g %T , h SEQUENCE OF %T OPTIONAL } %T ::= BOOLEAN"},
	{"set type", "%T ::= SET { f INTEGER } User ::= SEQUENCE OF %T"},
	{"set of type", "%T ::= [1] SET OF INTEGER User ::= [2] %T"},
	{"time type", "%T ::= GeneralizedTime User ::= SEQUENCE { %t %T }"},
	{"component", "User ::= SEQUENCE { %t INTEGER , f BOOLEAN OPTIONAL }"},
	{"set component", "User ::= SET { f BOOLEAN , %t [1] REAL OPTIONAL }"},
	{"addition", "User ::= SEQUENCE { f BOOLEAN , ... , %t SEQUENCE { %t INTEGER DEFAULT 3 } }"},
	{"components", "User ::= SEQUENCE { %t BOOLEAN , %t-a INTEGER , a-%t REAL , %t2 ANY }"},
	{"value", "%t INTEGER ::= 5 Nn ::= INTEGER { one(%t) , two(2) }"},
	{"boolean value", "%t BOOLEAN ::= TRUE"},
	{"named number", "Nn ::= INTEGER { %t(1) , %t-a(-2) }"},
	{"owner of numbers", "%T ::= [1] INTEGER { one(1) , %t(2) }"},
	{"not generated", "A ::= SEQUENCE { e ENUMERATED { %t , f } , b BIT STRING { %t (0) } , c CHOICE { %t INTEGER , g [0] BOOLEAN } , d ANY DEFINED BY %t }"},
}

// allNames are the names of up to n characters, special words with affixes, and long names.
func allNames(n int) (names []string, short int) {
	names = shortNames(n)
	short = len(names)
	for _, w := range goWords {
		for _, f := range nameAffixes {
			names = append(names, strings.ReplaceAll(f, "%s", w))
		}
	}
	for l := 2; l < 40; l++ {
		names = append(names, strings.Repeat("n-", l)+"m")
	}
	for _, l := range []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000} {
		names = append(names, strings.Repeat("n", l), strings.Repeat("n-", l/2)+"m", "n"+strings.Repeat("9", l-1))
	}
	seen := map[string]bool{}
	k := 0
	for _, x := range names {
		if !seen[x] {
			seen[x] = true
			names[k] = x
			k++
		}
	}
	return names[:k], short
}

func namesSpace(j cgJudge, n int) *Space {
	names, words := allNames(n)
	return &Space{
		Name: "names",
		Bound: fmt.Sprintf("every name of up to %d characters over {a, b, Z, 0, 1, -} (%d), and every Go keyword, predeclared and other special word with every affix, and long ones (%d in all), in every one of %d uses and as module name, x INTEGER representation",
			n, words, len(names), len(nameUses)),
		Run: func(c *Ctl) {
			nm := names[c.Choose(len(names))]
			t := upperFirst(nm)
			if isReserved(t) {
				return
			}
			cfg := cgConfig{mod: "M"}
			u := c.Choose(len(nameUses) + 1)
			body := "A ::= SEQUENCE { f INTEGER } "
			if u == len(nameUses) {
				cfg.mod = t
			} else {
				body = strings.NewReplacer("%T", t, "%t", nm).Replace(nameUses[u].text) + " "
			}
			if c.Bool() {
				cfg.p.IntegerRepr = a.IntegerReprBigInt
				cfg.desc = "big.Int "
			}
			text := cfg.module(body)
			m := parseForGen(text)
			if !j.total && !distinctNames(m) {
				return
			}
			desc := cfg.desc + text
			c.Input(desc)
			judgeGen(c, j, m, cfg.p, desc)
		},
	}
}

func isReserved(w string) bool {
	for _, r := range reservedList {
		if r == w {
			return true
		}
	}
	return false
}

// distinctNames tells if all the names of a module stay distinct in Go.
func distinctNames(m *a.ModuleDefinition) bool {
	top := map[string]bool{}
	ok := true
	add := func(n string) {
		if top[n] {
			ok = false
		}
		top[n] = true
	}
	var fields func(t a.Type)
	fields = func(t a.Type) {
		var cs a.ComponentTypeList
		var xs a.ExtensionAdditions
		switch x := t.(type) {
		case a.SequenceType:
			cs, xs = x.Components, x.ExtensionAdditions
		case a.SetType:
			cs, xs = x.Components, x.ExtensionAdditions
		case a.TaggedType:
			fields(x.Type)
		case a.ConstraintedType:
			fields(x.Type)
		case a.SequenceOfType:
			fields(x.Type)
		case a.SetOfType:
			fields(x.Type)
		}
		seen := map[string]bool{}
		one := func(x interface{}) {
			if n, isNamed := x.(a.NamedComponentType); isNamed {
				g := goName(n.NamedType.Identifier.Name())
				if seen[g] {
					ok = false
				}
				seen[g] = true
				fields(n.NamedType.Type)
			}
		}
		for _, x := range cs {
			one(x)
		}
		for _, x := range xs {
			one(x)
		}
	}
	for _, as := range m.ModuleBody.AssignmentList {
		switch x := as.(type) {
		case a.TypeAssignment:
			n := goName(x.TypeReference.Name())
			add(n)
			t := x.Type
		unwrap:
			for {
				switch y := t.(type) {
				case a.TaggedType:
					t = y.Type
				case a.ConstraintedType:
					t = y.Type
				default:
					break unwrap
				}
			}
			switch y := t.(type) {
			case a.SetType, a.SetOfType:
				add(n + "SET")
			case a.IntegerType:
				for _, nn := range y.NamedNumberList {
					add(n + "Val" + goName(nn.Name.Name()))
				}
			}
			fields(x.Type)
		case a.ValueAssignment:
			add("Val" + goName(x.ValueReference.Name()))
		}
	}
	return ok
}

// ---------------------------------------------------------------- unsupported constructs around every type (C14)

var badForms = []struct{ name, text string }{
	{"named SEQUENCE OF element", "SEQUENCE OF x %s"},
	{"named SET OF element", "SET OF x %s"},
	{"named sized SEQUENCE OF element", "SEQUENCE SIZE (1..2) OF x %s"},
	{"named constrained SET OF element", "SET (SIZE (2)) OF x %s"},
	{"list of named lists", "SEQUENCE OF SET OF x %s"},
	{"unresolvable tag", "SEQUENCE { t [vv] %s }"},
	{"unresolvable inner tag", "SET { t [1] EXPLICIT [APPLICATION vv] IMPLICIT %s OPTIONAL }"},
	{"unresolvable tag of an addition", "SEQUENCE { a REAL , ... , t [Mm.vv] %s }"},
	{"COMPONENTS OF", "SEQUENCE { COMPONENTS OF %s , a REAL }"},
	{"COMPONENTS OF in a SET", "SET { a REAL , COMPONENTS OF %s }"},
	{"COMPONENTS OF addition", "SEQUENCE { a REAL , ... , COMPONENTS OF %s }"},
	{"COMPONENTS OF after additions", "SET { a REAL , ... , ... , COMPONENTS OF %s }"},
	{"NULL component", "SEQUENCE { a %s , b NULL }"},
	{"NULL addition", "SET { a %s , ... , b NULL OPTIONAL }"},
	{"undefined component", "SET { a %s , b [1] Undef }"},
	{"supported", "SEQUENCE { a %s , b [4] %s OPTIONAL }"},
	{"supported list", "SET OF %s"},
}

func badFormsSpace(j cgJudge, wrap int) *Space {
	inner := append([]string{}, cgPlain...)
	inner = append(inner, "NULL", "Undef", "CHOICE { a INTEGER , b BOOLEAN }", "CHOICE { a INTEGER }", "CHOICE { a [0] INTEGER , b NULL }", "CHOICE { a NULL }", "CHOICE { a INTEGER , ... }", "CHOICE { a SEQUENCE OF x INTEGER }",
		"SEQUENCE { }", "SET { }", "SEQUENCE { ... }", "SEQUENCE { k INTEGER }", "SET { k NULL }", "SEQUENCE OF INTEGER", "SET OF x INTEGER", "SEQUENCE OF SET OF NULL", "[3] INTEGER", "[vv] INTEGER", "[3] NULL", "INTEGER (1)", "NULL (1)", "SEQUENCE OF INTEGER (1)")
	return &Space{
		Name: "forms",
		Bound: fmt.Sprintf("each of %d constructs (2 of them supported) around each of %d types and %d references, under up to %d of %d wrappers, constrained or not, referenced definitions before or after, x INTEGER representation",
			len(badForms), len(inner), len(prelude), wrap, len(cgWrappers)),
		Run: func(c *Ctl) {
			g := &cg{c: c}
			k := cgConfig{mod: "M"}
			pre, post := "", ""
			for d := 0; d < wrap; d++ {
				x := c.Choose(len(cgWrappers) + 1)
				if x == 0 {
					break
				}
				pre += cgWrappers[x-1].pre
				post = cgWrappers[x-1].post + post
			}
			f := badForms[c.Choose(len(badForms))]
			x := c.Choose(len(inner) + len(prelude))
			t := ""
			if x < len(inner) {
				t = inner[x]
			} else {
				t = prelude[x-len(inner)].name
				g.use(t)
			}
			if c.Bool() {
				t += " (1)"
			}
			if c.Bool() {
				k.p.IntegerRepr = a.IntegerReprBigInt
				k.desc = "big.Int "
			}
			main := "T ::= " + pre + strings.ReplaceAll(f.text, "%s", t) + post + " "
			runCg(c, j, k, k.module(g.place(main)))
		},
	}
}

// ---------------------------------------------------------------- INTEGER representations

// reprNeighbours are the strings that differ from a known representation by case or by one edit, and names of other Go types.
func reprNeighbours() []string {
	out := strings.Fields("int int8 int16 int32 uint uint8 uint16 uint32 uint64 float64 string big *big.Int math/big.Int big.Float bigInt Int integer INTEGER default none int64,big.Int big.Int,int64 int64int64 BigInt bigint")
	for _, w := range []string{"int64", "big.Int"} {
		for mask := 0; mask < 1<<len(w); mask++ {
			b := []byte(w)
			for i := range b {
				if mask>>i&1 == 1 && (b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z') {
					b[i] ^= 0x20
				}
			}
			out = append(out, string(b))
		}
		for i := 0; i <= len(w); i++ {
			for ch := 0; ch < 256; ch++ {
				out = append(out, w[:i]+string([]byte{byte(ch)})+w[i:])
				if i < len(w) {
					out = append(out, w[:i]+string([]byte{byte(ch)})+w[i+1:])
				}
			}
			if i < len(w) {
				out = append(out, w[:i]+w[i+1:])
			}
		}
	}
	seen := map[string]bool{}
	k := 0
	for _, x := range out {
		if !seen[x] {
			seen[x] = true
			out[k] = x
			k++
		}
	}
	return out[:k]
}

func reprSpace(j cgJudge) *Space {
	reprs := append([]string{""}, reprNeighbours()...)
	bodies := []string{"T ::= INTEGER ", "T ::= SEQUENCE { a BOOLEAN , b [1] INTEGER OPTIONAL } ", "v INTEGER ::= 5 ", "T ::= INTEGER { a(1) , b(v) } v INTEGER ::= 1 ", "T ::= BOOLEAN v REAL ::= 1 ", "U ::= SET { b BOOLEAN , ... , a INTEGER (0..5) } "}
	return &Space{
		Name:  "representations",
		Bound: fmt.Sprintf("%d representations: the known ones, every change of case, every single edit with any byte, other Go types, each with %d modules", len(reprs), len(bodies)),
		Run: func(c *Ctl) {
			k := cgConfig{mod: "M"}
			k.p.IntegerRepr = a.IntegerRepr(reprs[c.Choose(len(reprs))])
			k.desc = fmt.Sprintf("%q ", string(k.p.IntegerRepr))
			runCg(c, j, k, k.module(bodies[c.Choose(len(bodies))]))
		},
	}
}
