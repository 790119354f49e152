package main

// Spaces of modules for code generation.

import (
	"fmt"
	"strings"

	a "github.com/chemikadze/asn1go"
)

type preludeDef struct{ name, text, deps string }

var prelude = []preludeDef{
	{"In", "In ::= INTEGER", ""},
	{"Bo", "Bo ::= BOOLEAN", ""},
	{"Re", "Re ::= REAL", ""},
	{"Se", "Se ::= SEQUENCE { a INTEGER , b BOOLEAN }", ""},
	{"St", "St ::= SET { a BOOLEAN , b REAL }", ""},
	{"So", "So ::= SEQUENCE OF INTEGER", ""},
	{"To", "To ::= SET OF INTEGER", ""},
	{"Ti", "Ti ::= GeneralizedTime", ""},
	{"Ut", "Ut ::= UTCTime", ""},
	{"Bi", "Bi ::= BIT STRING", ""},
	{"Ia", "Ia ::= IA5String", ""},
	{"Ch1", "Ch1 ::= CHOICE { a INTEGER }", ""},
	{"ChT", "ChT ::= CHOICE { a [0] INTEGER , b BOOLEAN }", ""},
	{"ChU", "ChU ::= CHOICE { a INTEGER , b BOOLEAN }", ""},
	{"En", "En ::= ENUMERATED { a , b }", ""},
	{"Oi", "Oi ::= OBJECT IDENTIFIER", ""},
	{"Os", "Os ::= OCTET STRING", ""},
	{"An", "An ::= ANY", ""},
	{"Tg", "Tg ::= [3] INTEGER", ""},
	{"Inn", "Inn ::= INTEGER { one-x(1) }", ""},
	{"Rb", "Rb ::= [1] Bi", "Bi"},
	{"Rr", "Rr ::= Rb", "Rb"},
	{"Rc", "Rc ::= In (1..5)", "In"},
	{"Rse", "Rse ::= Se", "Se"},
	{"Rst", "Rst ::= St", "St"},
	{"Rto", "Rto ::= [4] To", "To"},
	{"Rti", "Rti ::= [2] Ti", "Ti"},
	{"Rut", "Rut ::= Ut", "Ut"},
	{"Rtg", "Rtg ::= Tg (1)", "Tg"},
	{"Rre", "Rre ::= Re", "Re"},
	{"Rbo", "Rbo ::= [1] Bo", "Bo"},
	{"Rch", "Rch ::= ChT", "ChT"},
	{"Tse", "Tse ::= SET OF SEQUENCE { a Ti , b Bi }", "Ti Bi"},
}

var preludeByName = func() map[string]preludeDef {
	m := map[string]preludeDef{}
	for _, p := range prelude {
		m[p.name] = p
	}
	return m
}()

// cg derives modules that are semantically well formed.
type cg struct {
	c           *Ctl
	dev         int
	depth       int
	used        map[string]bool
	unsupported bool // constructs the generator does not support may occur
	b           strings.Builder
}

func (g *cg) e(xs ...string) {
	for _, x := range xs {
		g.b.WriteString(x)
		g.b.WriteByte(' ')
	}
}

func (g *cg) alt(n int) int {
	if g.dev <= 0 || n <= 1 {
		return 0
	}
	k := g.c.Choose(n)
	if k > 0 {
		g.dev--
	}
	return k
}

func (g *cg) list(max int, sep string, item func(i int)) {
	for i := 0; ; i++ {
		item(i)
		if i+1 >= max || g.alt(2) == 0 {
			return
		}
		if sep != "" {
			g.e(sep)
		}
	}
}

func (g *cg) ref(name string) {
	g.use(name)
	g.e(name)
}

func (g *cg) use(name string) {
	if g.used[name] {
		return
	}
	if g.used == nil {
		g.used = map[string]bool{}
	}
	g.used[name] = true
	for _, d := range strings.Fields(preludeByName[name].deps) {
		g.use(d)
	}
}

// needed is the text of the definitions referred to.
func (g *cg) needed(reverse bool) string {
	var out []string
	for _, p := range prelude {
		if g.used[p.name] {
			out = append(out, p.text)
		}
	}
	if reverse {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return strings.Join(out, " ") + " "
}

var cgPlain = []string{"INTEGER", "BOOLEAN", "REAL", "OCTET STRING", "BIT STRING", "BIT STRING { x(0) , y(1) }", "ENUMERATED { x , y(5) , z }", "OBJECT IDENTIFIER", "ANY",
	"GeneralizedTime", "UTCTime", "IA5String", "UTF8String", "NumericString", "PrintableString", "CHARACTER STRING", "VisibleString", "BMPString", "GeneralString", "GraphicString",
	"ISO646String", "TeletexString", "T61String", "UniversalString", "VideotexString", "ANY DEFINED BY x", "INTEGER { p(1) , q-r(-2) }"}

var cgCons = []string{"(1)", "(0..5)", "(SIZE (1..3))", "(1 | 2)", "(MIN..MAX)", "(1..5, ..., 7)", "(1) (1..2)"}

var cgBad = []string{"NULL", "SEQUENCE { COMPONENTS OF Se , z INTEGER }", "SEQUENCE OF x INTEGER", "SET OF x BOOLEAN", "SEQUENCE { t [nn] INTEGER }", "SET { t [Mm.nn] INTEGER }", "Undef",
	"SEQUENCE { a INTEGER , ... , COMPONENTS OF Se }", "CHOICE { x NULL }", "CHOICE { x Undef , y INTEGER }", "SEQUENCE OF NULL", "SEQUENCE { n NULL OPTIONAL }", "[3] NULL", "SET OF Undef", "SET { u [1] Undef DEFAULT 3 }"}

func (g *cg) typ() {
	np, nr := len(cgPlain), len(prelude)
	str := 10
	nb := 0
	if g.depth <= 0 {
		str = 0
	}
	if g.unsupported {
		nb = len(cgBad)
	}
	g.depth--
	defer func() { g.depth++ }()
	k := g.alt(np + nb + nr + str)
	switch {
	case k < np:
		g.e(cgPlain[k])
		return
	case k < np+nb:
		s := cgBad[k-np]
		if strings.Contains(s, "Se") {
			g.use("Se")
		}
		g.e(s)
		return
	case k < np+nb+nr:
		g.ref(prelude[k-np-nb].name)
		return
	}
	switch k - np - nb - nr {
	case 0:
		g.e("SEQUENCE")
		g.body()
	case 1:
		g.e("SET")
		g.body()
	case 2, 3:
		g.e([]string{"SEQUENCE", "SET"}[k-np-nb-nr-2])
		switch g.alt(3) {
		case 1:
			g.e("SIZE (1..4)")
		case 2:
			g.e("(SIZE (2))")
		}
		g.e("OF")
		g.typ()
	case 4:
		g.e("CHOICE")
		g.choice()
	case 5, 6, 7:
		g.e("[")
		switch g.alt(3) {
		case 1:
			g.e("APPLICATION")
		case 2:
			g.e("PRIVATE")
		}
		g.e([]string{"7", "0", "31", "200"}[g.alt(4)])
		g.e("]")
		g.e([]string{"", "IMPLICIT", "EXPLICIT"}[k-np-nb-nr-5])
		g.typ()
	case 8:
		g.typ()
		g.e(cgCons[g.alt(len(cgCons))])
	case 9:
		g.e("[5]")
		g.typ()
		g.e("(1..5)")
	}
}

var cgNames = []string{"a", "b-c", "d9", "integer", "type", "x-y-z", "int64"}

func (g *cg) component(i int) {
	switch g.alt(3) {
	case 0:
		g.e("c" + fmt.Sprint(i))
	case 1:
		g.e("c" + fmt.Sprint(i) + "-x")
	case 2:
		g.e([]string{"type", "int64", "string", "func", "range", "map"}[i%6])
	}
	g.typ()
	switch g.alt(5) {
	case 1:
		g.e("OPTIONAL")
	case 2:
		g.e("DEFAULT 5")
	case 3:
		g.e("DEFAULT TRUE")
	case 4:
		g.e("DEFAULT -3")
	}
}

func (g *cg) body() {
	g.e("{")
	defer g.e("}")
	switch g.alt(9) {
	case 0:
		g.list(4, ",", g.component)
	case 1:
	case 2:
		g.e("...")
	case 3:
		g.list(2, ",", g.component)
		g.e(", ...")
	case 4:
		g.list(2, ",", g.component)
		g.e(", ... ,")
		g.list(3, ",", func(i int) { g.component(i + 10) })
	case 5:
		g.list(2, ",", g.component)
		g.e(", ... ,")
		g.list(3, ",", func(i int) { g.component(i + 10) })
		g.e(", ...")
	case 6:
		g.list(2, ",", g.component)
		g.e(", ... , ... ,")
		g.list(3, ",", func(i int) { g.component(i + 20) })
	case 7:
		g.list(2, ",", g.component)
		g.e(", ... ,")
		g.list(2, ",", func(i int) { g.component(i + 10) })
		g.e(", ... ,")
		g.list(2, ",", func(i int) { g.component(i + 20) })
	case 8:
		g.list(2, ",", g.component)
		g.e(", ... ! 1 , ...")
	}
}

func (g *cg) choice() {
	g.e("{")
	defer g.e("}")
	item := func(p string) func(i int) {
		return func(i int) {
			g.e(p + fmt.Sprint(i))
			g.typ()
		}
	}
	switch g.alt(4) {
	case 0:
		g.list(3, ",", item("c"))
	case 1:
		g.list(2, ",", item("c"))
		g.e(", ...")
	case 2:
		g.list(2, ",", item("c"))
		g.e(", ... ,")
		g.list(2, ",", item("e"))
	case 3:
		g.list(2, ",", item("c"))
		g.e(", ... ,")
		g.list(2, ",", item("e"))
		g.e(", ...")
	}
}

var realLits = []string{"1.5", "-2.25", "0.0", "3", "-7", "PLUS-INFINITY", "MINUS-INFINITY", "1.0e300", "-0.05", "2.5e-300", "1e21", "123456789.125", "9007199254740993", "0.1", "1e-7", "5e-324"}
var intLits = []string{"1", "-1", "0", "9223372036854775807", "-9223372036854775807", "4294967296", "-2147483649", "10", "1000000000000000000"}

// val is a value assignment of a literal.
func (g *cg) val(i int) {
	g.e([]string{"v", "w-x", "z"}[i%3])
	switch g.alt(3) {
	case 0:
		k := g.alt(9)
		switch k {
		case 0:
			g.e("INTEGER")
		case 5:
			g.e("[1] INTEGER")
		case 6:
			g.e("INTEGER (0..5)")
		case 7:
			g.e("[2] EXPLICIT In (1)")
			g.use("In")
		case 8:
			g.e("INTEGER { k(1) }")
		default:
			g.ref([]string{"", "In", "Tg", "Rc", "Rtg"}[k])
		}
		g.e("::=", intLits[g.alt(len(intLits))])
	case 1:
		switch g.alt(6) {
		case 0:
			g.e("REAL")
		case 1:
			g.ref("Re")
		case 2:
			g.ref("Rre")
		case 3:
			g.e("[1] REAL")
		case 4:
			g.e("REAL (0..5)")
		case 5:
			g.e("[2]")
			g.ref("Rre")
		}
		g.e("::=", realLits[g.alt(len(realLits))])
	case 2:
		switch g.alt(4) {
		case 0:
			g.e("BOOLEAN")
		case 1:
			g.ref("Bo")
		case 2:
			g.ref("Rbo")
		case 3:
			g.e("[1] BOOLEAN (TRUE)")
		}
		g.e("::=", []string{"TRUE", "FALSE"}[g.alt(2)])
	}
}

type cgConfig struct {
	p    a.GenParams
	desc string
	tags string
	mod  string
}

// config: INTEGER representation is a free choice, the rest costs deviations.
func (g *cg) config() cgConfig {
	var k cgConfig
	k.mod = "Test-Mod"
	if g.c.Bool() {
		k.p.IntegerRepr = a.IntegerReprBigInt
		k.desc = "big.Int "
	}
	switch g.alt(4) {
	case 1:
		k.p.Package = "pkg"
		k.desc += "package=pkg "
	case 2:
		k.p.IntegerRepr += "" // the default is given explicitly
		if k.p.IntegerRepr == "" {
			k.p.IntegerRepr = a.IntegerReprInt64
		}
		k.mod = "M"
	case 3:
		k.p.Package = "time"
		k.desc += "package=time "
	}
	switch g.alt(3) {
	case 1:
		k.tags = "IMPLICIT TAGS "
	case 2:
		k.tags = "EXPLICIT TAGS "
	}
	return k
}

func (k cgConfig) module(body string) string {
	return k.mod + " DEFINITIONS " + k.tags + "::= BEGIN " + body + "END"
}

// place puts the needed definitions before or after (free choice if there are any).
func (g *cg) place(main string) string {
	if len(g.used) == 0 {
		return main
	}
	if g.c.Bool() {
		return main + g.needed(true)
	}
	return g.needed(false) + main
}

func runCg(c *Ctl, j cgJudge, k cgConfig, text string) *checked {
	desc := k.desc + text
	c.Input(desc)
	return judgeGen(c, j, parseForGen(text), k.p, desc)
}

// derivedModules: every module within dev deviations from M ::= BEGIN T ::= INTEGER END.
func derivedModules(name string, j cgJudge, dev, depth, assigns int, unsupported bool, root string) *Space {
	return &Space{
		Name:  name,
		Bound: fmt.Sprintf("every module derived with at most %d deviations from %q, nesting up to %d, up to %d assignments, x INTEGER representation, tag default, package name, position of the %d referenced definitions", dev, root, depth, assigns, len(prelude)),
		Run: func(c *Ctl) {
			g := &cg{c: c, dev: dev, depth: depth, unsupported: unsupported}
			k := g.config()
			g.list(assigns, "", func(i int) {
				if root != "values" && root != "struct" && root != "choice" && g.alt(2) == 1 || root == "values" {
					g.val(i)
					return
				}
				g.e([]string{"T", "U-x", "V9"}[i%3], "::=")
				switch root {
				case "struct":
					g.e([]string{"SEQUENCE", "SET"}[c.Choose(2)])
					g.body()
				case "choice":
					g.e("CHOICE")
					g.choice()
				default:
					g.typ()
				}
			})
			runCg(c, j, k, k.module(g.place(g.b.String())))
		},
	}
}

// importUse are constructs with what they import in each representation.
var importUse = []string{"BOOLEAN", "INTEGER", "GeneralizedTime", "BIT STRING", "CHOICE { a [0] REAL }", "REAL", "ENUMERATED { a }", "OBJECT IDENTIFIER", "UTCTime", "SEQUENCE OF Bi", "CHOICE { a Ti }", "INTEGER { a(1) }", "SET { a [1] Rr , b Rti OPTIONAL }"}
var importVal = []string{"INTEGER ::= 3", "REAL ::= PLUS-INFINITY", "BOOLEAN ::= TRUE", "REAL ::= 2", "REAL ::= 1.5", "OBJECT IDENTIFIER ::= { 1 2 }", "INTEGER ::= vv", "GeneralizedTime ::= vv"}

// importSpace: every sequence of constructs that need imports or not.
func importSpace(j cgJudge, n int) *Space {
	return &Space{
		Name:  "imports",
		Bound: fmt.Sprintf("every sequence of 1 to %d assignments out of %d type and %d value assignments with different needs of imports, x INTEGER representation", n, len(importUse), len(importVal)),
		Run: func(c *Ctl) {
			g := &cg{c: c}
			k := cgConfig{mod: "M"}
			if c.Bool() {
				k.p.IntegerRepr = a.IntegerReprBigInt
				k.desc = "big.Int "
			}
			for i := 0; i < n; i++ {
				x := c.Choose(len(importUse) + len(importVal) + 1)
				if x == 0 {
					break
				}
				x--
				if x < len(importUse) {
					for _, w := range strings.Fields(importUse[x]) {
						if _, ok := preludeByName[w]; ok {
							g.use(w)
						}
					}
					g.e("T"+fmt.Sprint(i), "::=", importUse[x])
				} else {
					g.e("v"+fmt.Sprint(i), importVal[x-len(importUse)])
				}
			}
			body := g.b.String()
			if body == "" {
				return
			}
			if strings.Contains(body, "vv") {
				body += "vv INTEGER ::= 4 "
			}
			runCg(c, j, k, k.module(body+g.needed(false)))
		},
	}
}

// nestedSpace: every type under every stack of wrappers.
var cgWrappers = []struct{ name, pre, post string }{
	{"SEQUENCE component", "SEQUENCE { w0 BOOLEAN , w ", " , w1 REAL }"},
	{"SET component", "SET { w ", " OPTIONAL }"},
	{"extension addition", "SEQUENCE { w0 REAL , ... , w ", " }"},
	{"component after extensions", "SEQUENCE { w0 REAL , ... , w1 ANY , ... , w ", " }"},
	{"SEQUENCE OF", "SEQUENCE OF ", ""},
	{"SET OF", "SET OF ", ""},
	{"tag", "[3] ", ""},
	{"explicit tag", "[APPLICATION 4] EXPLICIT ", ""},
	{"implicit tag", "[PRIVATE 4] IMPLICIT ", ""},
	{"single CHOICE", "CHOICE { w ", " }"},
	{"CHOICE", "CHOICE { w ", " , w2 REAL }"},
	{"CHOICE second", "CHOICE { w1 ANY , w ", " }"},
	{"extensible CHOICE", "CHOICE { w ", " , ... }"},
	{"tagged component", "SET { w [5] ", " }"},
	{"DEFAULT component", "SEQUENCE { w ", " DEFAULT 4 }"},
	{"SIZE list", "SET SIZE (1..2) OF ", ""},
}

func nestedSpace(j cgJudge, depth int, leaves []string) *Space {
	return &Space{
		Name:  "nesting",
		Bound: fmt.Sprintf("every stack of up to %d of %d wrappers around each of %d types and %d references, x INTEGER representation, position of referenced definitions, constraint at each level or none", depth, len(cgWrappers), len(leaves), len(prelude)),
		Run: func(c *Ctl) {
			g := &cg{c: c}
			k := cgConfig{mod: "M"}
			pre, post := "", ""
			for d := 0; d < depth; d++ {
				x := c.Choose(len(cgWrappers) + 1)
				if x == 0 {
					break
				}
				pre += cgWrappers[x-1].pre
				post = cgWrappers[x-1].post + post
			}
			x := c.Choose(len(leaves) + len(prelude))
			t := ""
			if x < len(leaves) {
				t = leaves[x]
			} else {
				t = prelude[x-len(leaves)].name
				g.use(t)
			}
			for _, w := range strings.Fields(t) {
				if _, ok := preludeByName[w]; ok {
					g.use(w)
				}
			}
			if c.Bool() {
				t += " (1)"
			}
			if c.Bool() {
				k.p.IntegerRepr = a.IntegerReprBigInt
				k.desc = "big.Int "
			}
			runCg(c, j, k, k.module(g.place("T ::= "+pre+t+post+" ")))
		},
	}
}

// wideSpace: structures with n components, each of one of several kinds; extension marker anywhere.
func wideSpace(j cgJudge, n int) *Space {
	kinds := []string{"INTEGER", "St", "SET OF In", "[1] Bi OPTIONAL", "Ti", "SEQUENCE { x In }", "CHOICE { x [0] In }"}
	return &Space{
		Name:  "components",
		Bound: fmt.Sprintf("every SEQUENCE and SET of up to %d components out of %d kinds, extension marker after any and second marker after any", n, len(kinds)),
		Run: func(c *Ctl) {
			g := &cg{c: c}
			k := cgConfig{mod: "M"}
			g.e("T ::=", c.Pick("SEQUENCE", "SET"), "{")
			cnt := c.Choose(n) + 1
			m1 := c.Choose(cnt + 1) // marker before component m1, 0 = none
			m2 := 0
			if m1 > 0 {
				m2 = c.Choose(cnt + 2 - m1) // closing marker m2 components after, 0 = none
			}
			for i := 0; i < cnt; i++ {
				if i > 0 {
					g.e(",")
				}
				t := kinds[c.Choose(len(kinds))]
				for _, w := range strings.Fields(t) {
					if _, ok := preludeByName[w]; ok {
						g.use(w)
					}
				}
				g.e("c"+fmt.Sprint(i), t)
				if m1 > 0 && i+1 == m1 {
					g.e(", ...")
				}
				if m2 > 0 && i+1 == m1+m2-1 {
					g.e(", ...")
				}
			}
			g.e("}")
			runCg(c, j, k, k.module(g.needed(false)+g.b.String()))
		},
	}
}

func init() {
	deep := func(tier string, q, t int) int {
		if tier == "thorough" {
			return t
		}
		return q
	}
	cgSpacesFor := func(j cgJudge) func(tier string) []*Space {
		return func(tier string) []*Space {
			return []*Space{
				derivedModules("modules", j, deep(tier, 3, 4), 3, 3, false, "types"),
				derivedModules("structures", j, deep(tier, 3, 4), 3, 1, false, "struct"),
				derivedModules("values", j, deep(tier, 4, 5), 1, 2, false, "values"),
				nestedSpace(j, deep(tier, 2, 3), cgPlain),
				twinsSpace(j),
				wideSpace(j, deep(tier, 4, 6)),
				importSpace(j, deep(tier, 4, 5)),
				packagesSpace(j),
				namesSpace(j, deep(tier, 4, 6)),
				sizesSpace(j, deep(tier, 34, 140), deep(tier, 1025, 5001)),
				exampleGenSpace(j),
			}
		}
	}
	assume := []string{"recursive types, modules whose names collide in Go and values that do not fit their type are not explored", "the reference model of the documented Go representation is part of the harness (cgmodel.go)"}
	register(&Check{ID: "C09", Level: "model_checking", Rule: "one path per module and configuration; generated code is type-checked by go/types against the real standard library", Assumptions: assume,
		Spaces: cgSpacesFor(cgJudge{compile: true})})
	register(&Check{ID: "C10", Level: "model_checking", Rule: "one path per module and configuration; declared Go types are compared with the reference representation", Assumptions: assume,
		Spaces: cgSpacesFor(cgJudge{types: true, success: true})})
}
