package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"sort"
	"strings"

	a "github.com/chemikadze/asn1go"
)

// ---------------------------------------------------------------- references (C12)

var graphLeaves = []string{"INTEGER", "BIT STRING", "GeneralizedTime", "SET { x INTEGER }", "SEQUENCE { x INTEGER }", "UTCTime", "CHOICE { a [0] INTEGER , b REAL }", "SET OF INTEGER", "IA5String", "ENUMERATED { a }", "CHOICE { x INTEGER }", "ANY", "OCTET STRING"}
var graphForms = []string{"%s", "[1] %s", "SEQUENCE { f %s }", "CHOICE { a %s }", "%s (1)", "SET OF %s", "CHOICE { a %s , b REAL }", "SEQUENCE { f [2] %s OPTIONAL , g UTCTime }", "SEQUENCE OF %s", "SET { e ANY , ... , f %s }", "[APPLICATION 3] EXPLICIT %s (1) (2)", "SEQUENCE OF SET { f %s }"}
var graphNames = []string{"Aa", "B-b", "C9", "Dd", "Ee"}

// declTexts maps each declared name to its source.
func declTexts(k *checked, src []byte) map[string]string {
	out := map[string]string{}
	at := func(from, to token.Pos) string { return string(src[from-1 : to-1]) }
	for _, d := range k.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range gd.Specs {
			switch x := s.(type) {
			case *ast.TypeSpec:
				out[x.Name.Name] = at(x.Pos(), x.End())
			case *ast.ValueSpec:
				out[x.Names[0].Name] = at(x.Pos(), x.End())
			}
		}
	}
	return out
}

// graphSpace: every module of n type assignments, each a leaf or a form around a reference to any of them or to an undefined type.
func graphSpace(j cgJudge, n, leaves, forms int, permute bool) *Space {
	what := ""
	if permute {
		what = "; every order of the assignments generates the same declarations"
	}
	return &Space{
		Name: fmt.Sprintf("graphs-%d", n),
		Bound: fmt.Sprintf("every module of %d type assignments, each one of %d leaves or one of %d forms around a reference to any of the %d or to an undefined type (chains, shared targets, self references, cycles), x INTEGER representation%s",
			n, leaves, forms, n, what),
		Run: func(c *Ctl) {
			k := cgConfig{mod: "M"}
			if c.Bool() {
				k.p.IntegerRepr = a.IntegerReprBigInt
				k.desc = "big.Int "
			}
			var as []string
			for i := 0; i < n; i++ {
				x := c.Choose(leaves + forms*(n+1))
				if x < leaves {
					as = append(as, graphNames[i]+" ::= "+graphLeaves[x])
					continue
				}
				x -= leaves
				to := "Undefd"
				if t := x / forms; t < n {
					to = graphNames[t]
				}
				as = append(as, graphNames[i]+" ::= "+fmt.Sprintf(graphForms[x%forms], to))
			}
			text := k.module(strings.Join(as, " ") + " ")
			c.Input(k.desc + text)
			m := parseForGen(text)
			ck := judgeGen(c, j, m, k.p, k.desc+text)
			if !permute {
				return
			}
			var want map[string]string
			if ck != nil {
				want = declTexts(ck, generate(m, k.p).out)
			}
			base := append(a.AssignmentList{}, m.ModuleBody.AssignmentList...)
			permutations(n, func(p []int) {
				var l a.AssignmentList
				for _, i := range p {
					l = append(l, base[i])
				}
				pm := *m
				pm.ModuleBody.AssignmentList = l
				c.Steps(1)
				g := generate(&pm, k.p)
				if (g.err == nil) != (ck != nil) {
					if ck == nil && recursiveModule(m) {
						return
					}
					c.Fail("order matters: in order %v generation gives error %v, in the original order success=%v: %s", p, g.err, ck != nil, text)
				}
				if ck == nil {
					return
				}
				pk, err := typecheck(g.out)
				if err != nil {
					if j.compile || j.types {
						c.Fail("in order %v generated code does not compile: %v: %s", p, err, text)
					}
					return
				}
				got := declTexts(pk, g.out)
				if len(got) != len(want) {
					c.Fail("order matters: in order %v other declarations are generated: %s", p, text)
				}
				for n, w := range want {
					if strings.Join(strings.Fields(got[n]), " ") != strings.Join(strings.Fields(w), " ") {
						c.Fail("order matters: %s is %q in order %v, %q in the original order: %s", n, got[n], p, w, text)
					}
				}
			})
		},
	}
}

func permutations(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for {
		i := n - 2
		for i >= 0 && p[i] > p[i+1] {
			i--
		}
		if i < 0 {
			return
		}
		k := n - 1
		for p[k] < p[i] {
			k--
		}
		p[i], p[k] = p[k], p[i]
		sort.Ints(p[i+1:])
		f(p)
	}
}

// chainSpace: long chains in several orders to every kind of end.
func chainSpace(j cgJudge, lens []int) *Space {
	ends := []string{"INTEGER", "BIT STRING", "GeneralizedTime", "UTCTime", "SET { a REAL }", "CHOICE { a [0] NULL , b REAL }", "Undefd", "N0", "SELF", "MID", "SET OF N-other", "IA5String"}
	return &Space{
		Name:  "chains",
		Bound: fmt.Sprintf("reference chains of %v definitions x %d ends (types, undefined, circles back to the first, the middle and the last) x 4 kinds of links x 3 orders x use in 5 positions", lens, len(ends)),
		Run: func(c *Ctl) {
			n := lens[c.Choose(len(lens))]
			end := ends[c.Choose(len(ends))]
			link := c.Pick("%s", "[2] %s", "%s (1)", "mixed")
			order := c.Choose(3)
			use := c.Pick("", "Use ::= SEQUENCE { f N0 , g [1] N1 OPTIONAL }", "Use ::= SET OF N0", "Use ::= CHOICE { a N1 }", "Use ::= CHOICE { a N0 , b N1 }")
			as := make([]string, n)
			for i := 0; i < n; i++ {
				to := fmt.Sprintf("N%d", i+1)
				if i == n-1 {
					switch end {
					case "SELF":
						to = fmt.Sprintf("N%d", n-1)
					case "MID":
						to = fmt.Sprintf("N%d", n/2)
					case "CHOICE { a [0] NULL , b REAL }", "SET OF N-other":
						as[i] = fmt.Sprintf("N%d ::= %s", i, end)
						continue
					default:
						to = end
					}
				}
				l := link
				if l == "mixed" {
					l = []string{"%s", "[2] %s", "[APPLICATION 1] EXPLICIT %s", "%s (1)"}[i%4]
				}
				as[i] = fmt.Sprintf("N%d ::= ", i) + fmt.Sprintf(l, to)
			}
			switch order {
			case 1:
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					as[i], as[j] = as[j], as[i]
				}
			case 2: // even ones first
				var o []string
				for i := 0; i < n; i += 2 {
					o = append(o, as[i])
				}
				for i := 1; i < n; i += 2 {
					o = append(o, as[i])
				}
				as = o
			}
			runCg(c, j, cgConfig{mod: "M"}, "M DEFINITIONS ::= BEGIN "+use+" "+strings.Join(as, " ")+" N-other ::= BIT STRING END")
		},
	}
}

// refPositions: references to time, bit string and all other definitions in every stack of positions are in nestedSpace.

// ---------------------------------------------------------------- CHOICE (C22)

var choiceAlts = []string{"INTEGER", "[0] INTEGER", "Tg", "Rtg", "In", "GeneralizedTime", "Rr", "In (1)", "Rtg (1)", "ChT", "CHOICE { x [0] INTEGER }", "[1] EXPLICIT Se", "SEQUENCE { x [0] INTEGER }", "Ti", "Rti", "Rut", "BIT STRING", "St", "UTCTime", "To", "Rto"}

func choiceSpace(j cgJudge, n, alts int, wrap int) *Space {
	return &Space{
		Name: fmt.Sprintf("choices-%d", n),
		Bound: fmt.Sprintf("every CHOICE of 1 to %d root alternatives out of %d kinds (untagged, tagged, through references and constraints), extensible or with a tagged or untagged extension alternative or not, under up to %d wrappers, referenced definitions before or after",
			n, alts, wrap),
		Run: func(c *Ctl) {
			g := &cg{c: c}
			cnt := c.Choose(n) + 1
			ext := c.Choose(5)
			pre, post := "", ""
			for d := 0; d < wrap; d++ {
				x := c.Choose(len(cgWrappers) + 1)
				if x == 0 {
					break
				}
				pre += cgWrappers[x-1].pre
				post = cgWrappers[x-1].post + post
			}
			g.e("T ::=", pre, "CHOICE {")
			for i := 0; i < cnt; i++ {
				if i > 0 {
					g.e(",")
				}
				t := choiceAlts[c.Choose(alts)]
				for _, w := range strings.Fields(t) {
					if _, ok := preludeByName[w]; ok {
						g.use(w)
					}
				}
				g.e("c"+fmt.Sprint(i), t)
			}
			g.e([]string{"", ", ...", ", ... , e REAL", ", ... , e [3] REAL", ", ... , e [3] REAL , ..."}[ext], "}", post)
			runCg(c, j, cgConfig{mod: "M"}, "M DEFINITIONS ::= BEGIN "+g.place(g.b.String())+"END")
		},
	}
}

// ---------------------------------------------------------------- values (C13)

var numVals = []string{"1", "-1", "0", "9223372036854775807", "-9223372036854775807", "4294967296", "vv", "w-w", "M.vv", "bb", "rr", "oo", "undef", "alias", "Aa.vv", "T"}

func namedNumbersSpace(j cgJudge, n int) *Space {
	defs := []string{"vv INTEGER ::= 7", "w-w Other ::= -5000000000", "bb BOOLEAN ::= TRUE", "rr REAL ::= 1.5", "oo OBJECT IDENTIFIER ::= { 1 2 }", "alias INTEGER ::= vv", "Other ::= INTEGER"}
	return &Space{
		Name:  "named-numbers",
		Bound: fmt.Sprintf("every INTEGER type of 1 to %d named numbers with values out of %d literals and references (to integers, non-integers, other modules, undefined), under 5 wrappings, referenced values before or after, x INTEGER representation", n, len(numVals)-1),
		Run: func(c *Ctl) {
			g := &cg{c: c}
			k := cgConfig{mod: "M"}
			if c.Bool() {
				k.p.IntegerRepr = a.IntegerReprBigInt
				k.desc = "big.Int "
			}
			wrap := c.Pick("%s", "[1] %s", "%s (0..5)", "[2] EXPLICIT %s (1)", "[APPLICATION 5] IMPLICIT [1] %s (1) (2)")
			cnt := c.Choose(n) + 1
			var nn []string
			for i := 0; i < cnt; i++ {
				nn = append(nn, []string{"one", "two-x", "t3", "four"}[i]+"("+numVals[c.Choose(len(numVals)-1)]+")")
			}
			main := "T-x ::= " + fmt.Sprintf(wrap, "INTEGER { "+strings.Join(nn, " , ")+" }") + " "
			body := main + strings.Join(defs, " ") + " "
			if c.Bool() {
				body = strings.Join(defs, " ") + " " + main
			}
			_ = g
			runCg(c, j, k, k.module(body))
		},
	}
}

// literalSpace: literals given as AST values, which can be more than the notation can write.
func literalSpace(j cgJudge) *Space {
	var ints []int64
	for k := uint(0); k < 64; k++ {
		for d := int64(-1); d <= 1; d++ {
			ints = append(ints, int64(uint64(1)<<k)+d, -int64(uint64(1)<<k)+d)
		}
	}
	for p, k := int64(1), 0; k < 19; k++ {
		for d := int64(-1); d <= 1; d++ {
			ints = append(ints, p+d, -p+d)
		}
		if k < 18 {
			p *= 10
		}
	}
	reals := literalReals()
	return &Space{
		Name:  "literals",
		Bound: fmt.Sprintf("%d integers around powers of 2 and 10 (incl. the smallest) as value, named number and referenced value, and %d reals (all powers of 2 and 10 and neighbours, whole ones, infinities, subnormal ones), each x 4 types x INTEGER representation", len(ints), len(reals)),
		Run: func(c *Ctl) {
			var p a.GenParams
			if c.Bool() {
				p.IntegerRepr = a.IntegerReprBigInt
			}
			m := &a.ModuleDefinition{ModuleIdentifier: a.ModuleIdentifier{Reference: "M"}, TagDefault: a.TAGS_EXPLICIT}
			wrap := func(t a.Type, ref a.TypeReference) a.Type {
				switch c.Choose(4) {
				case 0:
					return t
				case 1:
					return ref
				case 2:
					return a.TaggedType{Tag: a.Tag{ClassNumber: a.Number(1)}, Type: t}
				}
				return a.ConstraintedType{Type: ref}
			}
			l := a.AssignmentList{
				a.TypeAssignment{TypeReference: "Ii", Type: a.IntegerType{}},
				a.TypeAssignment{TypeReference: "Rr", Type: a.RealType{}},
			}
			desc := ""
			switch c.Choose(2) {
			case 0:
				n := a.Number(ints[c.Choose(len(ints))])
				t := wrap(a.IntegerType{}, "Ii")
				l = append(l, a.ValueAssignment{ValueReference: "v-v", Type: t, Value: n},
					a.TypeAssignment{TypeReference: "Nn", Type: a.IntegerType{NamedNumberList: []a.NamedNumber{{Name: "a-a", Value: n}, {Name: "b", Value: a.DefinedValue{ValueName: "v-v"}}}}})
				desc = fmt.Sprintf("value %d of %#v", int64(n), t)
			case 1:
				x := reals[c.Choose(len(reals))]
				t := wrap(a.RealType{}, "Rr")
				l = append(l, a.ValueAssignment{ValueReference: "v-v", Type: t, Value: a.Real(x)})
				desc = fmt.Sprintf("value %g of %#v", x, t)
			}
			m.ModuleBody.AssignmentList = l
			c.Input(string(p.IntegerRepr) + " " + desc)
			judgeGen(c, j, m, p, string(p.IntegerRepr)+" "+desc)
		},
	}
}

// ---------------------------------------------------------------- unsupported constructs (C14)

func unsupportedSpace(j cgJudge, depth int) *Space {
	bad := append([]string{"INTEGER", "SEQUENCE { t [5] INTEGER }"}, cgBad...)
	bad = append(bad, "INTEGER { a(undef) }", "INTEGER { a(Mm.vv) }", "INTEGER { a(1) , b(bb) }", "SEQUENCE { a INTEGER , COMPONENTS OF St }", "SET { e ANY , ... , ... , COMPONENTS OF Se }", "SEQUENCE OF x Undef", "CHOICE { x SEQUENCE { y NULL } }",
		"SEQUENCE { t [vv] BOOLEAN }", "SEQUENCE { t [1] [vv] BOOLEAN }", "SEQUENCE { t [vv] Se (1) OPTIONAL }", "SEQUENCE { COMPONENTS OF Se }", "SET { COMPONENTS OF Se }")
	values := []string{"5", "TRUE", "-1.5"}
	return &Space{
		Name: "positions",
		Bound: fmt.Sprintf("each of %d constructs (2 of them supported) under every stack of up to %d of %d wrappers, as type of a type or of a literal value assignment, before, between or after supported definitions or alone, x 4 INTEGER representations (2 unknown), x 4 tag defaults",
			len(bad), depth, len(cgWrappers)),
		Run: func(c *Ctl) {
			k := cgConfig{mod: "M"}
			k.p.IntegerRepr = []a.IntegerRepr{"", a.IntegerReprBigInt, "int32", "INT64"}[c.Choose(4)]
			k.desc = string(k.p.IntegerRepr) + " "
			k.tags = c.Pick("", "IMPLICIT TAGS ", "EXPLICIT TAGS ", "AUTOMATIC TAGS ")
			pre, post := "", ""
			for d := 0; d < depth; d++ {
				x := c.Choose(len(cgWrappers) + 1)
				if x == 0 {
					break
				}
				pre += cgWrappers[x-1].pre
				post = cgWrappers[x-1].post + post
			}
			b := bad[c.Choose(len(bad))]
			main := "T ::= " + pre + b + post + " "
			if strings.Contains(b, "INTEGER {") { // numbers of anonymous types are not generated
				if pre != "" && !strings.HasPrefix(pre, "[") {
					return
				}
			}
			main2 := "Se ::= [1] REAL "
			d1, d2 := "Se ::= SEQUENCE { k REAL , l Bi } St ::= SET { k REAL } ", "Bi ::= BIT STRING vv REAL ::= 1 bb BOOLEAN ::= TRUE "
			place := c.Choose(5 + 2*len(values))
			if place >= 5 { // type of a value instead
				if strings.Contains(b, "INTEGER {") {
					return // numbers of anonymous types are not generated
				}
				main = "t-t " + pre + b + post + " ::= " + values[(place-5)/2] + " "
				place = 3 + place%2
			}
			switch place {
			case 0:
				main = main + d1 + d2
			case 1:
				main = d1 + main + d2
			case 2:
				main = d1 + d2 + main
			case 3: // on its own
			case 4:
				main = main + main2
			}
			runCg(c, j, k, k.module(main))
		},
	}
}

func init() {
	pick := func(tier string, q, t int) int {
		if tier == "thorough" {
			return t
		}
		return q
	}
	register(&Check{ID: "C12", Level: "model_checking",
		Rule:        "one path per reference graph; generated types are compared with those the definitions finally lead to, and over every order of the assignments",
		Assumptions: []string{"recursive types (a type that contains itself) must terminate but are not compared", "undefined references of CHOICE alternatives next to a tagged alternative may or may not be reported"},
		Spaces: func(tier string) []*Space {
			j := cgJudge{types: true, fails: true, success: true}
			chainLens := []int{2, 3, 5, 20, 60}
			if tier == "thorough" {
				chainLens = append(chainLens, 300)
			}
			out := []*Space{
				graphSpace(j, 2, len(graphLeaves), len(graphForms), true),
				graphSpace(j, 3, pick(tier, 7, len(graphLeaves)), pick(tier, 7, len(graphForms)), true),
				graphSpace(j, 4, pick(tier, 3, 6), pick(tier, 3, 6), false),
				chainSpace(j, chainLens),
				nestedSpace(j, pick(tier, 2, 3), nil),
				twinsSpace(j),
				sizesSpace(j, pick(tier, 34, 140), pick(tier, 1025, 5001)),
				exampleGenSpace(j),
			}
			if tier == "thorough" {
				out = append(out, graphSpace(j, 5, 3, 3, false))
			}
			return out
		}})
	register(&Check{ID: "C22", Level: "model_checking",
		Rule:        "one path per CHOICE and position; generated types are compared with the reference representation",
		Assumptions: []string{"an alternative that is itself a CHOICE with tagged alternatives is not tagged"},
		Spaces: func(tier string) []*Space {
			j := cgJudge{types: true, success: true, fails: true}
			out := []*Space{
				choiceSpace(j, 3, len(choiceAlts), 0),
				choiceSpace(j, 2, pick(tier, 11, len(choiceAlts)), 1),
				exampleGenSpace(j),
				derivedModules("derived", j, pick(tier, 3, 4), 3, 1, false, "choice"),
				twinsSpace(j),
				sizesSpace(j, pick(tier, 34, 140), pick(tier, 1025, 5001)),
			}
			if tier == "thorough" {
				out = append(out, choiceSpace(j, 4, len(choiceAlts), 0), choiceSpace(j, 3, 9, 1), choiceSpace(j, 2, 9, 2))
			} else {
				out = append(out, choiceSpace(j, 1, len(choiceAlts), 2))
			}
			return out
		}})
	register(&Check{ID: "C13", Level: "model_checking",
		Rule:        "one path per module; generated variables are evaluated and compared with the literal",
		Assumptions: []string{"values fit their types", "the sign of a zero is not observed"},
		Spaces: func(tier string) []*Space {
			j := cgJudge{values: true, success: true, fails: true, compile: true}
			return []*Space{
				derivedModules("values", j, pick(tier, 4, 5), 1, 3, false, "values"),
				namedNumbersSpace(j, pick(tier, 3, 4)), namedSiblingsSpace(j, 3),
				literalSpace(j),
				sizesSpace(j, pick(tier, 34, 140), pick(tier, 1025, 5001)),
				importSpace(j, pick(tier, 3, 4)),
				exampleGenSpace(j),
			}
		}})
	register(&Check{ID: "C14", Level: "model_checking",
		Rule:        "one path per module and configuration; generation has to fail and to write nothing exactly if something that must be generated is unsupported",
		Assumptions: []string{"what is generated as raw value or empty interface does not need its alternatives generated", "numbers of anonymous INTEGER types and tags outside of components are not generated"},
		Spaces: func(tier string) []*Space {
			j := cgJudge{fails: true, success: true}
			return []*Space{
				unsupportedSpace(j, pick(tier, 1, 3)),
				derivedModules("modules", j, pick(tier, 3, 4), 3, 3, true, "types"),
				derivedModules("structures", j, pick(tier, 2, 4), 3, 1, true, "struct"),
				derivedModules("choices", j, pick(tier, 3, 4), 3, 1, true, "choice"),
				namedNumbersSpace(j, pick(tier, 2, 3)), namedSiblingsSpace(j, 2),
				badFormsSpace(j, pick(tier, 1, 2)),
				reprSpace(j),
				sizesSpace(j, pick(tier, 34, 140), pick(tier, 1025, 5001)),
				exampleGenSpace(j),
				graphSpace(j, 2, len(graphLeaves), len(graphForms), false),
			}
		}})
}
