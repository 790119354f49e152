package main

import (
	"bytes"
	"embed"
	"fmt"
	goparser "go/parser"
	gotoken "go/token"
	"strings"
	"sync"

	a "github.com/chemikadze/asn1go"
)

//go:embed testdata/*.asn1
var exampleFiles embed.FS

type example struct {
	name, text string
	toks       []string // items, with the text between them in seps
	seps       []string // seps[i] stands before toks[i]; the last one after all
}

var loadExamples = sync.OnceValue(func() []example {
	var out []example
	es, _ := exampleFiles.ReadDir("testdata")
	for _, e := range es {
		b, err := exampleFiles.ReadFile("testdata/" + e.Name())
		if err != nil {
			panic("harness: " + err.Error())
		}
		x := example{name: e.Name(), text: string(b)}
		r := refParse(x.text)
		if r.v != vAccept {
			panic(fmt.Sprintf("harness: example %s is not accepted: line %d %q", e.Name(), r.errLine, tokText(r)))
		}
		pos := 0
		for _, t := range r.lx.toks {
			if t.off >= len(x.text) {
				break
			}
			x.seps = append(x.seps, x.text[pos:t.off])
			x.toks = append(x.toks, x.text[t.off:t.end])
			pos = t.end
		}
		x.seps = append(x.seps, x.text[pos:])
		out = append(out, x)
	}
	return out
})

func (x example) join(toks []string, from int) string { // from: number of leading items that keep their layout
	var b strings.Builder
	for i, t := range toks {
		if i < len(x.seps)-1 && i < from {
			b.WriteString(x.seps[i])
		} else {
			b.WriteByte(' ')
		}
		b.WriteString(t)
	}
	return b.String()
}

// exampleSpace: the five protocol modules of the repository, whole and with one edit at every item.
func exampleSpace(j judge, stride int, edits []string) *Space {
	return &Space{
		Name:  "protocol-modules",
		Bound: fmt.Sprintf("RFC 1155, 1157, 4120, 4511 and 5280 modules: whole, and at every %d. item: deleted, doubled, cut before, or replaced by each of %q", stride, edits),
		Run: func(c *Ctl) {
			ex := loadExamples()
			x := ex[c.Choose(len(ex))]
			i := c.Choose(len(x.toks)/stride + 1)
			if i == 0 {
				c.Input(x.name + " whole")
				if r := judgeText(c, j, x.text); r.v != vAccept {
					panic("harness: example not accepted")
				}
				return
			}
			i = (i - 1) * stride
			var out []string
			out = append(out, x.toks[:i]...)
			k := c.Choose(3 + len(edits))
			what := ""
			switch k {
			case 0:
				out = append(out, x.toks[i+1:]...)
				what = "deleted"
			case 1:
				out = append(append(out, x.toks[i]), x.toks[i:]...)
				what = "doubled"
			case 2:
				what = "cut"
			default:
				out = append(append(out, edits[k-3]), x.toks[i+1:]...)
				what = "replaced by " + edits[k-3]
			}
			c.Input(fmt.Sprintf("%s: item %d %q %s", x.name, i, x.toks[i], what))
			judgeText(c, j, x.join(out, i+1))
		},
	}
}

// C23: generation is total.

var totalParams = []a.GenParams{{}, {Package: "p", IntegerRepr: a.IntegerReprBigInt}, {IntegerRepr: "nonsense"}}

func judgeTotal(c *Ctl, m *a.ModuleDefinition, desc string) {
	for i, p := range totalParams {
		g := generate(m, p)
		if i == 0 { // neither EXTENSIBILITY IMPLIED nor imports nor an identifier make a difference
			v := headerVariants(m)[1]
			if gv := generate(v, p); (gv.err == nil) != (g.err == nil) || !bytes.Equal(gv.out, g.out) {
				judgeTotalOf(c, p, gv, desc+" (with EXTENSIBILITY IMPLIED, identifier and imports)")
			}
		}
		judgeTotalOf(c, p, g, desc)
	}
}

func judgeTotalOf(c *Ctl, p a.GenParams, g genOut, desc string) {
	if g.err != nil {
		c.Outcome("e")
		if len(g.out) != 0 {
			c.Fail("generation reports %v, but wrote %q for %s", g.err, clip(string(g.out), 300), desc)
		}
		if strings.TrimSpace(g.err.Error()) == "" {
			c.Fail("generation fails without a message for %s", desc)
		}
		return
	}
	c.Outcome("o")
	f, err := goparser.ParseFile(gotoken.NewFileSet(), "x.go", g.out, goparser.SkipObjectResolution)
	if err != nil {
		c.Fail("generation reports success, but the output is no Go file: %v: %s generated\n%s", err, desc, clip(string(g.out), 1500))
	}
	if p.Package != "" && f.Name.Name != p.Package {
		c.Fail("package clause is %s, want %s: %s", f.Name.Name, p.Package, desc)
	}
	c.Steps(1)
}

// recursionSpace: reference graphs in which every cycle is possible.
func recursionSpace(n int, forms []string, values bool) *Space {
	return &Space{
		Name:  fmt.Sprintf("recursion-%d-%d", n, len(forms)),
		Bound: fmt.Sprintf("every module of %d type assignments out of %d forms around references to any of them, value assignments between them %v", n, len(forms), values),
		Run: func(c *Ctl) {
			var as []string
			for i := 0; i < n; i++ {
				f := forms[c.Choose(len(forms))]
				k := strings.Count(f, "%s")
				args := make([]interface{}, k)
				for q := range args {
					args[q] = graphNames[c.Choose(n)]
				}
				as = append(as, graphNames[i]+" ::= "+fmt.Sprintf(f, args...))
			}
			if values {
				vs := []string{"", "v Aa ::= 1", "v Aa ::= v", "v Aa ::= w w INTEGER ::= v", "v Aa ::= w", "v Aa ::= 2.5", "v Aa ::= { 1 2 }", "v Aa ::= \"x\"", "v Aa ::= TRUE", "v INTEGER ::= 7"}
				as = append(as, vs[c.Choose(len(vs))])
			}
			text := "M DEFINITIONS ::= BEGIN " + strings.Join(as, " ") + " END"
			c.Input(text)
			m, err := a.ParseString(text)
			if err != nil || m == nil {
				return
			}
			judgeTotal(c, m, text)
		},
	}
}

var recursionForms = []string{"INTEGER", "%s", "[1] %s", "%s (1)", "SEQUENCE { a %s }", "SEQUENCE { a %s OPTIONAL , b %s }", "SET OF %s", "CHOICE { a %s }", "CHOICE { a [0] %s , b %s }", "SET { a [1] %s DEFAULT 1 }", "INTEGER { a (v) }", "CHOICE { a %s , b %s }", "SEQUENCE OF CHOICE { a %s }", "SEQUENCE { COMPONENTS OF %s }", "[v] %s"}

func init() {
	register(&Check{
		ID: "C23", Level: "model_checking",
		Rule:        "one path per module; the module is generated under three configurations, each must return either an error and no output or a Go file (a panic, crash, hang or exhausted memory is a violation)",
		Assumptions: []string{"package names given by the caller are Go identifiers"},
		Spaces: func(tier string) []*Space {
			j := judge{gen: true}
			dev, e, lens, nests := []int{3, 3, 3, 4, 3}, 1, lengthsUpTo(20, 64, 300, 1000), lengthsUpTo(20, 64, 200, 1000)
			if tier == "thorough" {
				dev, e, lens, nests = []int{4, 5, 4, 5, 4}, 2, lengthsUpTo(100, 1000, 3000), lengthsUpTo(100, 1000, 5000)
			}
			var out []*Space
			for i, d := range derivations {
				out = append(out, deriveSpace(d, dev[i], 3, j), editSpace(d, e, 2, midTokens, j, []string{" "}))
			}
			out = append(out, longSpace(lens, j), nestSpace(nests, j), defaultsSpace(1+e, j))
			out = append(out, recursionSpace(2, recursionForms, true), recursionSpace(3, recursionForms[:10], false))
			if tier == "thorough" {
				out = append(out, recursionSpace(3, recursionForms[:13], true), recursionSpace(4, recursionForms[:7], false))
			}
			for _, d := range derivations {
				out = append(out, phraseSpace(d, 1, 2, j), spanSpace(d, e, 2, 6, j))
			}
			total := cgJudge{total: true}
			out = append(out, sizesSpace(total, 20*e, 2049*e), namesSpace(total, 3+e), badFormsSpace(total, e), nestedSpace(total, 1+e, cgPlain), choiceSpace(total, 2, len(choiceAlts), e))
			return append(out, exampleSpace(j, 1, nil))
		}})
}

// exampleGenSpace: generation of the protocol modules, whole, without each of their assignments, rotated and reversed.
func exampleGenSpace(j cgJudge) *Space {
	return &Space{
		Name:  "protocol-modules",
		Bound: "RFC 1155, 1157, 4120, 4511 and 5280 modules under 3 configurations: whole, without each assignment, beginning at each assignment, reversed",
		Run: func(c *Ctl) {
			ex := loadExamples()
			x := ex[c.Choose(len(ex))]
			p := []a.GenParams{{}, {IntegerRepr: a.IntegerReprBigInt}, {Package: "pkg"}}[c.Choose(3)]
			m := *parseForGen(x.text)
			l := m.ModuleBody.AssignmentList
			n := len(l)
			k := c.Choose(2*n + 1)
			var nl a.AssignmentList
			what := "whole"
			switch {
			case k == 0:
				nl = append(nl, l...)
			case k <= n:
				what = "without " + l[k-1].Reference().Name()
				nl = append(append(nl, l[:k-1]...), l[k:]...)
			case k < 2*n:
				what = "beginning with " + l[k-n].Reference().Name()
				nl = append(append(nl, l[k-n:]...), l[:k-n]...)
			default:
				what = "reversed"
				for i := n - 1; i >= 0; i-- {
					nl = append(nl, l[i])
				}
			}
			m.ModuleBody.AssignmentList = nl
			desc := fmt.Sprintf("%s %s %+v", x.name, what, p)
			c.Input(desc)
			judgeGen(c, j, &m, p, desc)
		},
	}
}
