package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"

	a "github.com/chemikadze/asn1go"
)

// C15, second part: ordered pairs and triples of calls over generated
// families of texts. Each result is compared with that of the same call in a
// fresh process.

type dynOp struct {
	Gen  int // -1: parse only
	Text string
}

func (o dynOp) do() string {
	m, err := a.ParseString(o.Text)
	if o.Gen < 0 || m == nil {
		return renderParse(m, err)
	}
	before := dumpAST(*m)
	var b bytes.Buffer
	err = dynGens[o.Gen].Generate(*m, &b)
	out := fmt.Sprintf("%v\n%s", err, b.String())
	if after := dumpAST(*m); after != before {
		out += "\nthe module was changed by generating:\n" + after
	}
	return out
}

// dynGens are shared by all calls of the process.
var dynGens = func() (out []a.CodeGenerator) {
	for _, g := range histGens {
		out = append(out, a.NewCodeGenerator(g.params))
	}
	return out
}()

var dynRefs sync.Map

func (o dynOp) fresh() string {
	if r, ok := dynRefs.Load(o); ok {
		return r.(string)
	}
	in, _ := json.Marshal(o)
	cmd := exec.Command(os.Args[0], "sub", "dynop")
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	var r string
	if err == nil {
		err = json.Unmarshal(out, &r)
	}
	if err != nil {
		r = fmt.Sprintf("fresh process: %v", err)
	}
	dynRefs.Store(o, r)
	return r
}

func init() {
	subs["dynop"] = func([]string) int {
		var o dynOp
		in, _ := io.ReadAll(os.Stdin)
		if json.Unmarshal(in, &o) != nil {
			return 2
		}
		b, _ := json.Marshal(o.do())
		os.Stdout.Write(b)
		return 0
	}
}

func runDyn(c *Ctl, seq []dynOp) {
	var names []string
	for _, o := range seq {
		names = append(names, fmt.Sprintf("%d %q", o.Gen, o.Text))
	}
	c.Input(strings.Join(names, "; "))
	for k, o := range seq {
		got := o.do()
		if want := o.fresh(); got != want {
			c.Fail("call %d (%s) differs from the same call in a fresh process after %s\n--- fresh\n%s\n--- here\n%s", k+1, names[k], strings.Join(names[:k], "; "), clip(want, 1200), clip(got, 1200))
		}
		c.Steps(1)
		if k == len(seq)-1 {
			c.Outcome(clip(got, 200))
		}
	}
}

// histPriors are texts whose parse ends at every kind of place: after every
// lexical item and in the middle of it, successfully or not.
func histPriors() []string {
	rich := "M {a 1 b(2)} DEFINITIONS IMPLICIT TAGS EXTENSIBILITY IMPLIED ::= BEGIN EXPORTS A ; IMPORTS B , c FROM N {1 d} ;\n" +
		"A ::= [APPLICATION 3] SEQUENCE (SIZE (0<..<MAX | 4 ^ 5, ...)) OF -- c --\r\n b INTEGER { x(-1) , y(z) } /* n /* m */ */ v REAL ::= - 1.50E-3 w INTEGER ::= 25 E ::= ANY DEFINED BY e1 END"
	lx := refLex(rich)
	var out []string
	{
		for _, t := range lx.toks {
			out = append(out, rich[:t.end])
			if t.end-t.off > 1 {
				out = append(out, rich[:t.off+1], rich[:t.end-1])
			}
			if t.k != tEOF {
				out = append(out, rich[:t.off]+"$", rich[:t.off]+") 7", rich[:t.off]+"E", rich[:t.end]+"E", rich[:t.off]+"\n\n\r-")
			}
		}
	}
	for _, s := range []string{"", "\n\n", "\r", "5", "E", "-", "/*", "/* /*", "--", "\xc3", ":", "::", "."} {
		out = append(out, s, "M DEFINITIONS ::= BEGIN A ::= "+s, "M DEFINITIONS ::= BEGIN A ::= INTEGER END"+s)
	}
	return out
}

// histLaters are texts whose result depends on the state a parse starts in.
func histLaters() []string {
	return []string{
		"E DEFINITIONS ::= BEGIN A ::= INTEGER END",
		"e", "E", "E5 DEFINITIONS ::= BEGIN A ::= INTEGER END",
		"\nM DEFINITIONS ::= BEGIN\nA ::= )\nEND",
		"\r\nM DEFINITIONS ::= BEGIN\r\nA ::= )\r\nEND",
		"M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a INTEGER DEFAULT 5 , b REAL DEFAULT 1.5E2 } END",
		"M DEFINITIONS ::= BEGIN END",
		"", "*/ M DEFINITIONS ::= BEGIN END", "- M", "/ M", "= BEGIN", ":= BEGIN", "1.5", ".", "/", "*/", "-\n",
	}
}

var histB = []string{"", "B ::= INTEGER", "B ::= BIT STRING { x(1) }", "B ::= UTCTime", "B ::= SET { x C OPTIONAL }", "B ::= C", "B ::= [1] C (1)", "B ::= CHOICE { a [0] INTEGER , b C }", "B ::= CHOICE { a C }", "B ::= IA5String", "B ::= SEQUENCE OF C", "B ::= INTEGER { x(v) }", "B ::= NULL", "B ::= REAL"}
var histC = []string{"", "C ::= INTEGER { x(1) }", "C ::= GeneralizedTime", "C ::= [2] NumericString", "C ::= BIT STRING", "C ::= B", "C ::= SET OF INTEGER", "C ::= SEQUENCE { b B , c ANY }", "C ::= CHOICE { a B , b [1] INTEGER }"}
var histV = []string{"v INTEGER ::= 5", "", "v REAL ::= PLUS-INFINITY", "v B ::= 7"}

// histModules are small modules that define the same names differently.
func histModules(small bool) (out []dynOp) {
	add := func(tags, b, cc, v string) {
		out = append(out, dynOp{0, strings.TrimSpace("M DEFINITIONS " + tags + " ::= BEGIN A ::= SEQUENCE { a B , b [1] C OPTIONAL } " + b + " " + cc + " " + v + " END")})
	}
	for i, b := range histB {
		for j, cc := range histC {
			if small {
				if (i*len(histC)+j)%5 == 0 {
					add("", b, cc, histV[(i+j)%len(histV)])
				}
				continue
			}
			add("", b, cc, histV[(i+j)%len(histV)])
		}
	}
	if !small {
		for _, b := range histB {
			add("IMPLICIT TAGS", b, "C ::= SEQUENCE OF B", "v INTEGER ::= -1")
			out[len(out)-1].Gen = 1
		}
	}
	return out
}

func histDynSpaces(tier string) []*Space {
	priors, laters := histPriors(), histLaters()
	mods, few := histModules(false), histModules(true)
	out := []*Space{
		{Name: "parse-after-parse", Bound: fmt.Sprintf("each of %d texts, ending after and within every lexical item, followed by each of %d texts", len(priors), len(laters)),
			Run: func(c *Ctl) {
				p := priors[c.Choose(len(priors))]
				runDyn(c, []dynOp{{-1, p}, {-1, laters[c.Choose(len(laters))]}})
			}},
		{Name: "generate-after-generate", Bound: fmt.Sprintf("all ordered pairs of generations of %d modules that define the same names differently", len(mods)),
			Run: func(c *Ctl) {
				i := c.Choose(len(mods))
				runDyn(c, []dynOp{mods[i], mods[c.Choose(len(mods))]})
			}},
		{Name: "generate-triples", Bound: fmt.Sprintf("all ordered triples of generations of %d modules that define the same names differently", len(few)),
			Run: func(c *Ctl) {
				i := c.Choose(len(few) * len(few))
				runDyn(c, []dynOp{few[i/len(few)], few[i%len(few)], few[c.Choose(len(few))]})
			}},
	}
	return out
}
