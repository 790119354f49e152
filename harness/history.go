package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	a "github.com/chemikadze/asn1go"
)

// C15: call histories. Every operation's result is compared with the result
// the same operation has as the first call of a fresh process.

var historyTexts = []struct{ name, text string }{
	{"m1", "M DEFINITIONS ::= BEGIN\nA ::= SEQUENCE { a INTEGER, b BIT STRING OPTIONAL, c GeneralizedTime, d B }\nB ::= SET { x INTEGER { one(1), two(2) }, y REAL DEFAULT 1.5 }\nv REAL ::= PLUS-INFINITY\nEND"},
	{"m2", "M DEFINITIONS IMPLICIT TAGS ::= BEGIN\n\nA ::= [1] B\nB ::= SEQUENCE OF C\nC ::= CHOICE { p [0] INTEGER, q BOOLEAN }\nv INTEGER ::= -5\nEND"},
	{"syntax", "M DEFINITIONS ::= BEGIN\nA ::= SEQUENCE { a INTEGER }\n\n\nB ::= SEQUENCE { a INTEGER DEFAULT 7, b OBJECT IDENTIFIER DEFAULT {1 2 x} , }\nEND"},
	{"lexical", "M DEFINITIONS ::= BEGIN\n\n\n\n\nA ::= INTEGER (1..5) /* open /* nested */\nEND"},
	{"null", "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a NULL, b GeneralizedTime } B ::= REAL v B ::= MINUS-INFINITY END"},
	{"automatic", "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= SEQUENCE { a INTEGER } END"},
	{"values", "O {iso 1 b(2)} DEFINITIONS EXPLICIT TAGS ::= BEGIN EXPORTS ALL; IMPORTS T, u FROM X {1 2} w FROM Y ;\nA ::= SEQUENCE { a INTEGER DEFAULT 5, b BOOLEAN DEFAULT TRUE, ..., c UTF8String DEFAULT \"x\" }\nv INTEGER ::= 1 w BOOLEAN ::= FALSE x REAL ::= -2.25 o OBJECT IDENTIFIER ::= {iso 3 w(4)}\nEND"},
	{"circular", "M DEFINITIONS ::= BEGIN A ::= B B ::= A C ::= SEQUENCE { c A } END"},
	{"sets", "N DEFINITIONS IMPLICIT TAGS EXTENSIBILITY IMPLIED ::= BEGIN\nB ::= SET OF INTEGER (0<..MAX | 4 ^ 5 EXCEPT 6)\nA ::= SEQUENCE { z B, y A2, x ANY, w CHOICE { only UTCTime } }\nA2 ::= [APPLICATION 3] EXPLICIT BIT STRING\nEND"},
}

type histOp struct {
	kind string // parse, gen, readfail, get
	text int
	gen  int
}

var histGens = []struct {
	name   string
	params a.GenParams
}{
	{"default", a.GenParams{}},
	{"bigint", a.GenParams{Package: "pkg", IntegerRepr: a.IntegerReprBigInt}},
	{"bad", a.GenParams{IntegerRepr: "int128"}},
}

func histOps() []histOp {
	var out []histOp
	for i := range historyTexts {
		out = append(out, histOp{"parse", i, 0})
	}
	out = append(out, histOp{"readfail", 0, 0}, histOp{"readfail", 2, 0})
	for i, t := range historyTexts {
		switch t.name {
		case "syntax", "lexical":
			continue
		}
		out = append(out, histOp{"gen", i, 0})
		if t.name != "automatic" && t.name != "circular" {
			out = append(out, histOp{"gen", i, 1})
		}
	}
	out = append(out, histOp{"gen", 0, 2}, histOp{"shortwrite", 0, 0})
	return out
}

func (o histOp) String() string {
	s := o.kind + " " + historyTexts[o.text].name
	if o.kind == "gen" {
		s += " with " + histGens[o.gen].name
	}
	return s
}

// histState is what survives between the calls of one history.
type histState struct {
	mods map[int]*a.ModuleDefinition
	gens map[int]a.CodeGenerator
}

func newHistState() *histState {
	return &histState{map[int]*a.ModuleDefinition{}, map[int]a.CodeGenerator{}}
}

func (h *histState) gen(i int) a.CodeGenerator {
	if h.gens[i] == nil {
		h.gens[i] = a.NewCodeGenerator(histGens[i].params)
	}
	return h.gens[i]
}

// do performs the operation and renders everything it returned.
func (h *histState) do(o histOp) string {
	text := historyTexts[o.text].text
	switch o.kind {
	case "parse":
		m, err := a.ParseString(text)
		if m != nil {
			h.mods[o.text] = m
		}
		return renderParse(m, err)
	case "readfail":
		m, err := a.ParseStream(&failingAt{data: text, at: len(text) * 2 / 3})
		return renderParse(m, err)
	}
	m := h.mods[o.text]
	if m == nil {
		m, _ = a.ParseString(text)
		if m == nil {
			return "unusable module"
		}
		h.mods[o.text] = m
	}
	if o.kind == "shortwrite" {
		w := &limitWriter{limit: 60}
		err := h.gen(o.gen).Generate(*m, w)
		return fmt.Sprintf("%v\n%s", err, w.b.String())
	}
	var b bytes.Buffer
	err := h.gen(o.gen).Generate(*m, &b)
	return fmt.Sprintf("%v\n%s", err, b.String())
}

type failingAt struct {
	data string
	at   int
	pos  int
}

func (f *failingAt) Read(p []byte) (int, error) {
	if f.pos >= f.at {
		return 0, fmt.Errorf("device lost")
	}
	n := copy(p, f.data[f.pos:f.at])
	f.pos += n
	return n, nil
}

type limitWriter struct {
	b     bytes.Buffer
	limit int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if k := w.limit - w.b.Len(); len(p) > k {
		w.b.Write(p[:k])
		return k, fmt.Errorf("device full")
	}
	return w.b.Write(p)
}

func renderParse(m *a.ModuleDefinition, err error) string {
	s := fmt.Sprintf("error %v\n", err)
	if m != nil {
		s += dumpAST(*m)
	}
	return s
}

// dumpAST renders exported content; nil and empty slices are the same.
func dumpAST(x interface{}) string {
	var b strings.Builder
	dumpVal(&b, reflect.ValueOf(x))
	return b.String()
}

func dumpVal(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			b.WriteByte('&')
		}
		dumpVal(b, v.Elem())
	case reflect.Struct:
		t := v.Type()
		b.WriteString(t.Name())
		b.WriteByte('{')
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" && !t.Field(i).Anonymous {
				continue
			}
			b.WriteString(t.Field(i).Name)
			b.WriteByte(':')
			dumpVal(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		b.WriteString(v.Type().Name())
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dumpVal(b, v.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			dumpVal(&kb, k)
			kb.WriteByte('=')
			dumpVal(&kb, v.MapIndex(k))
			ks = append(ks, kb.String())
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
	case reflect.String:
		b.WriteString(v.Type().Name())
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
		b.WriteString(v.Type().Name())
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Float64, reflect.Float32:
		b.WriteString(v.Type().Name())
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Func, reflect.Chan:
		b.WriteString("opaque")
	default:
		b.WriteString(v.String())
	}
}

// freshResult performs one operation as the first call of a new process.
func init() {
	subs["histop"] = func(args []string) int {
		i, _ := strconv.Atoi(args[0])
		b, _ := json.Marshal(newHistState().do(histOps()[i]))
		os.Stdout.Write(b)
		return 0
	}
	var once sync.Once
	var refs []string
	var dumps map[int]string
	load := func() {
		ops := histOps()
		refs = make([]string, len(ops))
		dumps = map[int]string{}
		for i, o := range ops {
			out, err := exec.Command(os.Args[0], "sub", "histop", strconv.Itoa(i)).Output()
			if err == nil {
				err = json.Unmarshal(out, &refs[i])
			}
			if err != nil {
				refs[i] = fmt.Sprintf("fresh process: %v", err)
			}
			if o.kind == "parse" {
				dumps[o.text] = refs[i]
			}
		}
	}
	run := func(c *Ctl, seq []histOp, idx []int) {
		once.Do(load)
		h := newHistState()
		var names []string
		for _, o := range seq {
			names = append(names, o.String())
		}
		c.Input(strings.Join(names, "; "))
		for k, o := range seq {
			got := h.do(o)
			if got != refs[idx[k]] {
				c.Fail("call %d (%s) differs from the same call in a fresh process after %q\n--- fresh\n%s\n--- here\n%s", k+1, o, strings.Join(names[:k], "; "), clip(refs[idx[k]], 1500), clip(got, 1500))
			}
			c.Steps(1)
		}
		var ks []int
		for t := range h.mods {
			ks = append(ks, t)
		}
		sort.Ints(ks)
		for _, t := range ks {
			if got := renderParse(h.mods[t], nil); got != dumps[t] {
				c.Fail("the module of %s was changed by later calls: %s\n--- parsed\n%s\n--- now\n%s", historyTexts[t].name, strings.Join(names, "; "), clip(dumps[t], 1500), clip(got, 1500))
			}
		}
		if len(idx) > 0 {
			c.Outcome(refs[idx[len(idx)-1]])
		}
	}
	space := func(depth int) *Space {
		ops := histOps()
		n := len(ops)
		return &Space{
			Name:  fmt.Sprintf("histories-%d", depth),
			Bound: fmt.Sprintf("all sequences of %d calls from %d operations on %d texts", depth, n, len(historyTexts)),
			Run: func(c *Ctl) {
				var idx []int
				if depth >= 2 {
					x := c.Choose(n * n)
					idx = append(idx, x/n, x%n)
				} else {
					idx = append(idx, c.Choose(n))
				}
				for len(idx) < depth {
					idx = append(idx, c.Choose(n))
				}
				var seq []histOp
				for _, i := range idx {
					seq = append(seq, ops[i])
				}
				run(c, seq, idx)
			},
		}
	}
	repeat := &Space{
		Name:  "repeated",
		Bound: "each operation 300 times in a row, and each alternated 100 times with every other",
		Run: func(c *Ctl) {
			ops := histOps()
			x := c.Choose(len(ops) * len(ops))
			i, j := x/len(ops), x%len(ops)
			var seq []histOp
			var idx []int
			n := 100
			if i == j {
				n = 150
			}
			for k := 0; k < n; k++ {
				seq = append(seq, ops[i], ops[j])
				idx = append(idx, i, j)
			}
			run(c, seq, idx)
		},
	}
	register(&Check{
		ID: "C15", Level: "model_checking", Sharded: true,
		Rule:        "one path per call history; every result is compared with that of the same call in a fresh process, and every module returned earlier with what it was",
		Assumptions: []string{"the operations act on a fixed set of texts that covers every statement kind, successes and failures", "unexported fields of results are not observed"},
		Spaces: func(tier string) []*Space {
			out := []*Space{space(1), space(2), space(3), repeat}
			out = append(out, histDynSpaces(tier)...)
			out = append(out, ownedSpace(), regeneratedSpace())
			out = append(out, space(4))
			pure, dev, n, wrap := cgJudge{pure: true}, 2, 3, 1
			if tier == "thorough" {
				dev, n, wrap = 3, 4, 2
			}
			out = append(out,
				derivedModules("pure-modules", pure, dev, 3, 3, true, "types"),
				derivedModules("pure-structures", pure, dev, 3, 1, true, "struct"),
				derivedModules("pure-values", pure, dev+1, 1, 2, false, "values"),
				derivedModules("pure-choices", pure, dev, 3, 1, true, "choice"),
				named("pure-components", wideSpace(pure, n)),
				named("pure-sizes", sizesSpace(pure, 8*(dev-1), 257*(dev-1))),
				named("pure-twins", twinsSpace(pure)),
				named("pure-nesting", nestedSpace(pure, wrap, cgPlain)),
				named("pure-examples", exampleGenSpace(pure)))
			if tier == "thorough" {
				out = append(out, space(5))
			}
			return out
		},
	})
}

// named gives a space another name.
func named(name string, s *Space) *Space {
	s.Name = name
	return s
}
