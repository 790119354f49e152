package main

import (
	"bytes"
	"fmt"
	"reflect"

	a "github.com/chemikadze/asn1go"
)

// Histories in which the caller changes what it owns between the calls: lists that are looked up, modules that were
// parsed or generated.

// rewrittenSpace: a list is looked up, then its memory is given other elements, and it is looked up again.
func rewrittenSpace(n int) *Space {
	names := []string{"A", "a", "B"}
	looked := []string{"A", "a", "B", "b"}
	item := func(x, version int) a.Assignment {
		nm := names[x/2]
		if x%2 == 0 {
			return a.TypeAssignment{TypeReference: a.TypeReference(nm), Type: a.TypeReference(fmt.Sprintf("T%d", version))}
		}
		return a.ValueAssignment{ValueReference: a.ValueReference(nm), Type: a.IntegerType{}, Value: a.Number(version)}
	}
	return &Space{Name: "rewritten", Bound: fmt.Sprintf("every list of 1 to %d assignments over %d names x {type, value}, looked up, then overwritten in place by every other one of 1 to %d, which is looked up, and the first one again", n, len(names), n), Run: func(c *Ctl) {
		backing := make(a.AssignmentList, n)
		lists := make([][]int, 2)
		for i := range lists {
			for k := 1 + c.Choose(n); k > 0; k-- {
				lists[i] = append(lists[i], c.Choose(2*len(names)))
			}
		}
		desc := fmt.Sprintf("%v (2*name+kind), then %v in its place, then the first again", lists[0], lists[1])
		c.Input(desc)
		for round := 0; round < 3; round++ {
			for i := range backing {
				backing[i] = nil
			}
			items := lists[round%2]
			for i, x := range items {
				backing[i] = item(x, 10*round+i)
			}
			lookups(c, backing[:len(items)], looked, fmt.Sprintf("%s: round %d", desc, round+1))
		}
	}}
}

// slots lists everything in a module that a caller can assign to: elements of slices, targets of pointers and the
// fields of the module itself, with a function that puts something else there.
type slot struct {
	path string
	set  func()
}

func slots(path string, v reflect.Value, out *[]slot) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			slots(path, v.Elem(), out)
		}
		return
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.CanSet() {
			*out = append(*out, slot{path, func() { v.Set(reflect.Zero(v.Type())) }})
		}
		slots(path, v.Elem(), out)
		return
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				slots(path+"."+f.Name, v.Field(i), out)
			}
		}
		return
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			slots(fmt.Sprintf("%s[%d]", path, i), v.Index(i), out)
		}
		if v.CanSet() && v.Len() > 0 {
			*out = append(*out, slot{path + " cut", func() { v.Set(v.Slice(0, v.Len()-1)) }})
		}
		return
	}
	if !v.CanSet() {
		return
	}
	*out = append(*out, slot{path, func() {
		switch v.Kind() {
		case reflect.String:
			v.SetString("X" + v.String())
		case reflect.Bool:
			v.SetBool(!v.Bool())
		case reflect.Int:
			v.SetInt(v.Int() + 1)
		case reflect.Float64:
			v.SetFloat(v.Float() + 1)
		}
	}})
}

func parsedSlots(text string) (*a.ModuleDefinition, []slot) {
	m, err := a.ParseString(text)
	if err != nil || m == nil {
		return nil, nil
	}
	var s []slot
	slots("module", reflect.ValueOf(m), &s)
	return m, s
}

// mutateTexts are accepted and have every kind of definition.
func mutateTexts() []string {
	var out []string
	for _, t := range historyTexts {
		if m, _ := a.ParseString(t.text); m != nil {
			out = append(out, t.text)
		}
	}
	return append(out,
		"M DEFINITIONS ::= BEGIN END",
		"M {a 1 b(2)} DEFINITIONS IMPLICIT TAGS EXTENSIBILITY IMPLIED ::= BEGIN IMPORTS B , c FROM N {1 d} ; A ::= [APPLICATION 3] SEQUENCE (SIZE (0<..<MAX | 4 ^ 5, ...)) OF b INTEGER { x(-1) , y(z) } z INTEGER ::= 3 END",
		"M DEFINITIONS ::= BEGIN A ::= CHOICE { a [1] NULL, b B, ..., c ANY DEFINED BY d } B ::= SET { a ENUMERATED { p, q(2) }, b BIT STRING { r(0) } DEFAULT 1, c OBJECT IDENTIFIER DEFAULT { 1 2 x(y) } } END")
}

func generated(g a.CodeGenerator, m a.ModuleDefinition) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	var b bytes.Buffer
	err := g.Generate(m, &b)
	return fmt.Sprintf("%v\n%s", err, b.String())
}

// ownedSpace: what the caller does to a module it got changes no other module and no later call.
func ownedSpace() *Space {
	texts := mutateTexts()
	wants, counts := make([]string, len(texts)), make([]int, len(texts))
	for i, t := range texts {
		if m, sl := parsedSlots(t); m != nil {
			wants[i], counts[i] = dumpAST(*m), len(sl)
		}
	}
	return &Space{Name: "owned", Bound: fmt.Sprintf("each of %d modules x every place in it that can be assigned to: parsed, changed there, parsed again; two copies, one of them changed; with and without generating in between", len(texts)), Run: func(c *Ctl) {
		x := c.Choose(len(texts))
		text, want := texts[x], wants[x]
		if counts[x] == 0 {
			return
		}
		y := c.Choose(counts[x])
		before, _ := a.ParseString(text)
		m, sl := parsedSlots(text)
		if before == nil || len(sl) != counts[x] || dumpAST(*before) != want {
			c.Input(fmt.Sprintf("%q, after another module of that text was changed", text))
			c.Fail("the text does not parse to the same module again after the caller changed the modules of earlier calls")
			return
		}
		s := sl[y]
		g := a.NewCodeGenerator(a.GenParams{})
		gen := c.Bool()
		ref := ""
		if gen {
			ref = generated(g, *m)
		}
		c.Input(fmt.Sprintf("%q: %s is changed", text, s.path))
		s.set()
		c.Outcome(s.path)
		if got := dumpAST(*before); got != want {
			c.Fail("a change of one module at %s changed another one\n--- parsed\n%s\n--- now\n%s", s.path, clip(want, 1500), clip(got, 1500))
		}
		again, err := a.ParseString(text)
		if err != nil || again == nil {
			c.Fail("the same text is refused after a change of the module: %v", err)
		} else if got := dumpAST(*again); got != want {
			c.Fail("the same text parses to another module after a change of the first one at %s\n--- first\n%s\n--- now\n%s", s.path, clip(want, 1500), clip(got, 1500))
		}
		if gen {
			if got := generated(g, *again); got != ref {
				c.Fail("the same text generates something else after a change of an earlier module at %s\n--- first\n%s\n--- now\n%s", s.path, clip(ref, 1500), clip(got, 1500))
			}
		}
	}}
}

// regeneratedSpace: a module is generated, overwritten in place, and generated again.
func regeneratedSpace() *Space {
	texts := mutateTexts()
	for _, o := range histModules(true) {
		texts = append(texts, o.Text)
	}
	return &Space{Name: "regenerated", Bound: fmt.Sprintf("every ordered pair of %d modules: the first is generated, its memory gets the content of the second, it is generated again, and the same back, with one generator or two", len(texts)), Run: func(c *Ctl) {
		x := c.Choose(len(texts) * len(texts))
		t1, t2 := texts[x/len(texts)], texts[x%len(texts)]
		two := c.Bool()
		c.Input(fmt.Sprintf("%q, then %q in its place, two generators: %v", t1, t2, two))
		m1, _ := a.ParseString(t1)
		m2, _ := a.ParseString(t2)
		if m1 == nil || m2 == nil {
			return
		}
		g := a.NewCodeGenerator(a.GenParams{})
		h := g
		if two {
			h = a.NewCodeGenerator(a.GenParams{})
		}
		l1, l2 := m1.ModuleBody.AssignmentList, m2.ModuleBody.AssignmentList
		backing := make(a.AssignmentList, len(l1)+len(l2))
		var seen [2]string
		for round := 0; round < 4; round++ {
			from, l := m1, l1
			if round%2 == 1 {
				from, l = m2, l2
			}
			for i := range backing {
				backing[i] = nil
			}
			copy(backing, l)
			m := *from
			m.ModuleBody.AssignmentList = backing[:len(l)]
			if round == 3 {
				g = h
			}
			out := generated(g, m)
			text := t1
			if round%2 == 1 {
				text = t2
			}
			if want := (dynOp{0, text}).fresh(); out != want {
				c.Fail("generation %d differs from that of the same module in a fresh process\n--- fresh\n%s\n--- here\n%s", round+1, clip(want, 1200), clip(out, 1200))
			}
			seen[round%2] = out
			c.Steps(1)
		}
		c.Outcome(clip(seen[0]+seen[1], 200))
	}}
}
