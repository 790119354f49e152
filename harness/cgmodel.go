package main

// Reference model of what is generated for a module: canonical Go types for
// type assignments, values for value assignments, and whether generation has
// to succeed or to fail. It works on the AST and knows nothing of codegen.go.

import (
	"fmt"
	"math"
	"strings"

	a "github.com/chemikadze/asn1go"
)

type cgModel struct {
	m       *a.ModuleDefinition
	bigInt  bool
	bad     bool // something that must be generated is not supported: generation has to fail
	lenient bool // no claim whether generation fails
	why     string
	depth   int
	badInt  bool // the INTEGER representation is unknown
}

func goName(s string) string {
	s = strings.ReplaceAll(s, "-", "_")
	if s != "" && s[0] >= 'a' && s[0] <= 'z' {
		s = string(s[0]-32) + s[1:]
	}
	return s
}

func (g *cgModel) fail(format string, args ...interface{}) {
	if !g.bad {
		g.why = fmt.Sprintf(format, args...)
	}
	g.bad = true
}

func stripWrap(t a.Type) a.Type {
	for {
		switch x := t.(type) {
		case a.TaggedType:
			t = x.Type
		case a.ConstraintedType:
			t = x.Type
		default:
			return t
		}
	}
}

func (g *cgModel) lookup(name string) (a.Type, bool) {
	for _, x := range g.m.ModuleBody.AssignmentList {
		if x.Reference().Name() == name {
			if ta, ok := x.(a.TypeAssignment); ok {
				return ta.Type, true
			}
			return nil, false
		}
	}
	return nil, false
}

func (g *cgModel) value(name string) (a.Value, bool) {
	for _, x := range g.m.ModuleBody.AssignmentList {
		if x.Reference().Name() == name {
			if va, ok := x.(a.ValueAssignment); ok {
				return va.Value, true
			}
			return nil, false
		}
	}
	return nil, false
}

// leaf follows a reference to the definition that is not a reference; it
// yields its name and type, or the name of a useful type and nil, or "".
func (g *cgModel) leaf(r a.TypeReference) (string, a.Type) {
	seen := map[string]bool{}
	n := string(r)
	for {
		t, ok := g.lookup(n)
		if !ok {
			if n == "GeneralizedTime" || n == "UTCTime" {
				return n, nil
			}
			return "", nil
		}
		if seen[n] {
			return "", nil
		}
		seen[n] = true
		x, isRef := stripWrap(t).(a.TypeReference)
		if !isRef {
			return n, t
		}
		n = string(x)
	}
}

// leafType is the type without tags, constraints and references (nil if undefined; a.TypeReference for times).
func (g *cgModel) leafType(t a.Type) a.Type {
	t = stripWrap(t)
	if r, ok := t.(a.TypeReference); ok {
		n, lt := g.leaf(r)
		if n == "" {
			return nil
		}
		if lt == nil {
			return a.TypeReference(n)
		}
		return stripWrap(lt)
	}
	return t
}

// tagged tells whether a tag occurs on the type, through references and constraints.
func (g *cgModel) tagged(t a.Type) bool {
	seen := map[string]bool{}
	for {
		switch x := t.(type) {
		case a.TaggedType:
			return true
		case a.ConstraintedType:
			t = x.Type
		case a.TypeReference:
			d, ok := g.lookup(string(x))
			if !ok {
				if x != "GeneralizedTime" && x != "UTCTime" {
					g.fail("alternative refers to undefined %s", x)
				}
				return false
			}
			if seen[string(x)] {
				g.fail("alternative is circular")
				return false
			}
			seen[string(x)] = true
			t = d
		default:
			return false
		}
	}
}

// shape: how a type is represented: its canonical Go type, whether it is a set, and whether its body is a struct.
func (g *cgModel) shape(t a.Type) (canon string, set, strct bool) {
	g.depth++
	defer func() { g.depth-- }()
	if g.depth > 2000 {
		g.lenient = true
		return "?", false, false
	}
	switch x := t.(type) {
	case a.BooleanType:
		return "bool", false, false
	case a.IntegerType:
		if g.badInt {
			g.fail("unknown integer representation")
			return "?", false, false
		}
		if g.bigInt {
			return "*math/big.Int", false, false
		}
		return "int64", false, false
	case a.CharacterStringType, a.RestrictedStringType:
		return "string", false, false
	case a.RealType:
		return "float64", false, false
	case a.OctetStringType:
		return "[]uint8", false, false
	case a.BitStringType:
		return "encoding/asn1.BitString", false, false
	case a.EnumeratedType:
		return "encoding/asn1.Enumerated", false, false
	case a.AnyType:
		return "any", false, false
	case a.ObjectIdentifierType:
		return "encoding/asn1.ObjectIdentifier", false, false
	case a.SequenceType:
		return g.strct(x.Components, x.ExtensionAdditions), false, true
	case a.SetType:
		return g.strct(x.Components, x.ExtensionAdditions), true, true
	case a.SequenceOfType:
		e, _, _ := g.shape(x.Type)
		return "[]" + e, false, false
	case a.SetOfType:
		e, _, _ := g.shape(x.Type)
		return "[]" + e, true, false
	case a.TaggedType:
		return g.shape(x.Type)
	case a.ConstraintedType:
		return g.shape(x.Type)
	case a.ChoiceType:
		tagged, undefined := false, false
		for _, alt := range x.AlternativeTypeList {
			sub := &cgModel{m: g.m}
			if sub.tagged(alt.Type) {
				tagged = true
			}
			undefined = undefined || sub.bad
		}
		if undefined {
			if tagged {
				g.lenient = true
			} else {
				g.fail("CHOICE refers to undefined types")
			}
		}
		if tagged {
			return "encoding/asn1.RawValue", false, false
		}
		if len(x.AlternativeTypeList) == 1 {
			return g.shape(x.AlternativeTypeList[0].Type)
		}
		return "any", false, false
	case a.TypeReference:
		return g.refCanon(string(x)), false, false
	case nil:
		g.lenient = true
		return "?", false, false
	default: // NULL, named elements
		g.fail("%T is not supported", t)
		return "?", false, false
	}
}

func (g *cgModel) strct(cs a.ComponentTypeList, ext a.ExtensionAdditions) string {
	var b strings.Builder
	b.WriteString("{")
	one := func(c interface{}) {
		switch f := c.(type) {
		case a.NamedComponentType:
			t, _, _ := g.shape(f.NamedType.Type)
			b.WriteString(goName(string(f.NamedType.Identifier)) + " " + t + ";")
			g.checkTag(f.NamedType.Type)
		default:
			g.fail("COMPONENTS OF is not supported")
		}
	}
	for _, c := range cs {
		one(c)
	}
	for _, c := range ext {
		one(c)
	}
	b.WriteString("}")
	return b.String()
}

// checkTag: tags of components need literal numbers.
func (g *cgModel) checkTag(t a.Type) {
	for {
		switch x := t.(type) {
		case a.TaggedType:
			if _, ok := x.Tag.ClassNumber.(a.Number); !ok {
				g.fail("tag number is not a literal")
			}
			if x.HasTagType && x.TagType == a.TAGS_AUTOMATIC {
				g.fail("automatic tag")
			}
			t = x.Type
		case a.ConstraintedType:
			t = x.Type
		default:
			return
		}
	}
}

// refCanon is the canonical Go type that a reference denotes.
func (g *cgModel) refCanon(name string) string {
	n, t := g.leaf(a.TypeReference(name))
	switch {
	case n == "":
		g.fail("reference %s leads to no definition", name)
		return "?"
	case t == nil:
		return "time.Time"
	}
	sub := &cgModel{m: g.m, bigInt: g.bigInt, depth: g.depth} // its own definition reports its errors
	c, set, st := sub.shape(t)
	switch {
	case set:
		return "@" + goName(n) + "SET"
	case st:
		return "@" + goName(n)
	}
	return c
}

type cgValue struct {
	name string
	typ  string // canonical
	kind string // bool int real
	b    bool
	i    int64
	f    float64
}

type cgExpect struct {
	types  map[string]string // Go name -> canonical type ("@X" for defined types)
	bodies map[string]string // defined type -> canonical underlying type
	values []cgValue
	fail   bool
	maybe  bool
	why    string

	recursive bool
}

// expect computes what generation has to yield.
func expectGen(m *a.ModuleDefinition, bigInt, badInt bool) *cgExpect {
	g := &cgModel{m: m, bigInt: bigInt, badInt: badInt}
	e := &cgExpect{types: map[string]string{}, bodies: map[string]string{}}
	if m.TagDefault == a.TAGS_AUTOMATIC {
		g.fail("AUTOMATIC TAGS")
	}
	if recursiveModule(m) {
		// out of scope unless a chain of references is circular: generation has to terminate
		for _, as := range m.ModuleBody.AssignmentList {
			if ta, ok := as.(a.TypeAssignment); ok {
				if r, isRef := stripWrap(ta.Type).(a.TypeReference); isRef {
					if n, _ := g.leaf(r); n == "" {
						g.fail("%s leads to no definition", ta.TypeReference)
					}
				}
			}
		}
		e.fail, e.maybe, e.recursive, e.why = g.bad, true, true, g.why
		return e
	}
	for _, as := range m.ModuleBody.AssignmentList {
		switch x := as.(type) {
		case a.TypeAssignment:
			n := goName(string(x.TypeReference))
			c, set, st := g.shape(x.Type)
			_, isRef := stripWrap(x.Type).(a.TypeReference)
			switch {
			case isRef:
				e.types[n] = c
			case set:
				e.types[n+"SET"] = "@" + n + "SET"
				e.types[n] = "@" + n + "SET"
				e.bodies[n+"SET"] = c
			case st:
				e.types[n] = "@" + n
				e.bodies[n] = c
			default:
				e.types[n] = c
			}
			if it, ok := stripWrap(x.Type).(a.IntegerType); ok {
				for _, nn := range it.NamedNumberList {
					v := cgValue{name: n + "Val" + goName(string(nn.Name)), typ: c, kind: "int"}
					switch w := nn.Value.(type) {
					case a.Number:
						v.i = int64(w)
					case a.DefinedValue:
						if w.ModuleName != "" {
							g.fail("named number refers to another module")
							break
						}
						val, ok := g.value(string(w.ValueName))
						num, isNum := val.(a.Number)
						if !ok || !isNum {
							g.fail("named number refers to %s, which is no literal integer", w.ValueName)
							break
						}
						v.i = int64(num)
					}
					e.values = append(e.values, v)
				}
			}
			// number lists elsewhere: not generated, so unresolvable ones may or may not be reported
		case a.ValueAssignment:
			n := "Val" + goName(string(x.ValueReference))
			switch v := x.Value.(type) {
			case a.Number:
				c, _, _ := g.shape(x.Type)
				if c == "float64" {
					e.values = append(e.values, cgValue{name: n, typ: c, kind: "real", f: float64(v)})
				} else {
					e.values = append(e.values, cgValue{name: n, typ: c, kind: "int", i: int64(v)})
				}
			case a.Boolean:
				c, _, _ := g.shape(x.Type)
				e.values = append(e.values, cgValue{name: n, typ: c, kind: "bool", b: bool(v)})
			case a.Real:
				c, _, _ := g.shape(x.Type)
				e.values = append(e.values, cgValue{name: n, typ: c, kind: "real", f: float64(v)})
			default:
				// other values are not generated
				sub := &cgModel{m: m, bigInt: bigInt}
				sub.shape(x.Type)
				if sub.bad || sub.lenient {
					g.lenient = true
				}
			}
		}
	}
	e.fail, e.maybe, e.why = g.bad, g.lenient, g.why
	return e
}

func sameReal(x, y float64) bool { return x == y || math.IsNaN(x) && math.IsNaN(y) }

// typeRefs lists every reference in a type.
func typeRefs(t a.Type, out []string) []string {
	comp := func(c interface{}) {
		switch f := c.(type) {
		case a.NamedComponentType:
			out = typeRefs(f.NamedType.Type, out)
		case a.ComponentsOfComponentType:
			out = typeRefs(f.Type, out)
		}
	}
	switch x := t.(type) {
	case a.TypeReference:
		out = append(out, string(x))
	case a.TaggedType:
		out = typeRefs(x.Type, out)
	case a.ConstraintedType:
		out = typeRefs(x.Type, out)
	case a.SequenceType:
		for _, c := range x.Components {
			comp(c)
		}
		for _, c := range x.ExtensionAdditions {
			comp(c)
		}
	case a.SetType:
		for _, c := range x.Components {
			comp(c)
		}
		for _, c := range x.ExtensionAdditions {
			comp(c)
		}
	case a.SequenceOfType:
		out = typeRefs(x.Type, out)
	case a.SetOfType:
		out = typeRefs(x.Type, out)
	case a.NamedType:
		out = typeRefs(x.Type, out)
	case a.ChoiceType:
		for _, c := range x.AlternativeTypeList {
			out = typeRefs(c.Type, out)
		}
		for _, c := range x.ExtensionTypes {
			if n, ok := c.(a.NamedType); ok {
				out = typeRefs(n.Type, out)
			}
		}
	}
	return out
}

// recursiveModule tells whether some type contains itself.
func recursiveModule(m *a.ModuleDefinition) bool {
	edges := map[string][]string{}
	for _, as := range m.ModuleBody.AssignmentList {
		if ta, ok := as.(a.TypeAssignment); ok {
			n := string(ta.TypeReference)
			if _, dup := edges[n]; !dup {
				edges[n] = typeRefs(ta.Type, nil)
			}
		}
	}
	state := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		switch state[n] {
		case 1:
			return true
		case 2:
			return false
		}
		state[n] = 1
		for _, x := range edges[n] {
			if visit(x) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for n := range edges {
		if visit(n) {
			return true
		}
	}
	return false
}
