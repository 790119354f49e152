package main

// C11: generated types under encoding/asn1 against the reference DER encoder.

import (
	"bytes"
	"encoding/asn1"
	"errors"
	"fmt"
	"go/types"
	"reflect"
	"strings"

	a "github.com/chemikadze/asn1go"
)

var derPrelude = []preludeDef{
	{"In", "In ::= INTEGER", ""},
	{"Bo", "Bo ::= BOOLEAN", ""},
	{"En", "En ::= ENUMERATED { a , b }", ""},
	{"Os", "Os ::= OCTET STRING", ""},
	{"Bi", "Bi ::= BIT STRING", ""},
	{"Oi", "Oi ::= OBJECT IDENTIFIER", ""},
	{"Ia", "Ia ::= IA5String", ""},
	{"Ut8", "Ut8 ::= UTF8String", ""},
	{"Nu", "Nu ::= NumericString", ""},
	{"Pr", "Pr ::= PrintableString", ""},
	{"Ti", "Ti ::= GeneralizedTime", ""},
	{"Ut", "Ut ::= UTCTime", ""},
	{"Se", "Se ::= SEQUENCE { a INTEGER , b [0] IA5String OPTIONAL , ... , c UTF8String }", ""},
	{"St", "St ::= SET { a INTEGER , b NumericString , c [3] EXPLICIT Ut OPTIONAL }", "Ut"},
	{"So", "So ::= SEQUENCE OF INTEGER", ""},
	{"To", "To ::= SET OF INTEGER", ""},
	{"Tos", "Tos ::= SET OF OCTET STRING", ""},
	{"Tse", "Tse ::= SET OF SEQUENCE { a INTEGER , b BOOLEAN }", ""},
	{"ChU", "ChU ::= CHOICE { a INTEGER , b OCTET STRING }", ""},
	{"ChT", "ChT ::= CHOICE { a [0] INTEGER , b [1] EXPLICIT IA5String }", ""},
	{"Ch1", "Ch1 ::= CHOICE { a INTEGER }", ""},
	{"Ch1i", "Ch1i ::= CHOICE { a IA5String }", ""},
	{"Ch1t", "Ch1t ::= CHOICE { a Ti }", "Ti"},
	{"Ch1s", "Ch1s ::= CHOICE { a SET { x INTEGER } }", ""},
	{"Ch1o", "Ch1o ::= CHOICE { a To }", "To"},
	{"An", "An ::= ANY", ""},
	{"RIa", "RIa ::= Ia (SIZE (1..9))", "Ia"},
	{"RRIa", "RRIa ::= RIa", "RIa"},
	{"RUt8", "RUt8 ::= Ut8", "Ut8"},
	{"RNu", "RNu ::= Nu (SIZE (1)) (SIZE (2))", "Nu"},
	{"RTi", "RTi ::= Ti", "Ti"},
	{"RRTi", "RRTi ::= RTi (1)", "RTi"},
	{"RUt", "RUt ::= Ut", "Ut"},
	{"RBi", "RBi ::= Bi (SIZE (9))", "Bi"},
	{"RSe", "RSe ::= Se", "Se"},
	{"RSt", "RSt ::= St (1)", "St"},
	{"RTo", "RTo ::= To", "To"},
	{"RSo", "RSo ::= So (SIZE (1..2))", "So"},
	{"RIn", "RIn ::= In (0..5)", "In"},
	{"RCh", "RCh ::= ChU", "ChU"},
	{"RCh1i", "RCh1i ::= Ch1i", "Ch1i"},
}

var derPreludeBy = func() map[string]preludeDef {
	m := map[string]preludeDef{}
	for _, p := range derPrelude {
		m[p.name] = p
	}
	return m
}()

// the first ones are those used in the reduced spaces
var derInline = []string{"INTEGER", "IA5String", "SET { a BOOLEAN , b INTEGER }", "GeneralizedTime", "SET OF INTEGER", "UTF8String", "SEQUENCE { a INTEGER , b [0] BOOLEAN OPTIONAL }", "BIT STRING", "CHOICE { a INTEGER , b OCTET STRING }",
	"BOOLEAN", "ENUMERATED { a , b }", "OCTET STRING", "BIT STRING { x(0) }", "OBJECT IDENTIFIER", "NumericString", "PrintableString", "UTCTime",
	"SEQUENCE OF INTEGER", "SET SIZE (1..9) OF OCTET STRING", "SEQUENCE OF SEQUENCE { a INTEGER , b [1] Ti }", "SEQUENCE OF BIT STRING", "SEQUENCE OF To", "SEQUENCE OF UTCTime", "SET OF SEQUENCE { a [1] IMPLICIT INTEGER DEFAULT 7 }",
	"ANY", "CHOICE { a [0] INTEGER , b [1] EXPLICIT BOOLEAN }", "CHOICE { a INTEGER }", "CHOICE { a IA5String }", "CHOICE { a UTCTime }", "CHOICE { a SET { x INTEGER , y Ia } }", "CHOICE { a SET OF INTEGER }", "CHOICE { a Ti }", "CHOICE { a RIa (SIZE (1)) }", "CHOICE { a CHOICE { a NumericString } }",
	"SEQUENCE { a SET { b [2] Ia , c [3] Nu } , d [1] St }", "INTEGER { p(1) }", "SEQUENCE { }", "SET { }", "SEQUENCE { a Se , ... , b [5] RRTi OPTIONAL }", "SEQUENCE OF SEQUENCE OF In", "SET OF ChT"}

var derTags = []string{"", "[1]", "[2] IMPLICIT", "[3] EXPLICIT", "[APPLICATION 4]", "[PRIVATE 5]", "[APPLICATION 6] EXPLICIT", "[PRIVATE 7] IMPLICIT", "[31] IMPLICIT", "[300]", "[PRIVATE 8] EXPLICIT", "[0]", "[APPLICATION 0] IMPLICIT"}
var derTagsSmall = []string{"", "[%d]", "[%d] IMPLICIT", "[APPLICATION %d] EXPLICIT"}
var derOpts = []string{"", "OPTIONAL", "DEFAULT 5", "DEFAULT -129", "DEFAULT 0", "DEFAULT 2147483648", "DEFAULT -9223372036854775807"}

type derGen struct {
	c    *Ctl
	used map[string]bool
	bad  bool // the module is not expressible or not valid
}

func (g *derGen) use(text string) {
	for _, w := range strings.Fields(text) {
		p, ok := derPreludeBy[w]
		if ok && !g.used[w] {
			if g.used == nil {
				g.used = map[string]bool{}
			}
			g.used[w] = true
			g.use(p.deps)
		}
	}
}

func (g *derGen) needed(before bool) string {
	var out []string
	for _, p := range derPrelude {
		if g.used[p.name] {
			if before {
				out = append(out, p.text)
			} else {
				out = append([]string{p.text}, out...)
			}
		}
	}
	return strings.Join(out, " ") + " "
}

// typeOf picks a component type.
func (g *derGen) typeOf(inline, refs []string) string {
	k := g.c.Choose(len(inline) + len(refs))
	t := ""
	if k < len(inline) {
		t = inline[k]
	} else {
		t = refs[k-len(inline)]
	}
	g.use(t)
	return t
}

func derRefs() []string {
	var out []string
	for _, p := range derPrelude {
		out = append(out, p.name)
	}
	return out
}

var derRefsSmall = []string{"RIa", "RSt", "RRTi", "RTo", "ChT", "RIn", "Tse", "RUt8", "RBi", "An"}

// outer lists the keys of the tags that a value of the type can start with, as far as
// encoding/asn1 can tell them apart; "*" if it can not.
func (d *der) outer(t a.Type) []string {
	switch x := d.def(t).(type) {
	case a.TaggedType:
		k := fmt.Sprintf("%d.%d", x.Tag.Class, x.Tag.ClassNumber)
		switch y := d.stripAll(x.Type).(type) {
		case a.AnyType:
			return []string{k, "*"}
		case a.ChoiceType:
			if len(y.AlternativeTypeList) > 1 || d.rawChoice(y) {
				return []string{k, "*"}
			}
		}
		return []string{k}
	case a.AnyType:
		return []string{"*"}
	case a.ChoiceType:
		if len(x.AlternativeTypeList) == 1 && !d.rawChoice(x) {
			return d.outer(x.AlternativeTypeList[0].Type)
		}
		return []string{"*"}
	case a.TypeReference:
		return []string{"time"}
	case a.RestrictedStringType:
		return []string{"string"}
	case a.SetOfType, a.SetType:
		return []string{"set"}
	case a.SequenceOfType, a.SequenceType:
		return []string{"sequence"}
	default:
		return []string{fmt.Sprintf("%T", x)}
	}
}

// derOK tells whether a type is valid ASN.1 and expressible in encoding/asn1; decode whether encoding/asn1 can decode it.
func (d *der) derOK(t a.Type) (ok, decode bool) {
	switch x := d.def(t).(type) {
	case a.TaggedType:
		ok, decode = d.derOK(x.Type)
		switch y := d.carrier(x.Type).(type) {
		case a.TaggedType:
			return false, false
		case a.AnyType:
			if x.HasTagType && x.TagType == a.TAGS_IMPLICIT {
				return false, false
			}
			decode = false
		case a.ChoiceType:
			if d.rawChoice(y) || x.HasTagType && x.TagType == a.TAGS_IMPLICIT {
				return false, false // the raw value carries its own tags
			}
			if d.iface(y) {
				decode = false
			}
		}
		explicit := d.m.TagDefault != a.TAGS_IMPLICIT
		if x.HasTagType {
			explicit = x.TagType != a.TAGS_IMPLICIT
		}
		switch d.def(x.Type).(type) {
		case a.ChoiceType, a.AnyType:
			explicit = true
		}
		if x.Tag.Class == a.CLASS_PRIVATE && explicit {
			decode = false // encoding/asn1 looks for a context specific tag
		}
		return
	case a.SequenceType:
		return d.compsOK(comps(x.Components, x.ExtensionAdditions), false)
	case a.SetType:
		return d.compsOK(comps(x.Components, x.ExtensionAdditions), true)
	case a.SequenceOfType:
		ok, decode = d.derOK(x.Type)
		return ok && d.elementOK(x.Type), decode && !d.iface(x.Type)
	case a.SetOfType:
		ok, decode = d.derOK(x.Type)
		return ok && d.elementOK(x.Type), decode && !d.iface(x.Type)
	case a.ChoiceType:
		ok, decode = true, true
		for _, alt := range x.AlternativeTypeList {
			o, dc := d.derOK(alt.Type)
			ok, decode = ok && o, decode && dc
		}
		return
	}
	return true, true
}

// carrier is the type whose Go representation holds the values: a CHOICE of one alternative is represented by that.
func (d *der) carrier(t a.Type) a.Type {
	for {
		t = d.def(t)
		x, ok := t.(a.ChoiceType)
		if !ok || len(x.AlternativeTypeList) != 1 || d.rawChoice(x) {
			return t
		}
		t = x.AlternativeTypeList[0].Type
	}
}

// iface tells whether values are held in an interface; encoding/asn1 does not decode lists of them.
func (d *der) iface(t a.Type) bool {
	switch x := d.stripAll(t).(type) {
	case a.AnyType:
		return true
	case a.ChoiceType:
		if d.rawChoice(x) {
			return false
		}
		return len(x.AlternativeTypeList) > 1 || len(x.AlternativeTypeList) == 1 && d.iface(x.AlternativeTypeList[0].Type)
	}
	return false
}

// elementOK tells whether the Go type alone determines how a list element is encoded.
func (d *der) elementOK(t a.Type) bool {
	inline := true
	for {
		switch x := t.(type) {
		case a.ConstraintedType:
			t = x.Type
			continue
		case a.TypeReference:
			inline = false
		case a.TaggedType:
			return false
		}
		switch x := d.def(t).(type) {
		case a.ChoiceType:
			if len(x.AlternativeTypeList) == 1 && !d.rawChoice(x) {
				t = x.AlternativeTypeList[0].Type
				continue
			}
		case a.SetType:
			return false
		case a.SetOfType:
			return !inline
		case a.RestrictedStringType:
			return x.LexType == a.PrintableString
		case a.TypeReference:
			return x.Name() == a.UTCTimeName
		}
		return true
	}
}

func (d *der) compsOK(cs []a.NamedComponentType, set bool) (ok, decode bool) {
	ok, decode = true, true
	last := -1
	for i, c := range cs {
		o, dc := d.derOK(c.NamedType.Type)
		ok, decode = ok && o, decode && dc
		optional := c.IsOptional || c.Default != nil
		keys := d.outer(c.NamedType.Type)
		if c.Default != nil {
			if _, isInt := d.stripAll(c.NamedType.Type).(a.IntegerType); !isInt {
				return false, false
			}
		}
		any := keys[len(keys)-1] == "*"
		if any && optional && i < len(cs)-1 {
			decode = false
		}
		for j := i + 1; j < len(cs) && (optional || set); j++ {
			for _, k := range d.outer(cs[j].NamedType.Type) {
				for _, l := range keys {
					if k == l {
						return false, false
					}
				}
			}
			if !(cs[j].IsOptional || cs[j].Default != nil) && !set {
				break
			}
		}
		if set {
			if any {
				return false, false
			}
			v := d.values(c.NamedType.Type, false, false, 1)
			if len(v) > 0 {
				k := tagKey(d.enc(c.NamedType.Type, v[0]).bytes())
				if k <= last {
					return false, false // encoding/asn1 does not sort components
				}
				last = k
			}
		}
	}
	return
}

// judgeDER generates a module and round-trips every value of its type W.
func judgeDER(c *Ctl, m *a.ModuleDefinition, p a.GenParams, desc string, maxVals int) {
	judgeDERof(c, &der{m: m}, m, p, desc, maxVals)
}

func judgeDERof(c *Ctl, d *der, m *a.ModuleDefinition, p a.GenParams, desc string, maxVals int) {
	wt, _ := (&cgModel{m: m}).lookup("W")
	ok, decode := d.derOK(wt)
	if !ok {
		c.Outcome("inexpressible")
		return
	}
	g := generate(m, p)
	if g.err != nil {
		c.Fail("generation failed: %v: %s", g.err, desc)
	}
	k, err := typecheck(g.out)
	if err != nil {
		c.Fail("generated code does not compile: %v: %s generated\n%s", err, desc, g.out)
	}
	o, isT := k.pkg.Scope().Lookup("W").(*types.TypeName)
	if !isT {
		c.Fail("type W is missing: %s", desc)
	}
	rt, err := reflectType(o.Type())
	if errors.Is(err, errNoSet) && d.loose {
		c.Outcome("set type that the harness lacks")
		return
	}
	if err != nil {
		c.Fail("generated type can not be built: %v: %s generated\n%s", err, desc, g.out)
	}
	if !decode {
		c.Outcome("encode only")
	}
	n, msg := roundTrips(d, rt, wt, p.IntegerRepr == a.IntegerReprBigInt, decode, maxVals)
	c.Steps(n)
	if msg != "" {
		c.Fail("%s: %s generated\n%s", msg, desc, g.out)
	}
}

// roundTrips encodes and decodes every explored value of W, held in a Go type.
func roundTrips(d *der, rt reflect.Type, wt a.Type, bigInt, decode bool, maxVals int) (n int, msg string) {
	x := d.def(wt).(a.SequenceType)
	cs := comps(x.Components, x.ExtensionAdditions)
	for _, v := range d.allStructValues(cs, bigInt, maxVals) {
		rv := reflect.New(rt).Elem()
		if err := d.toGo(rv, wt, v); err == errZero {
			continue
		} else if err != nil {
			return n, err.Error()
		}
		n++
		want := d.enc(wt, v).bytes()
		got, err := asn1.Marshal(rv.Interface())
		if err != nil {
			return n, fmt.Sprintf("encoding %v fails: %v", v, err)
		}
		if !bytes.Equal(got, want) {
			return n, fmt.Sprintf("%v is encoded as %x, DER is %x", v, got, want)
		}
		if !decode {
			continue
		}
		back := reflect.New(rt)
		rest, err := asn1.Unmarshal(want, back.Interface())
		if err != nil && strings.Contains(err.Error(), "explicit tag has no child") {
			continue // encoding/asn1 takes an empty last element for an explicit tag without content
		}
		if err != nil {
			return n, fmt.Sprintf("decoding %x (%v) fails: %v", want, v, err)
		}
		if len(rest) > 0 {
			return n, fmt.Sprintf("decoding %x (%v) leaves %x", want, v, rest)
		}
		if diff := d.fromGo(back.Elem(), wt, v); diff != "" {
			return n, fmt.Sprintf("decoding %x (%v): %s", want, v, diff)
		}
	}
	return n, ""
}

func derModule(c *Ctl, g *derGen, w string, before bool) (string, a.GenParams, string) {
	tags := c.Pick("", "IMPLICIT TAGS ", "EXPLICIT TAGS ")
	var p a.GenParams
	desc := ""
	if c.Bool() {
		p.IntegerRepr = a.IntegerReprBigInt
		desc = "big.Int "
	}
	text := "M DEFINITIONS " + tags + "::= BEGIN "
	if before {
		text += g.needed(true) + w + "END"
	} else {
		text += w + g.needed(false) + "END"
	}
	return text, p, desc + text
}

func derSpaces(tier string) []*Space {
	thorough := tier == "thorough"
	refs := derRefs()
	single := &Space{
		Name: "single",
		Bound: fmt.Sprintf("W ::= SEQUENCE { c TYPE }, or the same as SET inside W: every one of %d inline types and %d references x %d tags x %d options x 3 constraint forms x 3 tag defaults x INTEGER representation x order of definitions, every value out of up to 11 per type",
			len(derInline), len(refs), len(derTags), len(derOpts)),
		Run: func(c *Ctl) {
			g := &derGen{c: c}
			t := g.typeOf(derInline, refs)
			tag := derTags[c.Choose(len(derTags))]
			opt := derOpts[c.Choose(len(derOpts))]
			isInt := t == "INTEGER" || t == "In" || t == "RIn" || t == "Ch1" || t == "CHOICE { a INTEGER }" || t == "INTEGER { p(1) }"
			if strings.HasPrefix(opt, "DEFAULT") && !isInt {
				return
			}
			if con := c.Choose(3); con > 0 {
				t += []string{"", " (1)", " (1) (SIZE (2))"}[con]
			}
			set := c.Bool()
			body := tag + " " + t + " " + opt
			w := "W ::= SEQUENCE { c " + body + " } "
			if set {
				w = "W ::= SEQUENCE { s SET { c " + body + " } } "
			}
			text, p, desc := derModule(c, g, w, len(g.used) == 0 || c.Bool())
			c.Input(desc)
			judgeDER(c, parseForGen(text), p, desc, 11)
		},
	}
	nt, nr := 6, 4
	if thorough {
		nt, nr = len(derInline), len(derRefsSmall)
	}
	ntags := 3
	if thorough {
		ntags = 4
	}
	pair := func(name string, n, nt, nr, ntags, forms int) *Space {
		return &Space{
			Name: name,
			Bound: fmt.Sprintf("W ::= SEQUENCE with %d components, each of %d inline types and %d references x %d tags x none/OPTIONAL/DEFAULT, directly, after an extension marker, or as SET, list element or referenced definition inside W (%d forms), x 3 tag defaults x INTEGER representation; every combination of values",
				n, nt, nr, ntags, forms),
			Run: func(c *Ctl) {
				g := &derGen{c: c}
				form := c.Choose(forms)
				var parts []string
				for i := 0; i < n; i++ {
					t := g.typeOf(derInline[:nt], derRefsSmall[:nr])
					tag := derTagsSmall[c.Choose(ntags)]
					if tag != "" {
						tag = fmt.Sprintf(tag, i+3)
					}
					isInt := t == "INTEGER" || t == "RIn" || t == "CHOICE { a INTEGER }" || t == "INTEGER { p(1) }"
					opts := 2
					if isInt {
						opts = 3
					}
					parts = append(parts, fmt.Sprintf("c%d %s %s %s", i, tag, t, []string{"", "OPTIONAL", "DEFAULT 5"}[c.Choose(opts)]))
				}
				body := strings.Join(parts, " , ")
				w := ""
				switch form {
				case 0:
					w = "W ::= SEQUENCE { " + body + " } "
				case 1:
					w = "W ::= SEQUENCE { s SET { " + body + " } } "
				case 2:
					w = "W ::= SEQUENCE { " + strings.Join(parts[:n-1], " , ") + " , ... , " + parts[n-1] + " } "
				case 3:
					w = "W ::= SEQUENCE { s [1] Def , t BOOLEAN } Def ::= SET { " + body + " } "
				case 4:
					w = "W ::= SEQUENCE { s SEQUENCE OF SEQUENCE { " + body + " } } "
				case 5:
					w = "Def ::= SEQUENCE { " + body + " } W ::= SEQUENCE { t BOOLEAN OPTIONAL , s Def } "
				case 6:
					w = "W ::= SEQUENCE { s [APPLICATION 31] IMPLICIT Def OPTIONAL } Ref ::= SET { " + body + " } Def ::= Ref "
				}
				text, p, desc := derModule(c, g, w, true)
				c.Input(desc)
				judgeDER(c, parseForGen(text), p, desc, 3)
			},
		}
	}
	out := []*Space{derTwinsSpace(), derNamesSpace(), derDefaultsSpace(map[bool]int64{false: 300, true: 3000}[thorough]), derSizesSpace(thorough), single, pair("pairs", 2, nt, nr, ntags, 7), pair("triples", 3, 4, 2, 2, 4), derBuiltSpace(thorough), derNestedSpace(2)}
	if thorough {
		out[5] = pair("triples", 3, 8, 4, 3, 4)
	}
	return out
}

// derNamesSpace: names must not matter for the encoding.
func derNamesSpace() *Space {
	names, _ := allNames(2)
	uses := []string{
		"%T ::= SET OF INTEGER W ::= SEQUENCE { c %T , %t BOOLEAN }",
		"%T ::= SEQUENCE OF INTEGER W ::= SEQUENCE { c [1] %T }",
		"%T ::= SEQUENCE OF SEQUENCE OF BOOLEAN W ::= SEQUENCE { %t %T }",
		"%T ::= SET OF SEQUENCE { a INTEGER , b BOOLEAN } W ::= SEQUENCE { c BOOLEAN , %t %T }",
		"%T ::= SET { %t INTEGER } W ::= SEQUENCE { %t %T }",
		"%T ::= SEQUENCE { %t INTEGER } W ::= SEQUENCE { %t SEQUENCE OF %T }",
		"%T ::= IA5String W ::= SEQUENCE { %t %T }",
		"%T ::= UTCTime W ::= SEQUENCE { c INTEGER , %t [2] %T }",
		"%T ::= INTEGER W ::= SEQUENCE { %t %T DEFAULT 5 , c OCTET STRING }",
		"A ::= %T %T ::= SET OF INTEGER W ::= SEQUENCE { c A }",
	}
	return &Space{
		Name:  "names",
		Bound: fmt.Sprintf("%d names (short ones, Go words and other special words with affixes, long ones) for a referenced definition and a component in %d modules x 2 tag defaults", len(names), len(uses)),
		Run: func(c *Ctl) {
			nm := names[c.Choose(len(names))]
			t := upperFirst(nm)
			if isReserved(t) || t == "W" || t == "A" {
				return
			}
			text := "M DEFINITIONS " + c.Pick("", "IMPLICIT TAGS ") + "::= BEGIN " + strings.NewReplacer("%T", t, "%t", nm).Replace(uses[c.Choose(len(uses))]) + " END"
			m := parseForGen(text)
			if !distinctNames(m) {
				return
			}
			c.Input(text)
			judgeDER(c, m, a.GenParams{}, text, 4)
		},
	}
}

// derDefaultsSpace: every default is what it says.
func derDefaultsSpace(small int64) *Space {
	var nums []int64
	for i := -small; i <= small; i++ {
		nums = append(nums, i)
	}
	for k := 5; k < 63; k++ {
		for _, sign := range []int64{1, -1} {
			for d := int64(-2); d <= 2; d++ {
				nums = append(nums, sign*(1<<k+d))
			}
			nums = append(nums, sign*(1<<k+1<<(k-1)), sign*(1<<k+1<<(k-2)), sign*(1<<k-1<<(k-3)))
		}
	}
	for x, k := int64(10), 1; k <= 18; x, k = x*10, k+1 {
		for _, m := range []int64{1, 2, 3, 4, 5, 6, 7, 8, 9} {
			nums = append(nums, m*x, -m*x, m*x-1, 1-m*x, m*x+m)
		}
	}
	nums = append(nums, 1<<63-1, 1<<63-2, -1<<63+1, -1<<63+2)
	types := []string{"INTEGER", "In", "RIn", "INTEGER { p(1) }", "INTEGER (MIN..MAX)"}
	tags := []string{"", "[1]", "[2] EXPLICIT", "[APPLICATION 3] IMPLICIT"}
	return &Space{
		Name:  "defaults",
		Bound: fmt.Sprintf("%d default values (all to ±%d, round ones and those around powers of two and ten to 64 bits) x %d types x %d tags, directly or in a SET, alone or before another default, every value around it", len(nums), small, len(types), len(tags)),
		Run: func(c *Ctl) {
			n := nums[c.Choose(len(nums))]
			g := &derGen{c: c}
			t := types[c.Choose(len(types))]
			g.use(t)
			body := fmt.Sprintf("%s %s DEFAULT %d", tags[c.Choose(len(tags))], t, n)
			w := "W ::= SEQUENCE { c " + body + " } "
			switch c.Choose(3) {
			case 1:
				w = "W ::= SEQUENCE { s SET { c " + body + " } } "
			case 2:
				w = fmt.Sprintf("W ::= SEQUENCE { c %s , d [9] INTEGER DEFAULT %d , e BOOLEAN } ", body, -n/2)
			}
			text := "M DEFINITIONS ::= BEGIN " + g.needed(true) + w + "END"
			c.Input(text)
			judgeDER(c, parseForGen(text), a.GenParams{}, text, 11)
		},
	}
}

// derSizesSpace: sizes must not matter for the encoding.
func derSizesSpace(thorough bool) *Space {
	every, max := 36, 513
	if thorough {
		every, max = 140, 2049
	}
	sizes := sizesTo(every, max)
	specials := []string{"INTEGER DEFAULT 5", "IA5String OPTIONAL", "SET { a BOOLEAN , b INTEGER }", "SET OF INTEGER", "GeneralizedTime", "NumericString", "CHOICE { a INTEGER }", "To", "RUt", "RSt"}
	normal := []string{"INTEGER", "UTF8String OPTIONAL", "OCTET STRING", "INTEGER DEFAULT 5", "BOOLEAN", "Se", "BIT STRING OPTIONAL"}
	tags := []string{"[%d]", "[%d] IMPLICIT", "[%d] EXPLICIT", "[APPLICATION %d]", "[PRIVATE %d] IMPLICIT"}
	one := func(s, tag string, both bool) func(i int, is bool) string {
		return func(i int, is bool) string {
			t := fmt.Sprintf("c%d %s ", i, strings.ReplaceAll(tag, "%d", fmt.Sprint(i)))
			if is || both {
				return t + s
			}
			return t + normal[i%len(normal)]
		}
	}
	type form struct {
		name string
		max  int
		text func(n, at int, tag, s string) string
	}
	forms := []form{
		{"components", 513, func(n, at int, tag, s string) string {
			return "W ::= SEQUENCE { " + list(n, at, " , ", one(s, tag, false)) + " }"
		}},
		{"set components", 129, func(n, at int, tag, s string) string {
			return "W ::= SEQUENCE { f SET { " + list(n, at, " , ", one(s, tag, false)) + " } }"
		}},
		{"additions", 257, func(n, at int, tag, s string) string {
			return "W ::= SEQUENCE { z BOOLEAN , ... , " + list(n, at, " , ", one(s, tag, false)) + " }"
		}},
		{"components of one kind", 129, func(n, at int, tag, s string) string {
			return "W ::= SEQUENCE { f Def , g [APPLICATION 70] Def OPTIONAL } Def ::= SEQUENCE { " + list(n, at, " , ", one(s, tag, true)) + " }"
		}},
		{"chain", 65, func(n, at int, tag, s string) string {
			t := strings.Fields(s)
			opt := ""
			if t[len(t)-1] == "OPTIONAL" || len(t) > 1 && t[len(t)-2] == "DEFAULT" {
				opt = s[len(t[0]):]
				s = t[0]
			}
			return "W ::= SEQUENCE { f " + strings.ReplaceAll(tag, "%d", fmt.Sprint(n)) + " T0 " + opt + " } " + list(n, at, " ", func(i int, is bool) string {
				if is {
					return fmt.Sprintf("T%d ::= T%d (SIZE (1..9))", i, i+1)
				}
				return fmt.Sprintf("T%d ::= T%d", i, i+1)
			}) + fmt.Sprintf(" T%d ::= %s", n, s)
		}},
		{"nested", 129, func(n, at int, tag, s string) string {
			var b strings.Builder
			b.WriteString("W ::= ")
			for i := 0; i < n; i++ {
				b.WriteString("SEQUENCE { ")
				if i == at {
					b.WriteString("s " + strings.ReplaceAll(tag, "%d", fmt.Sprint(i)) + " " + s + " , ")
				}
				b.WriteString("n " + strings.ReplaceAll(tag, "%d", fmt.Sprint(n+i)) + " ")
			}
			return b.String() + "BOOLEAN" + strings.Repeat(" }", n)
		}},
		{"nested lists", 4, func(n, at int, tag, s string) string {
			return "W ::= SEQUENCE { f " + strings.ReplaceAll(tag, "%d", fmt.Sprint(n)) + " " + strings.Repeat("SEQUENCE OF ", n) + "SEQUENCE { s " + s + " } }"
		}},
		{"definitions", 257, func(n, at int, tag, s string) string {
			t := strings.Fields(s)
			if t[len(t)-1] == "OPTIONAL" || len(t) > 1 && t[len(t)-2] == "DEFAULT" {
				s = t[0]
			}
			return fmt.Sprintf("W ::= SEQUENCE { f %s T%d OPTIONAL } ", strings.ReplaceAll(tag, "%d", fmt.Sprint(n)), at) + list(n, at, " ", func(i int, is bool) string {
				if is {
					return fmt.Sprintf("T%d ::= %s", i, s)
				}
				return fmt.Sprintf("T%d ::= %s", i, []string{"INTEGER", "SET OF INTEGER", "IA5String"}[i%3])
			})
		}},
		{"tag", 1 << 30, func(n, at int, tag, s string) string {
			return fmt.Sprintf("W ::= SEQUENCE { f %s %s , g BOOLEAN }", strings.ReplaceAll(tag, "%d", fmt.Sprint(n-1)), s)
		}},
	}
	big := append(append([]int{}, sizes...), 16383, 16384, 16385, 65535, 65536, 65537, 1<<21-1, 1<<21, 1<<21+1, 1<<28-1, 1<<28, 1<<28+1)
	return &Space{
		Name: "sizes",
		Bound: fmt.Sprintf("%d constructs that can be repeated or nested x %d sizes up to %d (tag numbers up to 2^28, less for nesting) x one special component of %d at the beginning, in the middle, at the end x %d tags x 2 tag defaults x INTEGER representation, values varied one component at a time",
			len(forms), len(sizes), max, len(specials), len(tags)),
		Run: func(c *Ctl) {
			n := big[c.Choose(len(big))]
			f := forms[c.Choose(len(forms))]
			if n > f.max || f.name != "tag" && n > max {
				return
			}
			at := 0
			if n > 1 && f.name != "tag" {
				at = []int{0, n - 1, n / 2}[c.Choose(min(n, map[bool]int{true: 2, false: 3}[n > 12]))]
			}
			ns, nt := len(specials), len(tags)
			if n > 12 && f.name != "tag" {
				ns, nt = 4, 2
			}
			s := specials[(c.Choose(ns)+n)%len(specials)]
			tag := tags[(c.Choose(nt)+n)%len(tags)]
			g := &derGen{c: c}
			g.use(s + " Se")
			tags := c.Pick("", "IMPLICIT TAGS ")
			var p a.GenParams
			if c.Bool() {
				p.IntegerRepr = a.IntegerReprBigInt
			}
			text := "M DEFINITIONS " + tags + "::= BEGIN " + f.text(n, at, tag, s) + " " + g.needed(true) + "END"
			desc := fmt.Sprintf("%s %d with %q at %d: %v %s", f.name, n, s, at, p, clip(text, 300))
			c.Input(desc)
			judgeDER(c, parseForGen(text), p, desc, 3)
		},
	}
}

func init() {
	register(&Check{ID: "C11", Level: "model_checking",
		Rule: "one path per module; every explored value is encoded and decoded through encoding/asn1 and compared with a reference DER encoder; the Go types are those of the generated source, rebuilt by reflection and, in space compiled, built with the Go compiler and executed",
		Assumptions: []string{
			"within what encoding/asn1 can express: string kinds IA5, UTF8, Numeric, Printable, no REAL; DEFAULT for INTEGER literals as int64; OPTIONAL values other than the zero value; SET components in ascending tag order; list elements without field tags",
			"tags on referenced definitions, several tags on one component, UNIVERSAL tags and tags on raw values are not explored",
		},
		Spaces: derSpaces})
}
