package main

// Reference front end, written from X.680 and the README's list of supported
// notation, independently of lexer.go and asn1.y: a lexer over the whole text
// and a predictive recursive-descent parser that builds the library's AST
// types. It yields one of three verdicts: the module, the index of the first
// lexical item that cannot continue any module, or "unspecified" (the text
// uses a form on which the property makes no claim).

import (
	"math"
	"strconv"
	"unicode"
	"unicode/utf8"

	a "github.com/chemikadze/asn1go"
)

type tkind int

const (
	tEOF tkind = iota
	tUpper
	tLower
	tNumber
	tExp
	tWord // reserved word
	tSym
	tBad
)

type tok struct {
	k        tkind
	s        string
	line     int // 1-based line on which the item starts
	off, end int
	glued    bool // no trivia between the previous item and this one
	num      int64
}

var reservedWords = map[string]bool{}

func init() {
	for _, w := range reservedList {
		reservedWords[w] = true
	}
}

// X.680 11.27 plus ANY, DEFINED (X.208).
var reservedList = []string{
	"ABSENT", "ENCODED", "INTEGER", "RELATIVE-OID", "ABSTRACT-SYNTAX", "END", "INTERSECTION", "SEQUENCE", "ALL", "ENUMERATED",
	"ISO646String", "SET", "APPLICATION", "EXCEPT", "MAX", "SIZE", "AUTOMATIC", "EXPLICIT", "MIN", "STRING", "BEGIN", "EXPORTS",
	"MINUS-INFINITY", "SYNTAX", "BIT", "EXTENSIBILITY", "NULL", "T61String", "BMPString", "EXTERNAL", "NumericString", "TAGS",
	"BOOLEAN", "FALSE", "OBJECT", "TeletexString", "BY", "FROM", "ObjectDescriptor", "TRUE", "CHARACTER", "GeneralizedTime", "OCTET",
	"TYPE-IDENTIFIER", "CHOICE", "GeneralString", "OF", "UNION", "CLASS", "GraphicString", "OPTIONAL", "UNIQUE", "COMPONENT",
	"IA5String", "PATTERN", "UNIVERSAL", "COMPONENTS", "IDENTIFIER", "PDV", "UniversalString", "CONSTRAINED", "IMPLICIT", "PLUS-INFINITY",
	"UTCTime", "CONTAINING", "IMPLIED", "PRESENT", "UTF8String", "DEFAULT", "IMPORTS", "PrintableString", "VideotexString", "DEFINITIONS",
	"INCLUDES", "PRIVATE", "VisibleString", "EMBEDDED", "INSTANCE", "REAL", "WITH", "ANY", "DEFINED",
}

type lexed struct {
	toks    []tok // ends with tEOF or tBad
	lenient int   // index of the first item from which the text is unspecified (len(toks) if none)
	lines   int   // number of line breaks + 1
	oddNL   bool  // text contains line breaks other than LF and CRLF
	openCom int   // line of an unterminated block comment, 0 if none
}

func isL(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isD(c byte) bool { return c >= '0' && c <= '9' }

func refLex(src string) *lexed {
	lx := &lexed{lenient: 1 << 30}
	line := 1
	i := 0
	glued := false
	nl := func(j int) { // called for each char consumed at j
		switch src[j] {
		case '\n':
			if !(j > 0 && src[j-1] == '\r') {
				line++
			}
		case '\r':
			if !(j+1 < len(src) && src[j+1] == '\n') {
				lx.oddNL = true
			}
			line++
		case '\v', '\f':
			lx.oddNL = true
			line++
		}
	}
	lenientHere := func(n int) {
		if n < lx.lenient {
			lx.lenient = n
		}
	}
	add := func(k tkind, s string, st, en int) {
		lx.toks = append(lx.toks, tok{k: k, s: s, line: line, off: st, end: en, glued: glued})
		glued = true
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c >= 9 && c <= 13:
			nl(i)
			i++
			glued = false
			continue
		case c == '-' && i+1 < len(src) && src[i+1] == '-':
			i += 2
			for i < len(src) {
				if src[i] >= 10 && src[i] <= 13 {
					break
				}
				if src[i] == '-' && i+1 < len(src) && src[i+1] == '-' {
					i += 2
					break
				}
				i++
			}
			glued = false
			continue
		case c == '/' && i+1 < len(src) && src[i+1] == '*':
			start := line
			depth := 1
			i += 2
			for i < len(src) && depth > 0 {
				if src[i] == '/' && i+1 < len(src) && src[i+1] == '*' {
					depth++
					i += 2
				} else if src[i] == '*' && i+1 < len(src) && src[i+1] == '/' {
					depth--
					i += 2
				} else {
					nl(i)
					i++
				}
			}
			if depth > 0 {
				lx.openCom = start
				add(tBad, "unterminated comment", i, i)
				lx.lines = line
				return lx
			}
			glued = false
			continue
		case isL(c):
			j := i
			if len(lx.toks) > 0 && glued && lx.toks[len(lx.toks)-1].k == tNumber {
				if c == 'e' || c == 'E' {
					// exponent mark of a real literal
					add(tExp, "e", i, i+1)
					i++
					k := i
					if k < len(src) && src[k] == '-' {
						k++
					}
					if k >= len(src) || !isD(src[k]) {
						lenientHere(len(lx.toks) - 1)
					}
					continue
				}
				lenientHere(len(lx.toks))
			}
			bad := false
			for j < len(src) {
				if isL(src[j]) || isD(src[j]) {
					j++
					continue
				}
				if src[j] == '-' {
					if src[j-1] == '-' {
						bad = true
						j++
						break
					}
					j++
					continue
				}
				if src[j] >= 0x80 {
					r, _ := utf8.DecodeRuneInString(src[j:])
					if unicode.IsLetter(r) || unicode.IsDigit(r) {
						lenientHere(len(lx.toks))
						// swallow
						_, n := utf8.DecodeRuneInString(src[j:])
						j += n
						continue
					}
				}
				break
			}
			w := src[i:j]
			if bad || w[len(w)-1] == '-' {
				add(tBad, w, i, j)
				lx.lines = line
				finishLines(lx, src, j, line)
				return lx
			}
			k := tLower
			if w[0] >= 'A' && w[0] <= 'Z' {
				k = tUpper
				if reservedWords[w] {
					k = tWord
				}
			}
			add(k, w, i, j)
			i = j
			continue
		case isD(c):
			j := i
			for j < len(src) && isD(src[j]) {
				j++
			}
			if j < len(src) && src[j] >= 0x80 {
				r, _ := utf8.DecodeRuneInString(src[j:])
				if unicode.IsLetter(r) || unicode.IsDigit(r) {
					lenientHere(len(lx.toks))
				}
			}
			if glued && len(lx.toks) > 0 && lx.toks[len(lx.toks)-1].k == tNumber {
				lenientHere(len(lx.toks))
			}
			if j-i > 1 && src[i] == '0' && !(len(lx.toks) > 0 && lx.toks[len(lx.toks)-1].s == "." && glued) {
				lenientHere(len(lx.toks)) // X.680 11.8: no leading zeros
			}
			n, err := strconv.ParseInt(src[i:j], 10, 64)
			if err != nil {
				add(tBad, src[i:j], i, j)
				lenientHere(len(lx.toks) - 1)
				finishLines(lx, src, j, line)
				return lx
			}
			add(tNumber, src[i:j], i, j)
			lx.toks[len(lx.toks)-1].num = n
			i = j
			continue
		case c >= 0x80:
			r, n := utf8.DecodeRuneInString(src[i:])
			if unicode.IsLetter(r) || unicode.IsDigit(r) {
				lenientHere(len(lx.toks))
			}
			add(tBad, src[i:i+n], i, i+n)
			finishLines(lx, src, i+n, line)
			return lx
		default:
			sym := ""
			for _, s := range []string{"::=", "...", "..", "[[", "]]"} {
				if len(src)-i >= len(s) && src[i:i+len(s)] == s {
					sym = s
					break
				}
			}
			if sym == "" {
				switch c {
				case '{', '}', '<', '>', ',', '.', '(', ')', '[', ']', '-', ':', '=', '"', '\'', ';', '@', '|', '!', '^':
					sym = string(c)
				}
			}
			if sym == "" {
				add(tBad, string(c), i, i+1)
				finishLines(lx, src, i+1, line)
				return lx
			}
			add(tSym, sym, i, i+len(sym))
			i += len(sym)
		}
	}
	add(tEOF, "", i, i)
	lx.lines = line
	return lx
}

// finishLines counts the remaining line breaks (only to know the total).
func finishLines(lx *lexed, src string, from, line int) {
	for j := from; j < len(src); j++ {
		switch src[j] {
		case '\n':
			if !(j > 0 && src[j-1] == '\r') {
				line++
			}
		case '\r':
			line++
			if !(j+1 < len(src) && src[j+1] == '\n') {
				lx.oddNL = true
			}
		case '\v', '\f':
			line++
			lx.oddNL = true
		}
	}
	lx.lines = line
}

type verdict int

const (
	vAccept verdict = iota
	vReject
	vLenient
)

func (v verdict) String() string { return [...]string{"accept", "reject", "unspecified"}[v] }

type refResult struct {
	v          verdict
	mod        *a.ModuleDefinition
	errTok     int // index of the first offending item (vReject)
	errLine    int
	atEOF      bool // the text just ends too early
	lx         *lexed
	completion []string // completion mode: items that complete the module
	complete   bool     // completion mode: prefix is viable
}

type refErr struct{}

type rp struct {
	t          []tok
	i          int
	completing bool
	comp       []string
	lenient    int // token index from which the text is unspecified
}

func refParse(src string) *refResult { return refParseMode(src, false) }

// refParseMode with completing=true treats the end of the text as a hole to
// be filled with the shortest continuation.
func refParseMode(src string, completing bool) *refResult {
	lx := refLex(src)
	p := &rp{t: lx.toks, lenient: 1 << 30, completing: completing}
	res := &refResult{lx: lx}
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(refErr); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		m := p.module()
		res.mod = m
		return true
	}()
	if p.lenient > lx.lenient {
		p.lenient = lx.lenient
	}
	res.completion = p.comp
	if ok {
		res.complete = true
		res.v = vAccept
		if p.lenient < len(p.t) {
			res.v = vLenient
		}
		return res
	}
	res.mod = nil
	res.v = vReject
	res.errTok = p.i
	t := p.t[p.i]
	res.errLine = t.line
	res.atEOF = t.k == tEOF || t.k == tBad && t.s == "unterminated comment"
	if p.lenient <= p.i {
		res.v = vLenient
	}
	return res
}

func (p *rp) peek() tok { return p.t[p.i] }
func (p *rp) peekN(n int) tok { // never beyond the end marker
	if p.i+n >= len(p.t) {
		return p.t[len(p.t)-1]
	}
	return p.t[p.i+n]
}
func (p *rp) fail()       { panic(refErr{}) }
func (p *rp) atEnd() bool { return p.peek().k == tEOF }
func (p *rp) hole() bool  { return p.completing && p.atEnd() }
func (p *rp) is(s string) bool {
	t := p.peek()
	return (t.k == tSym || t.k == tWord) && t.s == s
}
func (p *rp) isN(n int, s string) bool {
	t := p.peekN(n)
	return (t.k == tSym || t.k == tWord) && t.s == s
}
func (p *rp) take(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *rp) need(s string) {
	if p.take(s) {
		return
	}
	if p.hole() {
		p.comp = append(p.comp, s)
		return
	}
	p.fail()
}
func (p *rp) kind(k tkind) bool { return p.peek().k == k }
func (p *rp) needKind(k tkind, def string) tok {
	if p.kind(k) {
		t := p.peek()
		p.i++
		return t
	}
	if p.hole() {
		p.comp = append(p.comp, def)
		n, _ := strconv.ParseInt(def, 10, 64)
		return tok{k: k, s: def, num: n}
	}
	p.fail()
	return tok{}
}
func (p *rp) upper() string { return p.needKind(tUpper, "Zz").s }
func (p *rp) lower() string { return p.needKind(tLower, "zz").s }
func (p *rp) number() tok   { return p.needKind(tNumber, "7") }
func (p *rp) unspecified() {
	if p.i < p.lenient {
		p.lenient = p.i
	}
}

func (p *rp) module() *a.ModuleDefinition {
	m := &a.ModuleDefinition{}
	m.ModuleIdentifier.Reference = p.upper()
	m.ModuleIdentifier.DefinitiveIdentifier = a.DefinitiveIdentifier{}
	if p.take("{") {
		for {
			if p.kind(tNumber) {
				m.ModuleIdentifier.DefinitiveIdentifier = append(m.ModuleIdentifier.DefinitiveIdentifier, a.DefinitiveObjIdComponent{Id: int(p.number().num)})
			} else {
				c := a.DefinitiveObjIdComponent{Name: p.lower()}
				if p.take("(") {
					c.Id = int(p.number().num)
					p.need(")")
				}
				m.ModuleIdentifier.DefinitiveIdentifier = append(m.ModuleIdentifier.DefinitiveIdentifier, c)
			}
			if p.hole() || p.is("}") {
				break
			}
		}
		p.need("}")
	}
	p.need("DEFINITIONS")
	m.TagDefault = a.TAGS_EXPLICIT
	switch {
	case p.take("EXPLICIT"):
		p.need("TAGS")
	case p.take("IMPLICIT"):
		m.TagDefault = a.TAGS_IMPLICIT
		p.need("TAGS")
	case p.take("AUTOMATIC"):
		m.TagDefault = a.TAGS_AUTOMATIC
		p.need("TAGS")
	}
	if p.take("EXTENSIBILITY") {
		p.need("IMPLIED")
		m.ExtensibilityImplied = true
	}
	p.need("::=")
	p.need("BEGIN")
	if !p.is("END") && !p.hole() {
		p.body(m)
	}
	p.need("END")
	if !p.atEnd() {
		p.fail()
	}
	return m
}

func (p *rp) body(m *a.ModuleDefinition) {
	m.ModuleBody.Imports = []a.SymbolsFromModule{}
	if p.take("EXPORTS") {
		if p.take("ALL") {
		} else if p.kind(tUpper) || p.kind(tLower) {
			p.symbolList()
		}
		p.need(";")
	}
	if p.take("IMPORTS") {
		for p.kind(tUpper) || p.kind(tLower) {
			var s a.SymbolsFromModule
			s.SymbolList = p.symbolList()
			p.need("FROM")
			s.Module.Reference = p.upper()
			if v, ok := p.assignedIdentifier(); ok {
				s.Module.AssignedIdentifier = v
			}
			m.ModuleBody.Imports = append(m.ModuleBody.Imports, s)
		}
		p.need(";")
	}
	for {
		m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList, p.assignment())
		if p.is("END") || p.hole() {
			return
		}
	}
}

func (p *rp) symbolList() []a.Symbol {
	var out []a.Symbol
	for {
		if p.kind(tLower) {
			out = append(out, a.ValueReference(p.lower()))
		} else {
			out = append(out, a.TypeReference(p.upper()))
		}
		if !p.take(",") {
			return out
		}
	}
}

// assignedIdentifier: what follows the module in IMPORTS; a reference there
// is the first symbol of the next list if FROM or a comma follows it.
func (p *rp) assignedIdentifier() (a.Value, bool) {
	switch {
	case p.is("{"):
		return p.oidValue(), true
	case p.kind(tUpper) && p.isN(1, "."):
		return p.definedValue(), true
	case p.kind(tLower) && !p.isN(1, ",") && !p.isN(1, "FROM"):
		return p.definedValue(), true
	}
	return nil, false
}

func (p *rp) definedValue() a.DefinedValue {
	if p.kind(tUpper) {
		m := p.upper()
		p.need(".")
		return a.DefinedValue{ModuleName: a.ModuleReference(m), ValueName: a.ValueReference(p.lower())}
	}
	return a.DefinedValue{ValueName: a.ValueReference(p.lower())}
}

func (p *rp) oidValue() a.ObjectIdentifierValue {
	p.need("{")
	out := a.ObjectIdentifierValue{}
	for {
		switch {
		case p.kind(tNumber):
			out = append(out, a.ObjectIdElement{ID: int(p.number().num)})
		case p.kind(tUpper):
			d := p.definedValue()
			out = append(out, a.ObjectIdElement{Reference: &d})
		default:
			if p.hole() {
				p.number()
				break
			}
			n := p.lower()
			if p.take("(") {
				e := a.ObjectIdElement{Name: n}
				if p.kind(tUpper) || p.kind(tLower) {
					d := p.definedValue()
					e.Reference = &d
				} else {
					e.ID = int(p.number().num)
				}
				p.need(")")
				out = append(out, e)
			} else {
				out = append(out, a.ObjectIdElement{Reference: &a.DefinedValue{ValueName: a.ValueReference(n)}})
			}
		}
		if p.is("}") || p.hole() {
			p.need("}")
			return out
		}
	}
}

func (p *rp) assignment() a.Assignment {
	if p.kind(tLower) {
		n := p.lower()
		t := p.typ()
		p.need("::=")
		return a.ValueAssignment{ValueReference: a.ValueReference(n), Type: t, Value: p.value()}
	}
	n := p.upper()
	p.need("::=")
	return a.TypeAssignment{TypeReference: a.TypeReference(n), Type: p.typ()}
}

var stringKinds = map[string]int{
	"BMPString": a.BMPString, "GeneralString": a.GeneralString, "GraphicString": a.GraphicString, "IA5String": a.IA5String,
	"ISO646String": a.ISO646String, "NumericString": a.NumericString, "PrintableString": a.PrintableString, "TeletexString": a.TeletexString,
	"T61String": a.T61String, "UniversalString": a.UniversalString, "UTF8String": a.UTF8String, "VideotexString": a.VideotexString,
	"VisibleString": a.VisibleString,
}

// typ parses a type; constraints attach to the innermost type before them.
func (p *rp) typ() a.Type {
	t := p.peek()
	if t.k == tSym && t.s == "[" {
		p.need("[")
		tt := a.TaggedType{}
		switch {
		case p.take("UNIVERSAL"):
			tt.Tag.Class = a.CLASS_UNIVERSAL
		case p.take("APPLICATION"):
			tt.Tag.Class = a.CLASS_APPLICATION
		case p.take("PRIVATE"):
			tt.Tag.Class = a.CLASS_PRIVATE
		}
		if p.kind(tUpper) || p.kind(tLower) {
			tt.Tag.ClassNumber = p.definedValue()
		} else {
			tt.Tag.ClassNumber = a.Number(p.number().num)
		}
		p.need("]")
		if p.take("IMPLICIT") {
			tt.TagType, tt.HasTagType = a.TAGS_IMPLICIT, true
		} else if p.take("EXPLICIT") {
			tt.TagType, tt.HasTagType = a.TAGS_EXPLICIT, true
		}
		tt.Type = p.typ()
		return tt
	}
	if t.k == tWord && (t.s == "SEQUENCE" || t.s == "SET") {
		set := t.s == "SET"
		p.need(t.s)
		of := func(e a.Type) a.Type {
			if set {
				return a.SetOfType{Type: e}
			}
			return a.SequenceOfType{Type: e}
		}
		switch {
		case p.take("OF"):
			return of(p.ofElem())
		case p.is("("):
			c := p.constraint()
			p.need("OF")
			return a.ConstraintedType{Type: of(p.ofElem()), Constraint: c}
		case p.take("SIZE"):
			c := a.SizeConstraint{Constraint: p.constraint()}
			p.need("OF")
			return a.ConstraintedType{Type: of(p.ofElem()), Constraint: a.Constraint{ConstraintSpec: a.SubtypeConstraint{
				a.Unions{a.Intersections{a.IntersectionElements{Elements: c}}}}}}
		}
		comps, ext := p.structBody()
		var st a.Type
		if set {
			st = a.SetType{Components: comps, ExtensionAdditions: ext}
		} else {
			st = a.SequenceType{Components: comps, ExtensionAdditions: ext}
		}
		return p.constrained(st)
	}
	return p.constrained(p.simpleType())
}

func (p *rp) ofElem() a.Type {
	if p.kind(tLower) {
		return p.namedType()
	}
	return p.typ()
}

func (p *rp) constrained(t a.Type) a.Type {
	for p.is("(") {
		t = a.ConstraintedType{Type: t, Constraint: p.constraint()}
	}
	return t
}

func (p *rp) namedType() a.NamedType {
	n := p.lower()
	return a.NamedType{Identifier: a.Identifier(n), Type: p.typ()}
}

func (p *rp) simpleType() a.Type {
	t := p.peek()
	if t.k == tUpper {
		p.i++
		return a.TypeReference(t.s)
	}
	if t.k != tWord {
		p.need("REAL") // fails, or completes
		return a.RealType{}
	}
	if k, ok := stringKinds[t.s]; ok {
		p.i++
		return a.RestrictedStringType{LexType: k}
	}
	switch t.s {
	case "BOOLEAN":
		p.i++
		return a.BooleanType{}
	case "NULL":
		p.i++
		return a.NullType{}
	case "REAL":
		p.i++
		return a.RealType{}
	case "GeneralizedTime", "UTCTime":
		p.i++
		return a.TypeReference(t.s)
	case "INTEGER":
		p.i++
		it := a.IntegerType{}
		if p.take("{") {
			for {
				it.NamedNumberList = append(it.NamedNumberList, p.namedNumber(p.lower()))
				if !p.take(",") {
					break
				}
			}
			p.need("}")
		}
		return it
	case "ENUMERATED":
		p.i++
		p.need("{")
		e := a.EnumeratedType{}
		for {
			if p.is("...") {
				p.unspecified() // README: explicit extensibility is not supported
			}
			n := p.lower()
			if p.is("(") {
				e.RootEnumeration = append(e.RootEnumeration, p.namedNumber(n))
			} else {
				e.RootEnumeration = append(e.RootEnumeration, a.Identifier(n))
			}
			if !p.take(",") {
				break
			}
		}
		p.need("}")
		return e
	case "BIT":
		p.i++
		p.need("STRING")
		b := a.BitStringType{}
		if p.take("{") {
			for {
				nb := a.NamedBit{Name: a.Identifier(p.lower())}
				p.need("(")
				if p.kind(tUpper) || p.kind(tLower) {
					nb.Index = p.definedValue()
				} else {
					nb.Index = a.Number(p.number().num)
				}
				p.need(")")
				b.NamedBits = append(b.NamedBits, nb)
				if !p.take(",") {
					break
				}
			}
			p.need("}")
		}
		return b
	case "OCTET":
		p.i++
		p.need("STRING")
		return a.OctetStringType{}
	case "CHARACTER":
		p.i++
		p.need("STRING")
		return a.CharacterStringType{}
	case "OBJECT":
		p.i++
		p.need("IDENTIFIER")
		return a.ObjectIdentifierType{}
	case "ANY":
		p.i++
		if p.take("DEFINED") {
			p.need("BY")
			return a.AnyType{Identifier: a.Identifier(p.lower())}
		}
		return a.AnyType{}
	case "CHOICE":
		p.i++
		return p.choice()
	}
	p.fail()
	return nil
}

func (p *rp) namedNumber(n string) a.NamedNumber {
	p.need("(")
	nn := a.NamedNumber{Name: a.Identifier(n)}
	if p.kind(tUpper) || p.kind(tLower) {
		nn.Value = p.definedValue()
	} else {
		nn.Value = p.signedNumber()
	}
	p.need(")")
	return nn
}

func (p *rp) signedNumber() a.Number {
	if p.take("-") {
		return a.Number(-p.number().num)
	}
	return a.Number(p.number().num)
}

func (p *rp) choice() a.Type {
	c := a.ChoiceType{}
	p.need("{")
	if !p.is("...") {
		for {
			c.AlternativeTypeList = append(c.AlternativeTypeList, p.namedType())
			if p.is(",") && !p.isN(1, "...") {
				p.need(",")
				continue
			}
			break
		}
		if p.is(",") {
			p.need(",")
			p.ellipsis()
		} else {
			p.need("}")
			return c
		}
	} else {
		p.ellipsis()
	}
	for p.is(",") {
		p.need(",")
		if p.take("...") {
			break
		}
		if p.is("[[") {
			p.unspecified() // README: extension addition groups are not supported
		}
		c.ExtensionTypes = append(c.ExtensionTypes, p.namedType())
	}
	p.need("}")
	return c
}

// ellipsis is "..." with an optional exception.
func (p *rp) ellipsis() {
	p.need("...")
	p.exception()
}

func (p *rp) exception() {
	if !p.take("!") {
		return
	}
	switch {
	case p.kind(tLower):
		p.definedValue()
	case p.kind(tUpper) && p.isN(1, "."):
		p.definedValue()
	case p.kind(tNumber) || p.is("-") || p.hole():
		p.signedNumber()
	default:
		p.typ()
		p.need(":")
		p.value()
	}
}

func (p *rp) structBody() (a.ComponentTypeList, a.ExtensionAdditions) {
	p.need("{")
	var comps a.ComponentTypeList
	var ext a.ExtensionAdditions
	if p.is("}") || p.hole() {
		p.need("}")
		return nil, nil
	}
	if p.is("...") {
		p.ellipsis()
		if p.take(",") {
			if !p.is("...") && !p.hole() {
				p.unspecified() // README: two component type lists are not supported
			}
			p.need("...")
			if p.is(",") {
				p.unspecified()
			}
		}
		p.need("}")
		return nil, nil
	}
	comps = p.componentList(false)
	if p.take(",") {
		p.ellipsis()
		for p.take(",") {
			if p.take("...") {
				if p.take(",") {
					comps = append(comps, p.componentList(true)...)
				}
				break
			}
			if p.is("[[") {
				p.unspecified()
				p.need("[[")
				if p.kind(tNumber) {
					p.number()
					p.need(":")
				}
				for _, x := range p.componentList(true) {
					ext = append(ext, x) // read all the same, a group is the additions it holds
				}
				p.need("]]")
				continue
			}
			ext = append(ext, p.component())
		}
	}
	p.need("}")
	return comps, ext
}

// componentList stops before ", ..." unless it is the last list.
func (p *rp) componentList(last bool) a.ComponentTypeList {
	var out a.ComponentTypeList
	for {
		out = append(out, p.component())
		if p.is(",") && (last || !p.isN(1, "...")) {
			p.need(",")
			continue
		}
		return out
	}
}

func (p *rp) component() a.ComponentType {
	if p.take("COMPONENTS") {
		p.need("OF")
		return a.ComponentsOfComponentType{Type: p.typ()}
	}
	c := a.NamedComponentType{NamedType: p.namedType()}
	if p.take("OPTIONAL") {
		c.IsOptional = true
	} else if p.take("DEFAULT") {
		v := p.value()
		c.Default = &v
	}
	return c
}

func (p *rp) value() a.Value {
	t := p.peek()
	switch {
	case t.k == tLower:
		p.i++
		return a.IdentifiedIntegerValue{Name: t.s}
	case p.is("{"):
		return p.oidValue()
	case p.take("TRUE"):
		return a.Boolean(true)
	case p.take("FALSE"):
		return a.Boolean(false)
	case p.take("PLUS-INFINITY"):
		return a.Real(math.Inf(1))
	case p.take("MINUS-INFINITY"):
		return a.Real(math.Inf(-1))
	}
	neg := p.take("-")
	start := p.i
	n := p.number()
	if !p.is(".") && !p.kind(tExp) {
		v := n.num
		if neg {
			v = -v
		}
		return a.Number(v)
	}
	repr := n.s
	// the parts of a real literal are one lexical item
	if p.take(".") {
		f := p.number()
		repr += "." + f.s
	}
	if p.kind(tExp) {
		p.i++
		repr += "e"
		if p.take("-") {
			repr += "-"
		}
		repr += p.number().s
	}
	for k := start + 1; k < p.i; k++ {
		if !p.t[k].glued && k < p.lenient {
			p.lenient = k
		}
	}
	f, err := strconv.ParseFloat(repr, 64)
	if err != nil {
		// not representable: to be refused, wherever the parser notices
		p.i--
		p.unspecified()
		p.fail()
	}
	if neg {
		f = -f
	}
	return a.Real(f)
}

// constraints (X.680 clauses 45-49)

func (p *rp) constraint() a.Constraint {
	p.need("(")
	s := a.SubtypeConstraint{p.elementSetSpec()}
	if p.take(",") {
		p.need("...")
		if p.take(",") {
			s = append(s, p.elementSetSpec())
		}
	}
	p.exception()
	p.need(")")
	return a.Constraint{ConstraintSpec: s}
}

func (p *rp) elementSetSpec() a.ElementSetSpec {
	if p.take("ALL") {
		p.need("EXCEPT")
		return a.Exclusions{Elements: p.elements()}
	}
	u := a.Unions{p.intersections()}
	for p.take("|") || p.take("UNION") {
		u = append(u, p.intersections())
	}
	return u
}

func (p *rp) intersections() a.Intersections {
	out := a.Intersections{p.intersectionElements()}
	for p.take("^") || p.take("INTERSECTION") {
		out = append(out, p.intersectionElements())
	}
	return out
}

func (p *rp) intersectionElements() a.IntersectionElements {
	ie := a.IntersectionElements{Elements: p.elements()}
	if p.take("EXCEPT") {
		ie.Exclusions = a.Exclusions{Elements: p.elements()}
	}
	return ie
}

func (p *rp) elements() a.Elements {
	t := p.peek()
	if p.take("(") {
		e := p.elementSetSpec()
		p.need(")")
		return e
	}
	if t.k == tWord {
		switch t.s {
		case "SIZE":
			p.i++
			return a.SizeConstraint{Constraint: p.constraint()}
		case "WITH":
			p.i++
			if p.take("COMPONENT") {
				p.constraint()
				return a.InnerTypeConstraint{}
			}
			p.need("COMPONENTS")
			p.need("{")
			if p.take("...") {
				p.need(",")
			}
			for {
				p.lower()
				if p.is("(") {
					p.constraint()
				}
				_ = p.take("PRESENT") || p.take("ABSENT") || p.take("OPTIONAL")
				if !p.take(",") {
					break
				}
			}
			p.need("}")
			return a.InnerTypeConstraint{}
		case "MIN":
			p.i++
			return p.valueRange(nil)
		case "TRUE", "FALSE", "PLUS-INFINITY", "MINUS-INFINITY":
		default:
			return a.TypeConstraint{Type: p.typ()}
		}
	}
	if t.k == tUpper || t.k == tSym && t.s == "[" {
		return a.TypeConstraint{Type: p.typ()}
	}
	v := p.value()
	if p.is("<") || p.is("..") {
		return p.valueRange(v)
	}
	return a.SingleValue{Value: v}
}

func (p *rp) valueRange(lo a.Value) a.Elements {
	r := a.ValueRange{}
	r.LowerEndpoint.Value = lo
	if p.take("<") {
		r.LowerEndpoint.IsOpen = true
	}
	p.need("..")
	if p.take("<") {
		r.UpperEndpoint.IsOpen = true
	}
	if !p.take("MAX") {
		r.UpperEndpoint.Value = p.value()
	}
	return r
}
