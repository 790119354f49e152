package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	a "github.com/chemikadze/asn1go"
)

// what a front-end space judges
type judge struct {
	total  bool // C01: exactly one of module and error
	accept bool // C02/C20/C04: accepted text must give the reference AST, and must be accepted
	reject bool // C03: text outside the notation must be refused
	line   bool // C06: error line
	gen    bool // C23: generation of whatever is accepted is total
}

var lineRe = regexp.MustCompile(`^line (\d+): `)

// judgeText parses text with the implementation and compares with the reference.
func judgeText(c *Ctl, j judge, text string) *refResult {
	mod, err := a.ParseString(text)
	if (mod == nil) == (err == nil) {
		c.Fail("parsing returned module=%v error=%v for %q", mod != nil, err, clip(text, 400))
	}
	ref := refParse(text)
	judgeResult(c, j, text, ref, mod, err)
	if j.gen && mod != nil {
		judgeTotal(c, mod, clip(text, 1000))
	}
	return ref
}

func judgeResult(c *Ctl, j judge, text string, ref *refResult, mod *a.ModuleDefinition, err error) {
	switch ref.v {
	case vAccept:
		c.Outcome("a")
		if j.accept {
			if err != nil {
				c.Fail("valid module refused: %v: %q", err, clip(text, 1000))
			}
			if d := diffAST(*ref.mod, *mod); d != "" {
				c.Fail("AST differs (want vs got) at %s for %q", d, clip(text, 1000))
			}
		}
	case vReject:
		c.Outcome("r" + strconv.Itoa(ref.errTok))
		if j.reject && err == nil {
			c.Fail("text outside the notation accepted: first wrong item is #%d %q (line %d) in %q", ref.errTok, tokText(ref), ref.errLine, clip(text, 1000))
		}
		if j.line && err != nil && !ref.lx.oddNL {
			m := lineRe.FindStringSubmatch(err.Error())
			if m == nil {
				c.Fail("error does not start with a line number: %q for %q", err.Error(), clip(text, 1000))
			}
			got, _ := strconv.Atoi(m[1])
			if !lineOK(ref, text, got) {
				c.Fail("error names line %d, the first wrong item %q is on line %d: %q for %q", got, tokText(ref), ref.errLine, err.Error(), clip(text, 1000))
			}
		}
	case vLenient:
		c.Outcome("l")
		// nobody says whether such a text is accepted, but if it is, nothing may be lost or invented
		if j.accept && err == nil && ref.mod != nil {
			c.Outcome("la")
			if d := diffAST(*ref.mod, *mod); d != "" {
				c.Fail("unspecified text accepted with another meaning (want vs got) at %s for %q", d, clip(text, 1000))
			}
		}
	}
}

// lineOK: at the end of the text any line from the last item to the end is the last line in some reading:
// the number of the line that holds the end of the text, or the one before it if the text ends with a line break.
func lineOK(ref *refResult, text string, got int) bool {
	if !ref.atEOF {
		return got == ref.errLine
	}
	if got == ref.lx.lines {
		return true
	}
	return strings.HasSuffix(text, "\n") && got == ref.lx.lines-1
}

func tokText(r *refResult) string {
	if r.errTok < len(r.lx.toks) {
		return r.lx.toks[r.errTok].s
	}
	return ""
}

// ---------------------------------------------------------------- tokens

var symbolTokens = []string{"{", "}", "(", ")", "[", "]", ",", ";", ":", "::=", ".", "..", "...", "<", ">", "=", "|", "^", "!", "@", "-", "[[", "]]", "\"", "'"}

func allTokens() []string {
	out := []string{"A", "B", "a", "b", "1", "2.5", "3e1"}
	out = append(out, symbolTokens...)
	out = append(out, reservedList...)
	return out
}

type tokenContext struct {
	name, text string
	small      []string // reduced alphabet for deeper exploration
}

const hdr = "M DEFINITIONS ::= BEGIN "

var typeSmall = []string{"A", "a", "1", "INTEGER", "SEQUENCE", "SET", "OF", "CHOICE", "{", "}", "(", ")", "[", "]", ",", "...", "IMPLICIT", "OPTIONAL", "DEFAULT", "SIZE", "::="}

var tokenContexts = []tokenContext{
	{"start", "", []string{"A", "a", "1", "{", "}", "(", ")", "DEFINITIONS", "IMPLICIT", "AUTOMATIC", "EXPLICIT", "TAGS", "EXTENSIBILITY", "IMPLIED", "::=", "BEGIN", "END"}},
	{"header", "M DEFINITIONS ", []string{"IMPLICIT", "EXPLICIT", "AUTOMATIC", "TAGS", "EXTENSIBILITY", "IMPLIED", "::=", "BEGIN", "END", "A", "a", "INTEGER"}},
	{"body", hdr, []string{"A", "a", "EXPORTS", "ALL", ";", ",", "IMPORTS", "FROM", "::=", "INTEGER", "1", "END", "{", "}", "."}},
	{"imports", hdr + "IMPORTS ", []string{"A", "a", ",", "FROM", ";", ".", "{", "}", "1", "(", ")"}},
	{"imported", hdr + "IMPORTS A FROM B ", []string{"A", "a", ",", "FROM", ";", ".", "{", "}", "1"}},
	{"type", hdr + "A ::= ", typeSmall},
	{"sequence", hdr + "A ::= SEQUENCE { ", []string{"a", "A", "INTEGER", ",", "...", "}", "OPTIONAL", "DEFAULT", "1", "COMPONENTS", "OF", "!", "[[", "]]", "("}},
	{"component", hdr + "A ::= SET { a INTEGER ", []string{"a", "A", "REAL", ",", "...", "}", "OPTIONAL", "DEFAULT", "1", "COMPONENTS", "OF", "!", "["}},
	{"extension", hdr + "A ::= SEQUENCE { a INTEGER , ... ", []string{"b", "NULL", ",", "...", "}", "OPTIONAL", "DEFAULT", "1", "COMPONENTS", "OF", "!", "[[", "]]", ":"}},
	{"choice", hdr + "A ::= CHOICE { ", []string{"a", "NULL", ",", "...", "}", "!", "1", "[", "]", "OPTIONAL", "[["}},
	{"constraint", hdr + "A ::= INTEGER ( ", []string{"1", "a", "A", "..", "<", "|", "^", "EXCEPT", "ALL", "(", ")", ",", "...", "MIN", "MAX", "SIZE", "!", "-"}},
	{"constraint1", hdr + "A ::= INTEGER ( 1 ", []string{"1", "A", "..", "<", "|", "UNION", "^", "INTERSECTION", "EXCEPT", "ALL", "(", ")", ",", "...", "MAX", "!"}},
	{"exception", hdr + "A ::= INTEGER ( 1 ! ", []string{"1", "a", "A", "-", ".", ":", "INTEGER", ")", "(", "TRUE", "{", "}"}},
	{"setconstraint", hdr + "A ::= SET ( ", []string{"1", "SIZE", "(", ")", "OF", "A", "a", "INTEGER", "|", "..", ","}},
	{"size", hdr + "A ::= SEQUENCE SIZE ", []string{"(", "1", ")", "OF", "A", "a", "..", "MAX", "SIZE", "|", "INTEGER"}},
	{"inner", hdr + "A ::= B ( WITH ", []string{"COMPONENT", "COMPONENTS", "{", "}", "(", ")", "a", ",", "...", "PRESENT", "ABSENT", "OPTIONAL", "1", "SIZE"}},
	{"tag", hdr + "A ::= [ ", []string{"1", "UNIVERSAL", "APPLICATION", "PRIVATE", "a", "A", ".", "]", "IMPLICIT", "EXPLICIT", "INTEGER", "["}},
	{"integer", hdr + "A ::= INTEGER { ", []string{"a", "A", "(", ")", "1", "-", ",", "}", ".", "...", "("}},
	{"enumerated", hdr + "A ::= ENUMERATED { ", []string{"a", "A", "(", ")", "1", "-", ",", "}", ".", "..."}},
	{"bits", hdr + "A ::= BIT STRING { ", []string{"a", "A", "(", ")", "1", "-", ",", "}", ".", "..."}},
	{"any", hdr + "A ::= ANY ", []string{"DEFINED", "BY", "a", "A", "END", "(", ")", "1", "::="}},
	{"valuetype", hdr + "a ", []string{"INTEGER", "A", "::=", "1", "{", "}", "a", "(", ")", "OCTET", "STRING"}},
	{"value", hdr + "a INTEGER ::= ", []string{"1", "-", "2.5", "3e1", "a", "A", "{", "}", "TRUE", "PLUS-INFINITY", "END", ".", "::="}},
	{"oid", hdr + "a OBJECT IDENTIFIER ::= { ", []string{"a", "A", "1", "(", ")", ".", "}", "-", ","}},
	{"default", hdr + "A ::= SEQUENCE { a INTEGER DEFAULT ", []string{"1", "-", "2.5", "a", "{", "}", "FALSE", "MINUS-INFINITY", ",", "...", "(", "b", "INTEGER", "OPTIONAL"}},
	{"end", hdr + "END ", []string{"A", "a", "1", "END", ";", "::=", "."}},
	{"endbody", hdr + "A ::= INTEGER END ", []string{"A", "a", "1", "END", ";", "::=", "."}},
}

func joinFrags(xs []string) string { return strings.Join(xs, " ") }

// tokenSpace extends every viable prefix by every token of the alphabet up to the given depth.
// A viable prefix is completed by the reference parser and the whole module is judged;
// a prefix that is not viable is judged as it is and with the completion that the previous prefix had.
func tokenSpace(tc tokenContext, alpha []string, depth int, label string, j judge, sep string) *Space {
	return &Space{
		Name:  label + "-" + tc.name,
		Bound: fmt.Sprintf("every sequence of up to %d of %d tokens after %q", depth, len(alpha), tc.text),
		Run: func(c *Ctl) {
			text := tc.text
			r := refParseMode(text, true)
			if !r.complete {
				panic("harness: context is not viable: " + text)
			}
			for d := 0; ; d++ {
				stop := d == depth
				if !stop {
					k := c.Choose(1 + len(alpha))
					if k == 0 {
						stop = true
					} else {
						prev := r
						text += alpha[k-1] + sep
						r = refParseMode(text, true)
						if !r.complete {
							// not viable
							c.Input(text)
							judgeText(c, j, text)
							if r.v == vReject && (j.reject || j.accept) {
								judgeText(c, j, text+joinFrags(prev.completion))
								c.Steps(1)
							}
							return
						}
						continue
					}
				}
				full := text + joinFrags(r.completion)
				c.Input(full)
				judgeText(c, j, full)
				if j.total || j.reject || j.line {
					judgeText(c, j, text) // truncated
					c.Steps(1)
				}
				return
			}
		},
	}
}

func tokenSpaces(j judge, fullDepth, smallDepth int, sep string) []*Space {
	var out []*Space
	all := allTokens()
	for _, tc := range tokenContexts {
		out = append(out, tokenSpace(tc, all, fullDepth, "tokens", j, sep))
	}
	for _, tc := range tokenContexts {
		out = append(out, tokenSpace(tc, tc.small, smallDepth, "deep", j, sep))
	}
	return out
}
