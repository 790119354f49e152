package main

import (
	"fmt"
	"strings"
)

// judgeDerived judges a derived module; a derivation the reference does not accept is a harness error.
func judgeDerived(c *Ctl, j judge, text string) *refResult {
	c.Input(text)
	r := judgeText(c, j, text)
	if r.v == vReject {
		panic(fmt.Sprintf("harness: derived module is not accepted by the reference: %q at item %d %q", text, r.errTok, tokText(r)))
	}
	return r
}

type derivation struct {
	name, pre, post string
	f               func(g *gen)
}

var derivations = []derivation{
	{"module", "", "", func(g *gen) { g.module(3) }},
	{"type", hdr + "A ::= ", " END", (*gen).typ},
	{"sequence", hdr + "A ::= SEQUENCE ", " END", (*gen).structBody},
	{"choice", hdr + "A ::= CHOICE ", " END", (*gen).choiceBody},
	{"constraint", hdr + "A ::= INTEGER ", " END", (*gen).constraint},
}

func (d derivation) tokens(c *Ctl, dev, depth int) []string {
	g := &gen{c: c, dev: dev, depth: depth}
	d.f(g)
	out := append(words(d.pre), g.toks...)
	return append(out, words(d.post)...)
}

func deriveSpace(d derivation, dev, depth int, j judge) *Space {
	return &Space{
		Name:  "derive-" + d.name,
		Bound: fmt.Sprintf("every derivation with at most %d non-default choices, nesting depth %d, in %q _ %q", dev, depth, d.pre, d.post),
		Run: func(c *Ctl) {
			judgeDerived(c, j, strings.Join(d.tokens(c, dev, depth), " "))
		},
	}
}

// pairSpace: two definitions, each derived on its own budget, in one module.
func pairSpace(dev int, j judge) *Space {
	return &Space{
		Name:  "pairs",
		Bound: fmt.Sprintf("every pair of assignments, each with at most %d non-default choices", dev),
		Run: func(c *Ctl) {
			g := &gen{c: c, depth: 2}
			g.e(words(hdr)...)
			for i := 0; i < 2; i++ {
				g.dev = dev
				if c.Bool() {
					g.e([]string{"a", "b"}[i])
					g.typ()
					g.e("::=")
					g.value()
				} else {
					g.e([]string{"A", "B"}[i], "::=")
					g.typ()
				}
			}
			g.e("END")
			judgeDerived(c, j, strings.Join(g.toks, " "))
		},
	}
}

// longSpace: every list construct of the notation with n items.
type longList struct {
	name, pre, sep, post string
	items                []string // patterns, %d is the index
}

var longLists = []longList{
	{"components", hdr + "A ::= SEQUENCE { ", " , ", " } END", []string{"c%d INTEGER", "c%d INTEGER DEFAULT %d", "c%d OCTET STRING OPTIONAL", "COMPONENTS OF T%d", "c%d [%d] BOOLEAN", "c%d OBJECT IDENTIFIER DEFAULT { a %d b%d }"}},
	{"set", hdr + "A ::= SET { ", " , ", " } END", []string{"c%d INTEGER", "c%d BOOLEAN DEFAULT TRUE", "c%d T%d OPTIONAL"}},
	{"additions", hdr + "A ::= SEQUENCE { a NULL , ... , ", " , ", " } END", []string{"c%d INTEGER", "c%d INTEGER DEFAULT -%d", "c%d INTEGER OPTIONAL"}},
	{"trailing", hdr + "A ::= SEQUENCE { a NULL , ... , b NULL , ... , ", " , ", " } END", []string{"c%d INTEGER", "c%d INTEGER DEFAULT %d"}},
	{"alternatives", hdr + "A ::= CHOICE { ", " , ", " } END", []string{"c%d INTEGER", "c%d [%d] T%d"}},
	{"altadditions", hdr + "A ::= CHOICE { a NULL , ... , ", " , ", " } END", []string{"c%d INTEGER", "c%d [%d] T%d"}},
	{"named", hdr + "A ::= INTEGER { ", " , ", " } END", []string{"c%d ( %d )", "c%d ( -%d )", "c%d ( v%d )"}},
	{"enum", hdr + "A ::= ENUMERATED { ", " , ", " } END", []string{"c%d", "c%d ( %d )"}},
	{"bits", hdr + "A ::= BIT STRING { ", " , ", " } END", []string{"c%d ( %d )", "c%d ( M.v%d )"}},
	{"oid", hdr + "a OBJECT IDENTIFIER ::= { ", " ", " } END", []string{"%d", "c%d", "c%d ( %d )", "M%d.v%d"}},
	{"defid", "M { ", " ", " } DEFINITIONS ::= BEGIN END", []string{"%d", "c%d", "c%d ( %d )"}},
	{"symbols", hdr + "IMPORTS ", " , ", " FROM B ; A ::= NULL END", []string{"T%d", "v%d"}},
	{"modules", hdr + "IMPORTS ", " ", " ; A ::= NULL END", []string{"T%d FROM M%d", "T%d FROM M%d { %d }", "v%d , T%d FROM M%d"}},
	{"exports", hdr + "EXPORTS ", " , ", " ; A ::= NULL END", []string{"T%d", "v%d"}},
	{"assignments", hdr, " ", " END", []string{"T%d ::= INTEGER", "v%d INTEGER ::= %d", "T%d ::= SEQUENCE { a INTEGER DEFAULT %d }", "v%d OBJECT IDENTIFIER ::= { b%d %d }"}},
	{"union", hdr + "A ::= INTEGER ( ", " | ", " ) END", []string{"%d", "%d .. %d", "( %d )", "T%d"}},
	{"intersection", hdr + "A ::= INTEGER ( ", " ^ ", " ) END", []string{"%d", "%d .. MAX", "%d EXCEPT %d"}},
	{"serial", hdr + "A ::= INTEGER ", " ", " END", []string{"( %d )", "( %d | %d )"}},
	{"inner", hdr + "A ::= T ( WITH COMPONENTS { ", " , ", " } ) END", []string{"c%d", "c%d ( %d ) PRESENT"}},
}

func longSpace(lengths []int, j judge) *Space {
	return &Space{
		Name:  "long",
		Bound: fmt.Sprintf("every list construct x item patterns (one, or two alternating) x lengths %v", clip(fmt.Sprint(lengths), 60)),
		Run: func(c *Ctl) {
			l := longLists[c.Choose(len(longLists))]
			p1 := l.items[c.Choose(len(l.items))]
			p2 := l.items[c.Choose(len(l.items))]
			n := lengths[c.Choose(len(lengths))]
			var b strings.Builder
			b.WriteString(l.pre)
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteString(l.sep)
				}
				p := p1
				if i%2 == 1 {
					p = p2
				}
				b.WriteString(strings.ReplaceAll(p, "%d", fmt.Sprint(i+1)))
			}
			b.WriteString(l.post)
			judgeDerived(c, j, b.String())
		},
	}
}

func lengthsUpTo(n int, more ...int) []int {
	var out []int
	for i := 1; i <= n; i++ {
		out = append(out, i)
	}
	return append(out, more...)
}

// nestSpace: nesting of constructs.
type nestForm struct{ name, open, close string }

var typeNests = []nestForm{
	{"seq", "SEQUENCE { a ", " }"},
	{"seq2", "SEQUENCE { z INTEGER DEFAULT 1 , a ", " OPTIONAL }"},
	{"set", "SET { a ", " , b NULL }"},
	{"choice", "CHOICE { a ", " }"},
	{"seqof", "SEQUENCE OF ", ""},
	{"setof", "SET SIZE (1..2) OF x ", ""},
	{"tag", "[3] ", ""},
	{"itag", "[APPLICATION 3] IMPLICIT ", ""},
	{"ext", "SEQUENCE { a NULL , ... , b ", " }"},
	{"cons", "", " (1)"},
	{"contained", "INTEGER ( INCLUDED-", " )"},
	{"inner", "INTEGER ( SIZE ( [1] ", " ) )"},
	{"comps", "SEQUENCE { COMPONENTS OF ", " }"},
}

func nestSpace(depths []int, j judge) *Space {
	return &Space{
		Name:  "nest",
		Bound: fmt.Sprintf("two alternating nesting constructs x depths %v", clip(fmt.Sprint(depths), 60)),
		Run: func(c *Ctl) {
			f1 := typeNests[c.Choose(len(typeNests))]
			f2 := typeNests[c.Choose(len(typeNests))]
			n := depths[c.Choose(len(depths))]
			if f1.name == "contained" || f2.name == "contained" {
				return
			}
			var b, e []string
			for i := 0; i < n; i++ {
				f := f1
				if i%2 == 1 {
					f = f2
				}
				b = append(b, f.open)
				e = append(e, f.close)
			}
			var t strings.Builder
			t.WriteString(hdr + "A ::= ")
			for _, x := range b {
				t.WriteString(x)
			}
			t.WriteString("T")
			for i := len(e) - 1; i >= 0; i-- {
				t.WriteString(e[i])
			}
			t.WriteString(" b INTEGER ::= 2 END")
			judgeDerived(c, j, t.String())
		},
	}
}

// defaultsSpace: what follows each component, in every combination.
func defaultsSpace(n int, j judge) *Space {
	suffix := []string{"", "OPTIONAL", "DEFAULT 1", "DEFAULT -1", "DEFAULT 2.5", "DEFAULT TRUE", "DEFAULT FALSE", "DEFAULT PLUS-INFINITY", "DEFAULT x", "DEFAULT { 1 2 }", "DEFAULT { x y (3) }"}
	return &Space{
		Name:  "defaults",
		Bound: fmt.Sprintf("every combination of %d endings on up to %d components, SEQUENCE and SET, root or addition", len(suffix), n),
		Run: func(c *Ctl) {
			t := hdr + "A ::= " + c.Pick("SEQUENCE", "SET") + " { "
			k := 1 + c.Choose(n)
			ext := c.Choose(k + 1) // position of the extension marker, 0 = none
			for i := 0; i < k; i++ {
				if i > 0 {
					t += " , "
				}
				if ext > 0 && i == ext {
					t += "... , "
				}
				t += fmt.Sprintf("c%d INTEGER %s", i, suffix[c.Choose(len(suffix))])
			}
			judgeDerived(c, j, t+" } b INTEGER ::= 77 END")
		},
	}
}

// looseSpace: notation that is not documented as supported, or not as ASN.1 has it, but may be read. If it is, nothing may be lost.
func looseSpace(n int, j judge) *Space {
	items := []string{"%s INTEGER", "%s B OPTIONAL", "[[ %s INTEGER ]]", "[[ 2 : %s B OPTIONAL ]]", "[[ %s INTEGER , %[1]sx B DEFAULT 3 ]]", "[[ COMPONENTS OF T%[1]s ]]", "COMPONENTS OF T%[1]s", "[[ %s SEQUENCE { i INTEGER , ... , [[ j INTEGER ]] , k INTEGER } ]]"}
	tails := []string{"", " , ...", " , ... , z INTEGER", " , ... , COMPONENTS OF Z , z INTEGER"}
	assigns := []string{"a INTEGER ::= 007", "a REAL ::= 1 . 50", "a REAL ::= 1 .5", "a REAL ::= 007.50", "a REAL ::= 1.5e - 3", "a REAL ::= 1.5e 03", "a REAL ::= - 1.5", "a INTEGER ::= - 12",
		"A ::= [1] [2] INTEGER", "A ::= [APPLICATION 1] IMPLICIT [2] EXPLICIT SET OF INTEGER", "A ::= [UNIVERSAL 10] IMPLICIT INTEGER", "A ::= [UNIVERSAL 3] BIT STRING { x ( 00 ) , y ( 010 ) }",
		"A\u00e9b ::= INTEGER { x\u00e9 ( 1 ) }", "\u00c9t\u00e9 ::= SEQUENCE { x T\u00e9 }", "x\u00e9 INTEGER ::= 3",
		"A ::= INTEGER { x ( 012 ) }", "A ::= ENUMERATED { x ( 012 ) }", "A ::= SEQUENCE { x [010] INTEGER , y INTEGER DEFAULT 010 }", "A ::= INTEGER ( 010..020 )", "A ::= SEQUENCE SIZE ( 08 ) OF INTEGER", "a OBJECT IDENTIFIER ::= { 01 x ( 010 ) 020 }",
		"a INTEGER ::= 1b INTEGER ::= 2", "a OBJECT IDENTIFIER ::= { 1x 2 }", "A ::= INTEGER ( 1EXCEPT 2 | 3MAX )", "a INTEGER ::= 5B ::= NULL"}
	return &Space{
		Name:  "loose",
		Bound: fmt.Sprintf("every list of up to %d extension additions out of %d, with groups, x %d endings x SEQUENCE and SET; all pairs of %d assignments with forms that the documentation leaves open", n, len(items), len(tails), len(assigns)),
		Run: func(c *Ctl) {
			if c.Choose(2) == 0 {
				t := hdr + "A ::= " + c.Pick("SEQUENCE", "SET") + " { a INTEGER , ..."
				k := 1 + c.Choose(n)
				for i := 0; i < k; i++ {
					t += " , " + fmt.Sprintf(items[c.Choose(len(items))], string(rune('b'+i)))
				}
				judgeLoose(c, j, t+tails[c.Choose(len(tails))]+" } b INTEGER ::= 77 END")
				return
			}
			judgeLoose(c, j, hdr+assigns[c.Choose(len(assigns))]+" "+assigns[c.Choose(len(assigns))]+" END")
		},
	}
}

// editSpace: one edit at every token of every derived module.
func editSpace(d derivation, dev, depth int, alpha []string, j judge, seps []string) *Space {
	return &Space{
		Name:  "edit-" + d.name,
		Bound: fmt.Sprintf("every derivation with at most %d non-default choices x every token position x {delete, duplicate, swap, cut, replace by and insert each of %d tokens} x %d separators", dev, len(alpha), len(seps)),
		Run: func(c *Ctl) {
			ts := d.tokens(c, dev, depth)
			sep := seps[c.Choose(len(seps))]
			i := c.Choose(len(ts) + 1)
			var out []string
			pre := append([]string{}, ts[:i]...)
			if i == len(ts) {
				k := c.Choose(len(alpha))
				out = append(pre, alpha[k])
			} else {
				k := c.Choose(4 + 2*len(alpha))
				switch {
				case k == 0:
					out = append(pre, ts[i+1:]...)
				case k == 1:
					out = append(append(pre, ts[i]), ts[i:]...)
				case k == 2:
					if i+1 == len(ts) {
						return
					}
					out = append(append(pre, ts[i+1], ts[i]), ts[i+2:]...)
				case k == 3:
					out = pre
				case k < 4+len(alpha):
					out = append(append(pre, alpha[k-4]), ts[i+1:]...)
				default:
					out = append(append(pre, alpha[k-4-len(alpha)]), ts[i:]...)
				}
			}
			text := strings.Join(out, sep)
			c.Input(text)
			judgeText(c, j, text)
		},
	}
}

var midTokens = []string{"A", "a", "1", "{", "}", "(", ")", "[", "]", ",", ";", ":", "::=", ".", "..", "...", "<", "|", "^", "!", "-", "INTEGER", "SEQUENCE", "OF", "SIZE", "OPTIONAL", "DEFAULT", "EXCEPT", "ALL", "END", "BEGIN", "IMPLICIT", "FROM", "COMPONENTS", "MAX", "TRUE", "2.5", "[[", "]]", "\"", "STRING", "IDENTIFIER", "EXTERNAL"}

// truncSpace: every derived module cut at every byte, and with the first k bytes removed.
func truncSpace(d derivation, dev, depth int, j judge) *Space {
	return &Space{
		Name:  "cut-" + d.name,
		Bound: fmt.Sprintf("every derivation with at most %d non-default choices, cut at every byte from the end or from the start", dev),
		Run: func(c *Ctl) {
			t := strings.Join(d.tokens(c, dev, depth), " ")
			k := c.Choose(2*len(t) + 1)
			if k <= len(t) {
				t = t[:k]
			} else {
				t = t[k-len(t):]
			}
			c.Input(t)
			judgeText(c, j, t)
		},
	}
}

// ---------------------------------------------------------------- characters

type charContext struct{ name, pre, post string }

var charContexts = []charContext{
	{"start", "", "M DEFINITIONS ::= BEGIN END"},
	{"afterid", "M", " DEFINITIONS ::= BEGIN END"},
	{"assign", "M DEFINITIONS ", "::= BEGIN END"},
	{"type", hdr + "A ::= ", " b INTEGER ::= 2 END"},
	{"word", hdr + "A ::= T", "b INTEGER ::= 2 END"},
	{"reserved", hdr + "A ::= SEQUENCE", "OF INTEGER END"},
	{"ident", hdr + "A ::= SEQUENCE { a", "c NULL } END"},
	{"number", hdr + "a INTEGER ::= 1", "\nEND"},
	{"value", hdr + "a REAL ::= ", "5 END"},
	{"range", hdr + "A ::= INTEGER (1", "2) END"},
	{"brace", hdr + "A ::= SEQUENCE {", "} END"},
	{"tag", hdr + "A ::= [", "1] INTEGER END"},
	{"linecomment", hdr + "A ::= NULL -- x", "\nEND"},
	{"linecomment2", hdr + "A ::= NULL --", "INTEGER -- b T ::= 1\nEND"},
	{"blockcomment", hdr + "A ::= NULL /*", "*/ END"},
	{"nestedcomment", hdr + "A ::= NULL /* /*", "*/ */ END"},
	{"hyphen", hdr + "A ::= NULL b-", "c T ::= 1 END"},
	{"end", hdr + "END", ""},
	{"end2", hdr + "A ::= NULL END ", " -- x"},
	{"import", hdr + "IMPORTS A FROM B", ";a C ::= 1 END"},
}

var charFull = []string{"-", "/", "*", "\n", "\r", " ", "a", "A", "0", "9", "e", "E", ".", ":", "=", "[", "]", "(", ")", "{", "}", ",", ";", "|", "^", "!", "@", "<", ">", "\"", "'", "\t", "\v", "\f", "_", "#", "$", "&", "+", "%", "\\", "`", "~", "?", "\x00", "\x7f", "\x80", "\xff", "\xc3", "é", "\u00a0", "\u2028", "\ufeff", "٣", "\U0001F600"}
var charMid = []string{"-", "/", "*", "\n", "\r", " ", "a", "A", "1", "e", ".", ":", "=", "[", "]"}
var charFew = []string{"-", "/", "*", "\n", "a", " "}
var charNum = []string{"0", "9", ".", "e", "E", "-", " "}

func charSpace(label string, cc charContext, alpha []string, depth int, j judge) *Space {
	return &Space{
		Name:  label + "-" + cc.name,
		Bound: fmt.Sprintf("every string of up to %d of %d characters in %q _ %q", depth, len(alpha), cc.pre, cc.post),
		Run: func(c *Ctl) {
			t := cc.pre
			for d := 0; d < depth; d++ {
				k := c.Choose(1 + len(alpha))
				if k == 0 {
					break
				}
				t += alpha[k-1]
			}
			cut := t
			t += cc.post
			c.Input(t)
			judgeText(c, j, t)
			judgeText(c, j, cut)
			c.Steps(1)
		},
	}
}

func charSpaces(j judge, full, mid, few int, only func(cc charContext) bool) []*Space {
	var out []*Space
	for _, cc := range charContexts {
		if only != nil && !only(cc) {
			continue
		}
		out = append(out, charSpace("chars", cc, charFull, full, j), charSpace("chars-mid", cc, charMid, mid, j), charSpace("chars-few", cc, charFew, few, j))
	}
	return out
}

func byteSpaces(j judge, depth int) []*Space {
	var all []string
	for i := 0; i < 256; i++ {
		all = append(all, string([]byte{byte(i)}))
	}
	var out []*Space
	for _, cc := range charContexts {
		out = append(out, charSpace("bytes", cc, all, depth, j))
	}
	return out
}

// farSpace: the first error stands behind many line breaks, of every style.
func farSpace(j judge, maxExp int) *Space {
	fills := []string{"\n", "\r\n", "--c\n", "-- c\r\n", "/*\n*/", "/*\r\n", "A ::= NULL\n", "a\n::=\r\n"}
	errs := []string{"x", "#", "A ::= ]", "A ::= --\r\n\r\n]", "a--", "", "1"}
	return &Space{
		Name:  "far",
		Bound: fmt.Sprintf("%d styles of line breaks x their number: 0 to 20, around every power of two up to 2^%d, x %d errors behind them, line breaks before the module or in it", len(fills), maxExp, len(errs)),
		Run: func(c *Ctl) {
			k := c.Choose(21 + 3*(maxExp-4))
			n := k
			if k > 20 {
				n = 1<<uint(5+(k-21)/3) - 1 + (k-21)%3
			}
			f := c.Choose(len(fills))
			inside := c.Bool()
			e := errs[c.Choose(len(errs))]
			var b strings.Builder
			if inside {
				b.WriteString("M DEFINITIONS ::= BEGIN\n")
			}
			switch {
			case f == 5:
				b.WriteString(strings.Repeat(fills[f], 1) + strings.Repeat("\r\n", n) + "*/")
			case f == 6 && !inside, f == 7 && n > 100:
				return
			default:
				b.WriteString(strings.Repeat(fills[f], n))
			}
			b.WriteString(e)
			c.Input(fmt.Sprintf("%d times %q, then %q, in the module %v", n, fills[f], e, inside))
			judgeText(c, j, b.String())
		},
	}
}

// ---------------------------------------------------------------- scale

func scaleSpace(sizes []int, j judge) *Space {
	type form struct{ name, pre, rep, mid, suf, post string }
	forms := []form{
		{"parens", hdr + "A ::= INTEGER (", "(", "1", ")", ") END"},
		{"open parens", hdr + "A ::= INTEGER (", "(", "1", "", ") END"},
		{"close parens", hdr + "A ::= INTEGER (1", ")", "", "", ") END"},
		{"sequences", hdr + "A ::= ", "SEQUENCE{a ", "NULL", "}", " END"},
		{"open sequences", hdr + "A ::= ", "SEQUENCE{a ", "NULL", "", " END"},
		{"choices", hdr + "A ::= ", "CHOICE{a ", "NULL", "}", " END"},
		{"seqof", hdr + "A ::= ", "SEQUENCE OF ", "NULL", "", " END"},
		{"tags", hdr + "A ::= ", "[1]", "NULL", "", " END"},
		{"open tags", hdr + "A ::= ", "[", "NULL", "", " END"},
		{"constraints", hdr + "A ::= T", "(1)", "", "", " END"},
		{"comments", hdr, "/*", "x", "*/", " END"},
		{"open comments", hdr, "/*", "x", "", " END"},
		{"close comments", hdr, "*/", "", "", " END"},
		{"line comments", hdr, "--x--", "", "", " END"},
		{"slashes", hdr, "/", "", "", " END"},
		{"hyphens", hdr, "-", "", "", "\n END"},
		{"hyphen comment", hdr, "-", "", "", "\n END"},
		{"stars", hdr + "/*", "*", "", "", "/ END"},
		{"spaces", hdr, " ", "", "", " END"},
		{"newlines", hdr, "\n", "", "", " END"},
		{"crlf", hdr, "\r\n", "", "", " END"},
		{"word", hdr + "A", "b", "", "", " ::= NULL END"},
		{"hyphenword", hdr + "A", "-b", "", "", " ::= NULL END"},
		{"digits", hdr + "a INTEGER ::= 1", "0", "", "", " END"},
		{"fraction", hdr + "a REAL ::= 1.", "0", "", "", "1 END"},
		{"exponent", hdr + "a REAL ::= 1e", "9", "", "", " END"},
		{"assignments", hdr, "A ::= NULL ", "", "", " END"},
		{"components", hdr + "A ::= SEQUENCE {", "a NULL,", "", "", "b NULL} END"},
		{"union", hdr + "A ::= INTEGER (", "1|", "", "", "1) END"},
		{"oid", hdr + "a OBJECT IDENTIFIER ::= {", "1 ", "", "", "} END"},
		{"colons", hdr, ":", "", "", " END"},
		{"dots", hdr + "A ::= INTEGER (1", ".", "", "", "2) END"},
		{"garbage", hdr + "END", "\xff", "", "", ""},
		{"nul", hdr, "\x00", "", "", " END"},
		{"after", hdr + "END", " A", "", "", ""},
		{"quotes", hdr, "\"", "", "", "END"},
		{"line comment body", hdr + "-- ", "é", "", "", "\nEND"},
		{"modules", "", "M DEFINITIONS ::= BEGIN END ", "", "", ""},
		{"all-except", hdr + "A ::= INTEGER (", "ALL EXCEPT (", "1", ")", ") END"},
		{"imports", hdr + "IMPORTS ", "A FROM B ", "", "", "; c INTEGER ::= 1 END"},
		{"defid", "M {", "a(1) ", "", "", "} DEFINITIONS ::= BEGIN END"},
		{"exceptions", hdr + "A ::= INTEGER (1 ", "! INTEGER (1 ", "", ": 1)", ") END"},
	}
	return &Space{
		Name:  "scale",
		Bound: fmt.Sprintf("%d forms of repetition and nesting x sizes %v", len(forms), clip(fmt.Sprint(sizes), 80)),
		Run: func(c *Ctl) {
			f := forms[c.Choose(len(forms))]
			n := sizes[c.Choose(len(sizes))]
			switch f.name {
			case "oid", "defid", "imports":
				if n > 3000 {
					n = 3000 // the lists are right recursive and copied: quadratic
				}
			}
			t := f.pre + strings.Repeat(f.rep, n) + f.mid + strings.Repeat(f.suf, n) + f.post
			c.Input(fmt.Sprintf("%s x %d", f.name, n))
			if n <= 2000 {
				judgeText(c, j, t)
			} else {
				judgeText(c, judge{total: true}, t)
			}
		},
	}
}

// padSpace shifts a module over the boundaries of internal buffers.
func padSpace(j judge, modules []string) *Space {
	pads := []string{" ", "\n", "a-long-comment"}
	return &Space{
		Name:  "pad",
		Bound: "every module shifted so that each of its bytes crosses offsets 4096 and 8192 and 65536, by spaces, line breaks, a comment or a long word",
		Run: func(c *Ctl) {
			m := modules[c.Choose(len(modules))]
			base := []int{4096, 8192, 65536, 512, 16}[c.Choose(5)]
			if base == 65536 && len(m) > 60 {
				base = 4096 * 3
			}
			k := c.Choose(len(m) + 4)
			n := base - k
			p := c.Choose(len(pads) + 1)
			var t string
			switch p {
			case 0, 1:
				if n < 0 {
					return
				}
				t = strings.Repeat(pads[p], n) + m
			case 2:
				if n < 6 {
					return
				}
				t = "/*" + strings.Repeat("x", n-4) + "*/" + m
			default:
				if n < 40 {
					return
				}
				pre := "M" + strings.Repeat("m", n-1)
				t = pre + m[1:]
			}
			c.Input(fmt.Sprintf("pad %d %q to offset %d-%d", p, clip(m, 200), base, k))
			judgeText(c, j, t)
		},
	}
}

var padModules = []string{
	"M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { a-b [12] INTEGER (1..345) DEFAULT -12, ... } -- c -- b REAL ::= -12.050e-3 /* d */END",
	"M DEFINITIONS ::= BEGIN /* a /* b */ c */ --- x\r\nB ::= NULL -- x -- END -- y",
	"M DEFINITIONS ::= BEGIN A ::= NULL é END",
	"M DEFINITIONS ::= BEGIN A ::= NULL a-- x\n-b END",
	"M DEFINITIONS ::= BEGIN A ::= [[ END",
	"M {a b(2) 3} DEFINITIONS ::= BEGIN IMPORTS A, b FROM C {1 2} D FROM E; x OBJECT IDENTIFIER ::= {a b(1) C.d 4} END\n\n",
}

// ---------------------------------------------------------------- words

// wordSpace: every word over a small alphabet and every near-reserved word at the places where a word can stand.
func wordSpace(j judge, maxLen int) *Space {
	places := []struct{ pre, post string }{
		{hdr + "A ::= ", " END"},
		{hdr + "A ::= ", "(1) END"},
		{hdr + "", " ::= NULL END"},
		{hdr + "A ::= SEQUENCE {", " NULL} END"},
		{hdr + "a INTEGER ::= ", " END"},
		{"", " DEFINITIONS ::= BEGIN END"},
		{hdr + "A ::= INTEGER {", "(1)} END"},
		{hdr + "IMPORTS ", " FROM B; A ::= NULL END"},
	}
	chars := []string{"a", "Z", "0", "-", "e"}
	ins := []string{"a", "Z", "0", "-", "_", " "}
	return &Space{
		Name:  "words",
		Bound: fmt.Sprintf("every word of up to %d characters over %q and every reserved word with up to one edit, in %d places", maxLen, chars, len(places)),
		Run: func(c *Ctl) {
			p := places[c.Choose(len(places))]
			w := ""
			if c.Bool() {
				for i := 0; i < maxLen; i++ {
					k := c.Choose(len(chars) + 1)
					if k == 0 {
						break
					}
					w += chars[k-1]
				}
				if w == "" {
					return
				}
			} else {
				w = reservedList[c.Choose(len(reservedList))]
				switch c.Choose(6) {
				case 0:
				case 1: // delete
					i := c.Choose(len(w))
					w = w[:i] + w[i+1:]
				case 2: // insert
					i := c.Choose(len(w) + 1)
					w = w[:i] + ins[c.Choose(len(ins))] + w[i:]
				case 3: // change case
					i := c.Choose(len(w))
					b := []byte(w)
					if isL(b[i]) {
						b[i] ^= 32
					}
					w = string(b)
				case 4:
					w = []string{strings.ToLower(w), strings.ToUpper(w), strings.Title(strings.ToLower(w))}[c.Choose(3)]
				case 5: // replace
					i := c.Choose(len(w))
					w = w[:i] + ins[c.Choose(len(ins))] + w[i+1:]
				}
			}
			t := p.pre + w + p.post
			c.Input(t)
			judgeText(c, j, t)
		},
	}
}

// ---------------------------------------------------------------- layout

var trivia = []string{"", "\t", "\n", "\r\n", "\v", "\f", "  \n\t ", "--\n", "--c\n", "-- c --", "----", "---\n", "--- --", "-- - --", "--a-b\r\n", "-----\n", "--/*\n", "-- */ --", "--é\n",
	"/**/", "/***/", "/*c*/", "/* -- */", "/*/**/*/", "/*/* */ /* */*/", "/* * / */", "/*\n*/", "/*\r\n--\r\n*/", "/*é*/", "/*//*/*/*/", "/* /* **/ **/", "--\"\n", "/*'*/", "\n--c\n--d\n", "/*a*//*b*/", "--a----b--", "--\xff\n", "/*\x00*/", "--END\n", "/*END*/", "\x1c", "\u00a0", "\x00", "\x1f"}

func layoutSpace(d derivation, dev, depth int, j judge, sets []string, label string) *Space {
	return &Space{
		Name:  label + "-" + d.name,
		Bound: fmt.Sprintf("every derivation with at most %d non-default choices x every gap (and all gaps) x %d separators, alone or with a blank on either side", dev, len(sets)),
		Run: func(c *Ctl) {
			ts := d.tokens(c, dev, depth)
			tr := sets[c.Choose(len(sets))]
			switch c.Choose(3) {
			case 1:
				tr = " " + tr
			case 2:
				tr = tr + " "
			}
			g := c.Choose(len(ts) + 2)
			var b strings.Builder
			for i, t := range ts {
				if g == i || g == len(ts)+1 {
					b.WriteString(tr)
				} else if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(t)
			}
			if g >= len(ts) {
				b.WriteString(tr)
			}
			text := b.String()
			c.Input(text)
			judgeText(c, j, text)
		},
	}
}

func pairLayoutSpace(d derivation, dev, depth int, j judge, sets []string) *Space {
	return &Space{
		Name:  "layout2-" + d.name,
		Bound: fmt.Sprintf("every derivation with at most %d non-default choices x two adjacent gaps x %d x %d separators", dev, len(sets), len(sets)),
		Run: func(c *Ctl) {
			ts := d.tokens(c, dev, depth)
			t1 := sets[c.Choose(len(sets))]
			t2 := sets[c.Choose(len(sets))]
			g := c.Choose(len(ts))
			var b strings.Builder
			for i, t := range ts {
				if i == g {
					b.WriteString(t1)
				} else if i == g+1 {
					b.WriteString(t2)
				} else if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(t)
			}
			text := b.String()
			c.Input(text)
			judgeText(c, j, text)
		},
	}
}

func init() {
	register(&Check{
		ID: "C01", Level: "model_checking",
		Rule: "one path per input text: all token sequences after every context, all short character and byte strings in every context, every truncation of every derived module, repetition and nesting up to the stated sizes; each must return exactly one of module and error (a panic, crash, hang or exhausted memory is a violation)",
		Spaces: func(tier string) []*Space {
			j := judge{total: true}
			var out []*Space
			if tier == "thorough" {
				out = append(out, charSpaces(j, 3, 5, 8, nil)...)
				out = append(out, byteSpaces(j, 2)...)
				for _, d := range derivations {
					out = append(out, truncSpace(d, 3, 2, j))
				}
				out = append(out, scaleSpace(lengthsUpTo(300, 1000, 10000, 100000, 1000000), j), padSpace(j, padModules))
				out = append(out, tokenSpaces(j, 3, 8, " ")...)
				return out
			}
			out = append(out, charSpaces(j, 2, 3, 5, nil)...)
			out = append(out, byteSpaces(j, 2)...)
			for _, d := range derivations {
				out = append(out, truncSpace(d, 2, 2, j))
			}
			out = append(out, scaleSpace(lengthsUpTo(70, 127, 128, 129, 255, 256, 257, 1000, 10000, 100000), j), padSpace(j, padModules))
			out = append(out, tokenSpaces(j, 2, 4, " ")...)
			return out
		},
	})
	register(&Check{
		ID: "C02", Level: "model_checking",
		Rule: "one path per derived module; the AST must equal the one the reference parser builds",
		Spaces: func(tier string) []*Space {
			j := judge{total: true, accept: true}
			var out []*Space
			dev, lens, nests, nd := []int{3, 4, 4, 4, 3}, lengthsUpTo(40, 63, 64, 65, 100, 128, 256, 300), lengthsUpTo(24, 40, 64, 100, 200), 4
			pd := 2
			if tier == "thorough" {
				dev, lens, nests, nd = []int{5, 6, 5, 6, 6}, lengthsUpTo(300, 1000, 2000), lengthsUpTo(200, 500, 1000), 5
				pd = 3
			}
			for i, d := range derivations {
				out = append(out, deriveSpace(d, dev[i], 3, j))
			}
			return append(out, longSpace(lens, j), nestSpace(nests, j), defaultsSpace(nd, j), looseSpace(nd, j), repeatsSpace(nd, j), pairSpace(pd, j), exampleSpace(j, 100000, nil))
		},
	})
	register(&Check{
		ID: "C03", Level: "model_checking",
		Rule: "one path per token sequence: every viable prefix extended by every token (the reference parser decides viability, exactly at the first wrong item), and every single-token edit of every derived module",
		Spaces: func(tier string) []*Space {
			j := judge{total: true, reject: true, accept: true}
			full, small, d1, d2 := 2, 5, 1, 2
			exStride, exEdits := 1, []string{"END", "a", "}"}
			if tier == "thorough" {
				full, small, d1, d2 = 3, 8, 2, 3
				exStride, exEdits = 1, []string{"END", "A", "a", "1", "}", ","}
			}
			out := append(tokenSpaces(j, full, small, " "), exampleSpace(j, exStride, exEdits), splitSpace(j), openEditSpace(j))
			out = append(out, charSpaces(j, full, 4, 5, func(cc charContext) bool { return strings.HasPrefix(cc.name, "end") })...)
			for _, d := range derivations {
				e := editSpace(d, d1, 2, append(allTokens(), "$", "_", "#", "\x00", "\x1a", "+"), j, []string{" "})
				e.Name += "-full"
				out = append(out, e)
				if d.name != "module" {
					out = append(out, editSpace(d, d2, 2, midTokens, j, []string{" "}))
				}
				out = append(out, phraseSpace(d, d1, 2, j), spanSpace(d, d1, 2, 6*d1, j))
			}
			return out
		},
	})
	register(&Check{
		ID: "C04", Level: "model_checking",
		Rule: "one path per text: every separator at every gap of every derived module, all short character sequences in every lexical context, all short and near-reserved words; the reference lexer and parser decide",
		Spaces: func(tier string) []*Space {
			j := judge{total: true, accept: true, reject: true}
			var out []*Space
			full, mid, few, ld, wl := 2, 4, 6, 1, 4
			if tier == "thorough" {
				full, mid, few, ld, wl = 3, 5, 8, 2, 6
			}
			for _, d := range derivations {
				out = append(out, layoutSpace(d, ld, 2, j, trivia, "layout"))
			}
			out = append(out, pairLayoutSpace(derivations[1], 1, 2, j, trivia))
			out = append(out, wordSpace(j, wl), padSpace(j, padModules), splitSpace(j))
			return append(out, charSpaces(j, full, mid, few, nil)...)
		},
	})
	register(&Check{
		ID: "C06", Level: "model_checking",
		Rule: "one path per text with line breaks: the reported line must be that of the first item that cannot continue a module, as the reference parser finds it",
		Spaces: func(tier string) []*Space {
			j := judge{total: true, line: true}
			var out []*Space
			full, small, d1, d2 := 1, 4, 1, 2
			cf, cm, cw := 2, 3, 6
			ex, far := 2, 17
			if tier == "thorough" {
				ex, far = 1, 21
				full, small, d1, d2 = 2, 6, 2, 3
				cf, cm, cw = 3, 5, 8
			}
			seps := []string{"\n", "\r\n", " /*\n*/ ", " --c\n", "\n\n -- x --"}
			for i, s := range seps {
				for _, sp := range tokenSpaces(j, full, small, s) {
					sp.Name += fmt.Sprintf("-sep%d", i)
					out = append(out, sp)
				}
			}
			for _, d := range derivations {
				e := editSpace(d, d1, 2, midTokens, j, seps)
				out = append(out, e)
				if d.name != "module" {
					e := editSpace(d, d2, 2, []string{"A", "1", "}", "...", "END", "\"", "a--\n", "é", "b-", "/*\n"}, j, []string{"\n"})
					e.Name += "-deep"
					out = append(out, e)
				}
				out = append(out, layoutSpace(d, d1-1, 2, j, append([]string{"a-\n", "a--\nb", "\n#", "\r\n#\n", "\né\n", "/*\n", "--\n/*\r\n", "\n*/", "--x\n]\n", "--x\r\n]\r\n", "\n\n[[\n"}, trivia...), "badlayout"))
			}
			for _, d := range derivations {
				out = append(out, spanSpace(d, d1, 2, 4, j))
			}
			out = append(out, farSpace(j, far))
			return append(out, append(charSpaces(j, cf, cm, cw, nil), exampleSpace(j, ex, []string{"]"}))...)
		},
	})
}

func judgeLoose(c *Ctl, j judge, text string) {
	c.Input(text)
	judgeText(c, j, text)
}
