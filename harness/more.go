package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	a "github.com/chemikadze/asn1go"
)

// ---------------------------------------------------------------- symbols of several characters (C03, C04)

var splitTexts = []string{
	hdr + "A ::= INTEGER END",
	hdr + "a INTEGER ::= 5 END",
	hdr + "A ::= INTEGER (1..5) END",
	hdr + "A ::= INTEGER (1 < .. < 5 | MIN..MAX, ..., 7) END",
	hdr + "A ::= SEQUENCE { ... } END",
	hdr + "A ::= SEQUENCE { a INTEGER , ... } END",
	hdr + "A ::= SET { a INTEGER , ... ! 5 , b NULL , ... , c NULL } END",
	hdr + "A ::= CHOICE { a INTEGER , ... , b NULL } END",
	hdr + "A ::= ENUMERATED { a , ... , b } END",
	hdr + "A ::= SEQUENCE { a INTEGER , ... , [[ b INTEGER ]] } END",
	hdr + "A ::= SET { a INTEGER , ... , [[ 2 : b INTEGER , c NULL ]] , ... , d NULL } END",
	hdr + "A ::= CHOICE { a INTEGER , ... , [[ b NULL ]] } END",
	hdr + "A ::= SEQUENCE { a [1] SEQUENCE OF [2] INTEGER , b [3] NULL } END",
	hdr + "a REAL ::= -1.5e-3 b-c INTEGER ::= -7 END",
	hdr + "a-b T-c ::= d-e F-g ::= BIT STRING { h-i(j-k) } END",
	"M { a-b(12) } DEFINITIONS ::= BEGIN IMPORTS A-b FROM C-d { e-f 1 } ; END",
}

// splitSpace: a separator inside an item.
func splitSpace(j judge) *Space {
	return &Space{
		Name:  "split",
		Bound: fmt.Sprintf("%d texts x every place inside an item of several characters x %d separators, once, or with all the items of the same text", len(splitTexts), len(trivia)+1),
		Run: func(c *Ctl) {
			text := splitTexts[c.Choose(len(splitTexts))]
			ts := refLex(text).toks
			var at []int
			for _, t := range ts {
				for k := t.off + 1; k < t.end; k++ {
					at = append(at, k)
				}
			}
			k := at[c.Choose(len(at))]
			sep := append([]string{" "}, trivia...)[c.Choose(len(trivia)+1)]
			if !c.Bool() {
				text = text[:k] + sep + text[k:]
			} else {
				// the same split wherever the item occurs
				for _, t := range ts {
					if t.off < k && k < t.end {
						item := text[t.off:t.end]
						text = strings.ReplaceAll(text, item, item[:k-t.off]+sep+item[k-t.off:])
						break
					}
				}
			}
			c.Input(text)
			judgeText(c, j, text)
		},
	}
}

// openEditSpace: edits of texts with forms that are not specified.
func openEditSpace(j judge) *Space {
	return &Space{
		Name:  "edit-open",
		Bound: fmt.Sprintf("%d texts, some with forms that the documentation leaves open, x every token position x {delete, duplicate, swap, cut, replace by and insert each of %d tokens}", len(splitTexts), len(midTokens)),
		Run: func(c *Ctl) {
			var ts []string
			text := splitTexts[c.Choose(len(splitTexts))]
			for _, t := range refLex(text).toks {
				if t.end > t.off {
					ts = append(ts, text[t.off:t.end])
				}
			}
			i := c.Choose(len(ts) + 1)
			out := append([]string{}, ts[:i]...)
			if i == len(ts) {
				out = append(out, midTokens[c.Choose(len(midTokens))])
			} else {
				switch k := c.Choose(4 + 2*len(midTokens)); {
				case k == 0:
					out = append(out, ts[i+1:]...)
				case k == 1:
					out = append(append(out, ts[i]), ts[i:]...)
				case k == 2:
					if i+1 == len(ts) {
						return
					}
					out = append(append(out, ts[i+1], ts[i]), ts[i+2:]...)
				case k == 3:
				case k < 4+len(midTokens):
					out = append(append(out, midTokens[k-4]), ts[i+1:]...)
				default:
					out = append(append(out, midTokens[k-4-len(midTokens)]), ts[i:]...)
				}
			}
			text = strings.Join(out, " ")
			c.Input(text)
			judgeText(c, j, text)
		},
	}
}

// ---------------------------------------------------------------- repeated entries (C02)

type repeatForm struct {
	text  string // %s is the list
	sep   string
	items []string
}

var repeatForms = []repeatForm{
	{"IMPORTS %s FROM N ; C ::= INTEGER", " , ", []string{"A", "b", "B"}},
	{"IMPORTS %s ; C ::= INTEGER", " ", []string{"A FROM N", "A , b FROM N", "A FROM O", "b FROM N { 1 2 }"}},
	{"IMPORTS A FROM N { %s } ; C ::= INTEGER", " ", []string{"1", "a", "a(1)", "b(1)"}},
	{"EXPORTS %s ; C ::= INTEGER", " , ", []string{"A", "b", "C"}},
	{"A ::= INTEGER { %s }", " , ", []string{"a(1)", "a(2)", "b(1)", "a(b)", "a(-1)"}},
	{"A ::= BIT STRING { %s }", " , ", []string{"a(1)", "a(2)", "b(1)", "a(b)"}},
	{"A ::= ENUMERATED { %s }", " , ", []string{"a", "b", "a(1)", "b(1)"}},
	{"A ::= ENUMERATED { c , ... , %s }", " , ", []string{"a", "b", "a(1)", "c"}},
	{"A ::= SEQUENCE { %s }", " , ", []string{"a INTEGER", "a NULL", "b INTEGER", "COMPONENTS OF T"}},
	{"A ::= SET { %s }", " , ", []string{"a INTEGER", "a [1] T OPTIONAL", "a [1] T", "COMPONENTS OF T"}},
	{"A ::= SEQUENCE { a INTEGER , ... , %s }", " , ", []string{"a INTEGER", "b INTEGER", "b T DEFAULT 1", "COMPONENTS OF T"}},
	{"A ::= SET { a INTEGER , ... , ... , %s }", " , ", []string{"a INTEGER", "b INTEGER", "b T DEFAULT 1"}},
	{"A ::= CHOICE { %s }", " , ", []string{"a INTEGER", "a NULL", "b INTEGER", "a [1] INTEGER"}},
	{"A ::= CHOICE { a INTEGER , ... , %s }", " , ", []string{"a INTEGER", "a NULL", "b INTEGER"}},
	{"a OBJECT IDENTIFIER ::= { %s }", " ", []string{"1", "0", "b", "b(1)", "N.b"}},
	{"%s", " ", []string{"A ::= INTEGER", "A ::= NULL", "a INTEGER ::= 1", "a INTEGER ::= 2", "B ::= A"}},
	{"A ::= INTEGER ( %s )", " | ", []string{"1", "2", "1..2", "T", "MIN..MAX"}},
	{"A ::= INTEGER ( 5 , ... , %s )", " ^ ", []string{"1", "5", "1..2", "T"}},
	{"A ::= T %s", " ", []string{"(1)", "(2)", "(1, ...)", "(SIZE (1))", "(1..1)"}},
	{"A ::= T ( %s )", " EXCEPT 5 | ", []string{"1", "5", "1..2", "T"}},
	{"A ::= T ( FROM ( %s ) )", " UNION ", []string{"1", "2", "T"}},
	{"A ::= T ( SIZE ( %s ) )", " | ", []string{"1", "2", "1..2"}},
	{"A ::= SEQUENCE { a T ( %s ) OPTIONAL , b T }", " INTERSECTION ", []string{"1", "2", "SIZE (1)", "T"}},
	{"A ::= %s INTEGER", " ", []string{"SEQUENCE OF", "SET OF", "SEQUENCE (SIZE (1)) OF", "SET SIZE (1) OF"}},
}

// repeatsSpace: what is written twice is there twice.
func repeatsSpace(n int, j judge) *Space {
	return &Space{
		Name:  "repeats",
		Bound: fmt.Sprintf("every list of 1 to %d entries, equal ones included, out of 3 to 5 for each of %d kinds of list", n, len(repeatForms)),
		Run: func(c *Ctl) {
			f := repeatForms[c.Choose(len(repeatForms))]
			k := 1 + c.Choose(n)
			var items []string
			for i := 0; i < k; i++ {
				items = append(items, f.items[c.Choose(len(f.items))])
			}
			text := hdr + fmt.Sprintf(f.text, strings.Join(items, f.sep)) + " END"
			c.Input(text)
			judgeText(c, j, text)
		},
	}
}

// ---------------------------------------------------------------- reals whose exponent makes up for their digits (C05)

func balancedReals(thorough bool) *Space {
	zeros := []int{0, 1, 5, 17, 18, 19, 20, 40, 99, 100, 101, 200, 255, 256, 300, 307, 308, 309, 310, 322, 323, 324, 325, 330, 340, 341, 399, 400, 401, 449, 450, 499, 500, 511, 512, 999, 1000, 1023, 1024}
	if thorough {
		for i := 2; i < 700; i++ {
			zeros = append(zeros, i)
		}
		zeros = append(zeros, 2000, 4095, 4096, 4900)
	}
	deltas := []int{-324, -323, -308, -40, -2, -1, 0, 1, 2, 40, 307, 308, 309}
	digits := []string{"1", "5", "17976931348623157", "17976931348623159", "49", "24", "25", "22250738585072014", "9007199254740993"}
	return &Space{
		Name:  "balanced",
		Bound: fmt.Sprintf("%d digit sequences behind each of %d numbers of zeros of the fraction, or with up to 18 zeros before the point, or followed by as many zeros, with an exponent that makes up for them within each of %d distances, x sign", len(digits), len(zeros), len(deltas)),
		Run: func(c *Ctl) {
			var places []numPlace
			for _, p := range numPlaces {
				if p.real && len(places) < 3 {
					places = append(places, p)
				}
			}
			p := places[c.Choose(len(places))]
			d := digits[c.Choose(len(digits))]
			ip, fr, e := "0", "", 0
			switch form := c.Choose(3); form {
			case 0: // 0.000d
				z := zeros[c.Choose(len(zeros))]
				fr = strings.Repeat("0", z) + d
				e = z + 1
			case 1: // d000.0
				z := c.Choose(19 - min(18, len(d)))
				ip, fr = d+strings.Repeat("0", z), c.Pick("0", "5", "000000000000000000001")
				e = -(z + len(d) - 1)
			case 2: // 0.d000
				z := zeros[c.Choose(len(zeros))]
				fr = d + strings.Repeat("0", z) + c.Pick("", "1")
				e = 1
			}
			e += deltas[c.Choose(len(deltas))]
			lit := ip + "." + fr + c.Pick("e", "E") + strconv.Itoa(e)
			judgeNumber(c, p, c.Pick("", "-")+lit, overLong(lit))
		},
	}
}

// ---------------------------------------------------------------- readers and writers with methods of their own (C07, C16)

// The methods that code could take for hints about the content; none of them promises anything.
type (
	oddLen0   struct{}
	oddLen3   struct{}
	oddSize   struct{}
	oddSizeI  struct{}
	oddString struct{}
	oddName   struct{}
	oddFd     struct{}
	oddBuf    struct{}
	oddAvail  struct{}
	oddCap    struct{}
	oddBytes  struct{}
	oddText   struct{}
	oddStat   struct{}
	oddErr    struct{}
	oddReset  struct{}
	oddError  struct{}
	oddEOF    struct{}
	oddFile   struct {
		oddName
		oddFd
		oddStat
	}
)

func (oddLen0) Len() int         { return 0 }
func (oddLen3) Len() int         { return 3 }
func (oddSize) Size() int64      { return 2 }
func (oddSizeI) Size() int       { return 2 }
func (oddString) String() string { return "a queue of parts" }
func (oddName) Name() string     { return "/nonexistent/name.asn1" }
func (oddFd) Fd() uintptr        { return ^uintptr(0) }
func (oddBuf) Buffered() int     { return 1 }
func (oddAvail) Available() int  { return 0 }
func (oddCap) Cap() int          { return 1 }
func (oddBytes) Bytes() []byte   { return []byte("M") }
func (oddText) Text() string     { return "M" }
func (oddErr) Err() error        { return nil }
func (oddReset) Reset()          {}
func (oddError) Error() string   { return "no error" }
func (oddEOF) EOF() bool         { return true }
func (oddStat) Stat() (fs.FileInfo, error) {
	return emptyInfo{}, nil
}

type emptyInfo struct{}

func (emptyInfo) Name() string       { return "name.asn1" }
func (emptyInfo) Size() int64        { return 0 }
func (emptyInfo) Mode() fs.FileMode  { return 0644 }
func (emptyInfo) ModTime() time.Time { return time.Time{} }
func (emptyInfo) IsDir() bool        { return false }
func (emptyInfo) Sys() interface{}   { return nil }

// odd returns every combination of a stream with such a method.
func oddStreams(s io.ReadWriter) map[string]io.ReadWriter {
	return map[string]io.ReadWriter{
		"Len 0": struct {
			io.ReadWriter
			oddLen0
		}{s, oddLen0{}},
		"Len 3": struct {
			io.ReadWriter
			oddLen3
		}{s, oddLen3{}},
		"Size int64": struct {
			io.ReadWriter
			oddSize
		}{s, oddSize{}},
		"Size int": struct {
			io.ReadWriter
			oddSizeI
		}{s, oddSizeI{}},
		"String": struct {
			io.ReadWriter
			oddString
		}{s, oddString{}},
		"Name": struct {
			io.ReadWriter
			oddName
		}{s, oddName{}},
		"Fd": struct {
			io.ReadWriter
			oddFd
		}{s, oddFd{}},
		"Buffered": struct {
			io.ReadWriter
			oddBuf
		}{s, oddBuf{}},
		"Available": struct {
			io.ReadWriter
			oddAvail
		}{s, oddAvail{}},
		"Cap": struct {
			io.ReadWriter
			oddCap
		}{s, oddCap{}},
		"Bytes": struct {
			io.ReadWriter
			oddBytes
		}{s, oddBytes{}},
		"Text": struct {
			io.ReadWriter
			oddText
		}{s, oddText{}},
		"Stat": struct {
			io.ReadWriter
			oddStat
		}{s, oddStat{}},
		"file": struct {
			io.ReadWriter
			oddFile
		}{s, oddFile{}},
		"Err": struct {
			io.ReadWriter
			oddErr
		}{s, oddErr{}},
		"Reset": struct {
			io.ReadWriter
			oddReset
		}{s, oddReset{}},
		"Error": struct {
			io.ReadWriter
			oddError
		}{s, oddError{}},
		"EOF": struct {
			io.ReadWriter
			oddEOF
		}{s, oddEOF{}},
		"Len, Size, String, Bytes": struct {
			io.ReadWriter
			oddLen3
			oddSize
			oddString
			oddBytes
		}{s, oddLen3{}, oddSize{}, oddString{}, oddBytes{}},
	}
}

var oddNames = []string{"Len 0", "Len 3", "Size int64", "Size int", "String", "Name", "Fd", "Buffered", "Available", "Cap", "Bytes", "Text", "Stat", "file", "Err", "Reset", "Error", "EOF", "Len, Size, String, Bytes"}

func init() {
	for _, n := range oddNames {
		n := n
		readerKinds = append(readerKinds, struct {
			name   string
			errors bool
			wrap   func(src *scriptReader) (io.Reader, func())
		}{"with " + n, true, func(s *scriptReader) (io.Reader, func()) {
			return oddStreams(struct {
				io.Reader
				io.Writer
			}{s, io.Discard})[n], nil
		}})
		writerKinds = append(writerKinds, struct {
			name string
			wrap func(w io.Writer) (io.Writer, func() error)
		}{"with " + n, func(w io.Writer) (io.Writer, func() error) {
			return oddStreams(struct {
				io.Reader
				io.Writer
			}{strings.NewReader(""), w})[n], nil
		}})
	}
}

// ---------------------------------------------------------------- named numbers given by values of the same name (C13)

func namedSiblingsSpace(j cgJudge, n int) *Space {
	vals := []string{"1", "-9", "one", "two-x", "t3", "M.one", "vv"}
	return &Space{
		Name:  "named-siblings",
		Bound: fmt.Sprintf("every INTEGER type of 1 to %d named numbers with values out of 2 literals and references to values of which 3 have the names of the named numbers, as definition, component and element, beside a second such type, x values before or after x INTEGER representation", n),
		Run: func(c *Ctl) {
			k := cgConfig{mod: "M"}
			if c.Bool() {
				k.p.IntegerRepr = a.IntegerReprBigInt
				k.desc = "big.Int "
			}
			var nn []string
			for i, cnt := 0, 1+c.Choose(n); i < cnt; i++ {
				nn = append(nn, []string{"one", "two-x", "t3"}[i]+"("+vals[c.Choose(len(vals))]+")")
			}
			t := "INTEGER { " + strings.Join(nn, " , ") + " }"
			main := c.Pick("T ::= "+t, "T ::= SEQUENCE { one "+t+" }", "T ::= [1] "+t+" (0..9) U ::= INTEGER { one(33) , two-x(34) , vv(35) }", "U ::= INTEGER { t3(33) , vv(one) } T ::= "+t, "T ::= SET OF "+t) + " "
			defs := "one INTEGER ::= 70 two-x INTEGER ::= -71 t3 Other ::= 72 vv INTEGER ::= 73 Other ::= INTEGER "
			body := main + defs
			if c.Bool() {
				body = defs + main
			}
			text := k.module(body)
			m := parseForGen(text)
			if !distinctNames(m) {
				return
			}
			c.Input(k.desc + text)
			judgeGen(c, j, m, k.p, k.desc+text)
		},
	}
}

// ---------------------------------------------------------------- package names (C09, C10)

var packageNames = []string{"main", "asn1", "big", "math", "time", "encoding", "int64", "int", "string", "bool", "float64", "byte", "error", "init", "x_test", "main_test", "internal", "C", "builtin", "unsafe", "vendor", "Test", "a_b", "a", "A", "M", "m", "Test_Mod", "p1", "_x", "documentation", "ignore", "testdata", "iota", "nil", "true", "len", "any", "é", "Abc", "val", "v2", "ab"}

func packagesSpace(j cgJudge) *Space {
	bodies := []string{"", "A ::= INTEGER ", "A ::= SEQUENCE { a INTEGER , b GeneralizedTime , c UTCTime , d BIT STRING , e ANY } ", "v INTEGER ::= 5 w REAL ::= PLUS-INFINITY x BOOLEAN ::= TRUE ", "A ::= CHOICE { a INTEGER , b BIT STRING } N ::= INTEGER { n(1) } ", "Abc ::= SEQUENCE OF Def Def ::= OBJECT IDENTIFIER "}
	return &Space{
		Name:  "packages",
		Bound: fmt.Sprintf("%d package names x 4 module names x %d module bodies x INTEGER representation", len(packageNames), len(bodies)),
		Run: func(c *Ctl) {
			k := cgConfig{mod: c.Pick("M", "Test-Mod", "Main", "Abc")}
			k.p.Package = packageNames[c.Choose(len(packageNames))]
			k.desc = "package=" + k.p.Package + " "
			if c.Bool() {
				k.p.IntegerRepr = a.IntegerReprBigInt
				k.desc += "big.Int "
			}
			runCg(c, j, k, k.module(bodies[c.Choose(len(bodies))]))
		},
	}
}

// ---------------------------------------------------------------- types below types (C11)

var derWraps = []string{"SEQUENCE OF %s", "SET OF %s", "SET SIZE (1..9) OF %s", "SEQUENCE (SIZE (1..9)) OF %s", "SEQUENCE { x %s }", "SET { x %s }", "SEQUENCE { x [5] %s OPTIONAL , y BOOLEAN }", "CHOICE { x %s }", "CHOICE { x [1] %s , y BOOLEAN }", "%s (SIZE (1..9))", "@%s"}

func derNestedSpace(depth int) *Space {
	refs := derRefs()
	return &Space{
		Name:  "nested",
		Bound: fmt.Sprintf("W ::= SEQUENCE { c TYPE }: every one of %d inline types and %d references below every stack of 1 to %d out of %d constructors (one of them a definition), x no tag, tag, implicit tag x required or OPTIONAL x 2 tag defaults", len(derInline), len(refs), depth, len(derWraps)),
		Run: func(c *Ctl) {
			g := &derGen{c: c}
			t := g.typeOf(derInline, refs)
			defs := ""
			for i, n := 0, 1+c.Choose(depth); i < n; i++ {
				w := derWraps[c.Choose(len(derWraps))]
				if w[0] == '@' {
					defs += fmt.Sprintf("Df%d ::= %s ", i, t)
					t = fmt.Sprintf("Df%d", i)
					continue
				}
				t = strings.Replace(w, "%s", t, 1)
			}
			w := "W ::= SEQUENCE { c " + c.Pick("", "[2] ", "[APPLICATION 3] IMPLICIT ") + t + c.Pick("", " OPTIONAL") + " , z BOOLEAN } " + defs
			text := "M DEFINITIONS " + c.Pick("", "IMPLICIT TAGS ") + "::= BEGIN " + g.needed(true) + w + "END"
			c.Input(text)
			m := parseForGen(text)
			judgeDERof(c, &der{m: m, loose: true}, m, a.GenParams{}, text, 3)
		},
	}
}

// ---------------------------------------------------------------- many texts under the race detector (C08)

// raceTexts are modules of every kind that may take ways of their own through the library.
func raceTexts() []string {
	var out []string
	for i := 0; i <= 20; i++ {
		out = append(out, crowdText(i))
	}
	for _, f := range loadExamples() {
		out = append(out, f.text)
	}
	all := "M DEFINITIONS ::= BEGIN "
	for _, p := range prelude {
		all += p.text + " "
	}
	out = append(out, all+"END")
	// several references, values, lists, structures of each kind in modules of few and many definitions
	kinds := []string{"X%d ::= X%e", "X%d ::= INTEGER", "X%d ::= SEQUENCE { a X%e , b X%e OPTIONAL }", "X%d ::= SET OF X%e", "X%d ::= CHOICE { a X%e , b NULL }", "X%d ::= INTEGER { a(1) , b(v0) }", "v%d INTEGER ::= %d", "v%d X%e ::= 5", "X%d ::= [%d] X%e (1..5)", "X%d ::= GeneralizedTime", "X%d ::= ENUMERATED { a , b }", "X%d ::= REAL", "X%d ::= BIT STRING"}
	for _, k1 := range kinds {
		for _, k2 := range kinds {
			for _, n := range []int{2, 4, 5, 7, 8, 17} {
				t := "M DEFINITIONS ::= BEGIN "
				for i := 0; i < n; i++ {
					k := k1
					if i%2 == 1 {
						k = k2
					}
					t += strings.NewReplacer("%d", fmt.Sprint(i), "%e", fmt.Sprint(i+1)).Replace(k) + " "
				}
				out = append(out, t+fmt.Sprintf("X%d ::= INTEGER v0x INTEGER ::= 3 END", n))
			}
		}
	}
	for i, ctx := range twinContexts {
		for k := 0; k < 6; k++ {
			x, y := twinTypes[(7*i+k*11)%len(twinTypes)], twinTypes[(13*i+k*5+1)%len(twinTypes)]
			out = append(out, hdr+strings.NewReplacer("X", x, "Y", y).Replace(ctx)+" In ::= INTEGER END")
		}
	}
	for _, t := range streamTexts {
		out = append(out, t)
	}
	return out
}

const raceChunks = 24

func init() {
	// racemany: each text parsed and generated by several goroutines at once.
	subs["racemany"] = func(args []string) int {
		part, _ := strconv.Atoi(args[0])
		gens := []a.CodeGenerator{a.NewCodeGenerator(a.GenParams{}), a.NewCodeGenerator(a.GenParams{IntegerRepr: a.IntegerReprBigInt, Package: "p"})}
		for i, text := range raceTexts() {
			if i%raceChunks != part {
				continue
			}
			one := func(shared *a.ModuleDefinition) string {
				m, err := a.ParseString(text)
				s := renderParse(m, err)
				for _, g := range gens {
					for _, m := range []*a.ModuleDefinition{m, shared} {
						if m == nil {
							continue
						}
						var b bytes.Buffer
						err := g.Generate(*m, &b)
						s += fmt.Sprintf("\n%v\n%s", err, b.String())
					}
				}
				return s
			}
			shared, _ := a.ParseString(text)
			res := make([]string, 4)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for k := range res {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					res[k] = one(shared)
				}()
			}
			close(start)
			wg.Wait()
			alone := one(shared)
			for _, r := range res {
				if r != alone {
					fmt.Printf("results differ from those of the same calls alone for %q:\n--- alone\n%s\n--- here\n%s", clip(text, 500), clip(alone, 1200), clip(r, 1200))
					return 1
				}
			}
		}
		return 0
	}
}

// raceMany runs all the parts.
func raceMany(bin string, r *Result) {
	t0 := time.Now()
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for p := 0; p < raceChunks; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			cmd := exec.Command(bin, "sub", "racemany", strconv.Itoa(p))
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
			out, err := cmd.CombinedOutput()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				r.Violations = append(r.Violations, violation{Space: "race-many", Choices: []int{p}, Input: fmt.Sprintf("part %d of the texts, each parsed and generated by 4 goroutines at once", p), Msg: clip(string(out), 3000)})
			}
		}()
	}
	wg.Wait()
	r.Extra["race_many"] = map[string]interface{}{"texts": len(raceTexts()), "goroutines": 4, "secs": time.Since(t0).Seconds()}
}
