package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"testing/iotest"

	a "github.com/chemikadze/asn1go"
)

// step is one answer of the scripted reader: up to n bytes (0 is an empty read) and an error.
type step struct {
	n   int
	err error
}

// scriptReader answers reads from a script and then from a default: rest bytes
// at a time (0: as many as asked for), and end of file - with the last data or
// separately.
type scriptReader struct {
	data    string
	pos     int
	script  []step
	rest    int
	eofWith bool
	empties int // empty reads before every read that returns data
	e       int
	reads   int
	failed  bool
	forever bool // the last script step is repeated
}

func (r *scriptReader) Read(p []byte) (int, error) {
	r.reads++
	if r.reads > 200000+len(r.data)*(2+r.empties) { // a byte at a time is fine
		panic(failure{fmt.Sprintf("the parser keeps reading: %d reads for %d bytes", r.reads, len(r.data))})
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.script) > 0 {
		s := r.script[0]
		if s.n > len(p) {
			s.n = len(p)
			r.script[0].n -= s.n
			s.err = nil
		} else if len(r.script) > 1 || !r.forever {
			r.script = r.script[1:]
		}
		n := copy(p[:s.n], r.data[r.pos:])
		r.pos += n
		if s.err != nil && s.err != io.EOF {
			r.failed = true
		}
		return n, s.err
	}
	if r.e < r.empties {
		r.e++
		return 0, nil
	}
	r.e = 0
	n := len(r.data) - r.pos
	if n == 0 {
		return 0, io.EOF
	}
	if r.rest > 0 && n > r.rest {
		n = r.rest
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.eofWith && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

var streamTexts = []string{
	"M DEFINITIONS ::= BEGIN END",
	"M DEFINITIONS ::= BEGIN END -- c --\n/* d */ ",
	"M {a b(2) 3} DEFINITIONS IMPLICIT TAGS ::= BEGIN IMPORTS A, b FROM C {1 2}; A ::= SEQUENCE { a-b [12] INTEGER (1..345) DEFAULT -12, ... }\r\n-- c -- b REAL ::= -12.050e-3 /* d */END",
	"M DEFINITIONS ::= BEGIN /* a /* b */ c */ --- x\r\nB ::= NULL -- x -- END -- y",
	"M DEFINITIONS ::= BEGIN A ::= NULL \xc3\xa9 END",
	"M DEFINITIONS ::= BEGIN A ::= NULL -- \xc3\xa9 \xe2\x82\xac\n /* \xf0\x9f\x98\x80 */ END",
	"M DEFINITIONS ::= BEGIN\nA ::= NULL a-- x\n-b END",
	"M DEFINITIONS ::= BEGIN\n\n A ::= [[ END",
	"M DEFINITIONS ::= BEGIN\r\nA ::= SET { a REAL (1 < .. < MAX) }\r\n",
	"M DEFINITIONS ::= BEGIN A ::= NULL /* x",
	"",
	"END",
	"M DEFINITIONS ::= BEGIN END END",
	"M DEFINITIONS ::= BEGIN END \xff",
}

type myErr struct{}

func (*myErr) Error() string { return "reader broke: code 42" }

var readErrs = []error{&myErr{}, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, errors.New("%s odd {} message: line 7: x"), fmt.Errorf("wrapped: %w", io.EOF), syscall.EINTR, tempErr{}, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, &os.PathError{Op: "read", Path: "x", Err: syscall.EAGAIN}}

// tempErr claims to be temporary and a timeout.
type tempErr struct{}

func (tempErr) Error() string   { return "try again later" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

// readerKinds are the ways in which a source is handed to the parser: types of reader that code may treat specially.
var readerKinds = []struct {
	name   string
	errors bool // passes errors of the source on
	wrap   func(src *scriptReader) (io.Reader, func())
}{
	{"bufio 16", true, func(s *scriptReader) (io.Reader, func()) { return bufio.NewReaderSize(s, 16), nil }},
	{"bufio 4096", true, func(s *scriptReader) (io.Reader, func()) { return bufio.NewReader(s), nil }},
	{"bufio 65536", true, func(s *scriptReader) (io.Reader, func()) { return bufio.NewReaderSize(s, 65536), nil }},
	{"bufio filled", true, func(s *scriptReader) (io.Reader, func()) {
		b := bufio.NewReader(s)
		if len(s.script) == 0 || s.script[0].n > 0 {
			b.Peek(1) // would take an error without data
		}
		return b, nil
	}},
	{"bufio of bufio", true, func(s *scriptReader) (io.Reader, func()) {
		return bufio.NewReaderSize(bufio.NewReaderSize(s, 64), 16), nil
	}},
	{"bufio.ReadWriter", true, func(s *scriptReader) (io.Reader, func()) {
		return bufio.NewReadWriter(bufio.NewReader(s), bufio.NewWriter(io.Discard)), nil
	}},
	{"multi", true, func(s *scriptReader) (io.Reader, func()) { return io.MultiReader(strings.NewReader(""), s), nil }},
	{"tee", true, func(s *scriptReader) (io.Reader, func()) { return io.TeeReader(s, io.Discard), nil }},
	{"limited", true, func(s *scriptReader) (io.Reader, func()) { return io.LimitReader(s, 1<<40), nil }},
	{"data and error", true, func(s *scriptReader) (io.Reader, func()) { return iotest.DataErrReader(s), nil }},
	{"closer", true, func(s *scriptReader) (io.Reader, func()) { return io.NopCloser(s), nil }},
	{"pipe", true, func(s *scriptReader) (io.Reader, func()) {
		r, w := io.Pipe()
		done := make(chan bool)
		go func() {
			_, err := io.Copy(w, struct{ io.Reader }{s})
			w.CloseWithError(err)
			close(done)
		}()
		return r, func() { r.Close(); <-done }
	}},
	{"strings at offset", false, func(s *scriptReader) (io.Reader, func()) {
		r := strings.NewReader("M DEFINITIONS " + s.data)
		r.Seek(14, io.SeekStart)
		return r, nil
	}},
	{"bytes", false, func(s *scriptReader) (io.Reader, func()) { return bytes.NewReader([]byte(s.data)), nil }},
	{"bytes at offset", false, func(s *scriptReader) (io.Reader, func()) {
		r := bytes.NewReader([]byte("END " + s.data))
		r.Seek(4, io.SeekStart)
		return r, nil
	}},
	{"buffer", false, func(s *scriptReader) (io.Reader, func()) { return bytes.NewBufferString(s.data), nil }},
	{"buffer at offset", false, func(s *scriptReader) (io.Reader, func()) {
		b := bytes.NewBufferString("END " + s.data)
		b.Next(4)
		return b, nil
	}},
	{"section", false, func(s *scriptReader) (io.Reader, func()) {
		return io.NewSectionReader(strings.NewReader("xx"+s.data+" yy"), 2, int64(len(s.data))), nil
	}},
	{"limited strings", false, func(s *scriptReader) (io.Reader, func()) {
		return io.LimitReader(strings.NewReader(s.data+" yy"), int64(len(s.data))), nil
	}},
	{"file", false, func(s *scriptReader) (io.Reader, func()) { return fileReader("", s.data) }},
	{"file at offset", false, func(s *scriptReader) (io.Reader, func()) { return fileReader("END ", s.data) }},
}

// fileReader is a file positioned behind skip.
func fileReader(skip, text string) (io.Reader, func()) {
	d := filepath.Join(workDir(), "files")
	os.MkdirAll(d, 0755)
	p := filepath.Join(d, fmt.Sprintf("f%d.asn1", atomic.AddInt64(&fileNo, 1)))
	if err := os.WriteFile(p, []byte(skip+text), 0600); err != nil {
		panic("harness: " + err.Error())
	}
	f, err := os.Open(p)
	if err != nil {
		panic("harness: " + err.Error())
	}
	f.Seek(int64(len(skip)), io.SeekStart)
	return f, func() { f.Close(); os.Remove(p) }
}

// sameResult compares a result with the one for the string.
func sameResult(c *Ctl, what, text string, m1 *a.ModuleDefinition, e1 error) {
	m2, e2 := a.ParseString(text)
	if (m1 == nil) == (e1 == nil) {
		c.Fail("%s: parsing returned module=%v error=%v for %q", what, m1 != nil, e1, clip(text, 300))
	}
	if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
		c.Fail("%s: error %v, from a string %v, for %q", what, e1, e2, clip(text, 300))
	}
	if m2 != nil {
		if d := diffAST(*m2, *m1); d != "" {
			c.Fail("%s: AST differs from that of the string at %s for %q", what, d, clip(text, 300))
		}
	}
}

func mustReport(c *Ctl, what, text string, m *a.ModuleDefinition, err error, want error) {
	if m != nil || err == nil {
		c.Fail("%s: read error %q was not reported: module=%v error=%v for %q", what, want, m != nil, err, clip(text, 300))
	}
	if !errors.Is(err, want) && !strings.Contains(err.Error(), want.Error()) {
		c.Fail("%s: read error %q was reported as %q for %q", what, want, err, clip(text, 300))
	}
}

// firstErrorEnd is the offset behind the first item that is not viable (len+1 if none, or at the end).
func firstErrorEnd(text string) int {
	r := refParse(text)
	if r.v == vAccept || r.atEOF {
		return len(text) + 1
	}
	if r.v == vLenient {
		return 0
	}
	return r.lx.toks[r.errTok].off
}

var fileNo int64

func init() {
	long := func(base int) []string {
		var out []string
		for _, t := range streamTexts[:4] {
			out = append(out, "--"+strings.Repeat("x", base)+"\n"+t)
		}
		return out
	}
	register(&Check{
		ID: "C07", Level: "fault_enumeration",
		Rule: "one path per text and behaviour of the reader (every answer of the reader is enumerated: sizes, empty reads, errors alone or with data, once or for ever); a path is non-trivial by its text and behaviour",
		Spaces: func(tier string) []*Space {
			cuts, small := 2, 14
			maxExp, kindErrs := 24, []error{readErrs[0], readErrs[5], tempErr{}}
			texts := streamTexts
			if tier == "thorough" {
				cuts, small = 3, 18
				maxExp, kindErrs = 25, readErrs
			}
			sp := []*Space{
				{Name: "splits", Bound: fmt.Sprintf("%d texts x every set of up to %d split points x 0..2 empty reads at each x end of file with or after the data", len(texts), cuts), Run: func(c *Ctl) {
					t := texts[c.Choose(len(texts))]
					var sc []step
					pos := 0
					for i := 0; i < cuts && pos < len(t); i++ {
						k := c.Choose(len(t) - pos + 1)
						if k == 0 {
							break
						}
						sc = append(sc, step{k, nil})
						pos += k
						if cuts <= 2 {
							for e := c.Choose(3); e > 0; e-- {
								sc = append(sc, step{0, nil})
							}
						}
					}
					r := &scriptReader{data: t, script: sc, eofWith: c.Bool()}
					c.Input(fmt.Sprintf("%q split %v eofwith=%v", t, sc, r.eofWith))
					m, err := a.ParseStream(r)
					c.Outcome(fmt.Sprint(err == nil))
					sameResult(c, "split", t, m, err)
				}},
				{Name: "allsplits", Bound: fmt.Sprintf("every way of splitting the last and the first %d bytes of each text", small), Run: func(c *Ctl) {
					t := texts[c.Choose(len(texts))]
					from := 0
					if c.Bool() {
						from = len(t) - small
						if from < 0 {
							from = 0
						}
					}
					var sc []step
					run := from
					for i := from; i < from+small && i < len(t); i++ {
						run++
						if c.Bool() {
							sc = append(sc, step{run, nil})
							run = 0
						}
					}
					if run > 0 {
						sc = append(sc, step{run, nil})
					}
					if len(sc) > 0 && sc[0].n == 0 {
						sc = sc[1:]
					}
					r := &scriptReader{data: t, script: sc}
					c.Input(fmt.Sprintf("%q split %v", t, sc))
					m, err := a.ParseStream(r)
					c.Outcome(fmt.Sprint(err == nil))
					sameResult(c, "split", t, m, err)
				}},
				{Name: "chunks", Bound: "texts, also shifted around the buffer sizes 4096 and 8192, x chunk sizes 1..40 and around 4096 x empty reads before each chunk x end of file with or after the data", Run: func(c *Ctl) {
					var t string
					if c.Bool() {
						ls := long([]int{4096, 8192}[c.Choose(2)] - c.Choose(180))
						t = ls[c.Choose(len(ls))]
					} else {
						t = texts[c.Choose(len(texts))]
					}
					size := 1 + c.Choose(12)
					if size > 10 {
						size = []int{4096, 4095}[size-11]
					}
					r := &scriptReader{data: t, rest: size, eofWith: c.Bool(), empties: []int{0, 1, 60}[c.Choose(3)]}
					if len(t) > 1000 && size < 7 && r.empties > 1 {
						return
					}
					c.Input(fmt.Sprintf("%q chunks of %d, %d empty reads, eofwith=%v", clip(t, 200), size, r.empties, r.eofWith))
					m, err := a.ParseStream(r)
					c.Outcome(fmt.Sprint(err == nil))
					sameResult(c, "chunks", t, m, err)
				}},
				{Name: "errors", Bound: fmt.Sprintf("%d texts, also behind a 4096 byte comment, x every position of a read error (0..length) x %d errors x {once, for ever} x {alone, with the data} x {whole, byte by byte, after an empty read}", len(texts), len(readErrs)), Run: func(c *Ctl) {
					var t string
					k := c.Choose(len(texts) + 4)
					if k < len(texts) {
						t = texts[k]
					} else {
						t = long(4096 - 60)[k-len(texts)]
					}
					lo := 0
					if len(t) > 4000 {
						lo = 4000
					}
					p := lo + c.Choose(len(t)-lo+1)
					e := readErrs[c.Choose(len(readErrs))]
					with := c.Bool()
					forever := c.Bool()
					var sc []step
					how := c.Choose(3)
					rest := 0
					switch {
					case p == 0:
						with = false
					case how == 0:
						sc = append(sc, step{p, nil})
					case how == 1:
						rest = 1
						for i := lo; i < p; i++ {
							if i == lo && lo > 0 {
								sc = append(sc, step{lo, nil})
							}
							sc = append(sc, step{1, nil})
						}
						if p == lo {
							sc = append(sc, step{lo, nil})
						}
					case how == 2:
						sc = append(sc, step{p, nil}, step{0, nil})
						with = false
					}
					if with {
						sc[len(sc)-1].err = e
						if forever {
							sc = append(sc, step{0, e})
						}
					} else {
						sc = append(sc, step{0, e})
					}
					r := &scriptReader{data: t, script: sc, forever: forever, rest: rest}
					c.Input(fmt.Sprintf("%q fails at %d with %q (with data %v, for ever %v, %d)", clip(t, 260), p, e, with, forever, how))
					m, err := a.ParseStream(r)
					c.Outcome(fmt.Sprint(err == nil, r.failed))
					if (m == nil) == (err == nil) {
						c.Fail("parsing returned module=%v error=%v", m != nil, err)
					}
					if p < firstErrorEnd(t) {
						mustReport(c, "read error", t, m, err, e)
					} else if err == nil {
						c.Fail("a malformed text was accepted after a read error")
					} else if !errors.Is(err, e) && !strings.Contains(err.Error(), e.Error()) {
						// the text is wrong before the failure: either report will do
						_, e2 := a.ParseString(t)
						if e2 == nil || e2.Error() != err.Error() {
							c.Fail("read error %q and wrong text reported as %q, from a string %v", e, err, e2)
						}
					}
				}},
				{Name: "readers", Bound: fmt.Sprintf("%d texts x %d types of readers x whole or 3 bytes at a time x (no error, or every position of a read error x %d errors x {once, for ever} x {alone, with the data})", len(texts), len(readerKinds), len(kindErrs)), Run: func(c *Ctl) {
					t := texts[c.Choose(len(texts))]
					kind := readerKinds[c.Choose(len(readerKinds))]
					r := &scriptReader{data: t}
					if kind.errors && c.Bool() {
						r.rest = 3
					}
					if !kind.errors || c.Bool() {
						c.Input(fmt.Sprintf("%q through %s, %d at a time", t, kind.name, r.rest))
						in, done := kind.wrap(r)
						m, err := a.ParseStream(in)
						if done != nil {
							done()
						}
						c.Outcome(fmt.Sprint(err == nil))
						sameResult(c, kind.name, t, m, err)
						return
					}
					p := c.Choose(len(t) + 1)
					e := kindErrs[c.Choose(len(kindErrs))]
					r.forever = c.Bool()
					for i := 0; i < p; {
						n := p - i
						if r.rest > 0 && n > r.rest {
							n = r.rest
						}
						r.script = append(r.script, step{n, nil})
						i += n
					}
					with := p > 0 && c.Bool()
					if with {
						r.script[len(r.script)-1].err = e
					}
					if !with || r.forever {
						r.script = append(r.script, step{0, e})
					}
					c.Input(fmt.Sprintf("%q through %s, %d at a time, fails at %d with %q (with data %v, for ever %v)", t, kind.name, r.rest, p, e, with, r.forever))
					in, done := kind.wrap(r)
					m, err := a.ParseStream(in)
					if done != nil {
						done()
					}
					c.Outcome(fmt.Sprint(err == nil, r.failed))
					if (m == nil) == (err == nil) {
						c.Fail("%s: parsing returned module=%v error=%v", kind.name, m != nil, err)
					}
					if p < firstErrorEnd(t) {
						mustReport(c, kind.name, t, m, err, e)
					} else if err == nil {
						c.Fail("%s: a malformed text was accepted after a read error", kind.name)
					}
				}},
				{Name: "large", Bound: fmt.Sprintf("modules of 2 KiB to %d MiB (around every power of two), with a comment or with definitions, that end properly, too early or with a further word, from a file, from a stream whole and in pieces, and from a bufio.Reader", 1<<uint(maxExp-20)), Run: func(c *Ctl) {
					e := 11 + c.Choose(maxExp-11+1)
					n := 1<<uint(e) + []int{-1, 0, 1, 40}[c.Choose(4)]
					end := c.Choose(3)
					how := c.Choose(4)
					fill := c.Choose(2)
					if fill == 1 && e > 21 {
						return
					}
					head, tail := "M DEFINITIONS ::= BEGIN ", []string{" END", " A ::=", " END x"}[end]
					pad := n - len(head) - len(tail)
					var t string
					if fill == 0 {
						t = head + "/*" + strings.Repeat("x", pad-4) + "*/" + tail
					} else {
						one := "A ::= NULL\n"
						t = head + strings.Repeat(one, pad/len(one)) + strings.Repeat(" ", pad%len(one)) + tail
					}
					c.Input(fmt.Sprintf("%d bytes, fill %d, end %q, way %d", n, fill, tail, how))
					var m *a.ModuleDefinition
					var err error
					switch how {
					case 0:
						p := filepath.Join(workDir(), fmt.Sprintf("large%d.asn1", atomic.AddInt64(&fileNo, 1)))
						if err := os.WriteFile(p, []byte(t), 0600); err != nil {
							panic("harness: " + err.Error())
						}
						m, err = a.ParseFile(p)
						os.Remove(p)
					case 1:
						m, err = a.ParseStream(&scriptReader{data: t})
					case 2:
						m, err = a.ParseStream(&scriptReader{data: t, rest: 1000})
					case 3:
						m, err = a.ParseStream(bufio.NewReaderSize(strings.NewReader(t), 64))
					}
					c.Outcome(fmt.Sprint(err == nil))
					if (m == nil) == (err == nil) {
						c.Fail("parsing returned module=%v error=%v", m != nil, err)
					}
					if (err == nil) != (end == 0) {
						c.Fail("%d bytes that end in %q: error %v", n, tail, err)
					}
					if m != nil && fill == 1 && len(m.ModuleBody.AssignmentList) != pad/len("A ::= NULL\n") {
						c.Fail("%d bytes: %d assignments", n, len(m.ModuleBody.AssignmentList))
					}
				}},
				{Name: "noprogress", Bound: "texts x position after which the reader returns nothing, for ever", Run: func(c *Ctl) {
					t := texts[c.Choose(len(texts))]
					p := c.Choose(len(t) + 1)
					var sc []step
					if p > 0 {
						sc = append(sc, step{p, nil})
					}
					r := &scriptReader{data: t, script: append(sc, step{0, nil}), forever: true}
					c.Input(fmt.Sprintf("%q reads nothing after %d", t, p))
					m, err := a.ParseStream(r)
					if (m == nil) == (err == nil) {
						c.Fail("parsing returned module=%v error=%v", m != nil, err)
					}
					if p < firstErrorEnd(t) {
						mustReport(c, "no progress", t, m, err, io.ErrNoProgress)
					}
				}},
				{Name: "files", Bound: "texts, with and without byte order marks and trailing bytes, from files, links, named pipes (at once and in pieces) and names of open pipes; missing files and directories", Run: func(c *Ctl) {
					d := filepath.Join(workDir(), "files")
					os.MkdirAll(d, 0755)
					k := c.Choose(len(texts) + 8 + 2)
					p := filepath.Join(d, fmt.Sprintf("f%d.asn1", atomic.AddInt64(&fileNo, 1)))
					switch {
					case k < len(texts)+8:
						t := ""
						if k < len(texts) {
							t = texts[k] + c.Pick("", "\n", "\x00", "\x1a", "\ufeff")
						} else {
							t = long([]int{4096 - 50, 65536}[(k-len(texts))/4])[(k-len(texts))%4]
						}
						c.Input(fmt.Sprintf("file %q", clip(t, 300)))
						kind := fileKinds[c.Choose(len(fileKinds))]
						m, err := parseAsFile(kind, p, t)
						os.Remove(p)
						os.Remove(p + ".link")
						sameResult(c, kind, t, m, err)
					case k == len(texts)+8:
						c.Input("missing file")
						if m, err := a.ParseFile(p); m != nil || err == nil || !errors.Is(err, os.ErrNotExist) && !strings.Contains(err.Error(), "no such file") {
							c.Fail("missing file: module=%v error=%v", m != nil, err)
						}
					default:
						c.Input("directory")
						if m, err := a.ParseFile(d); m != nil || err == nil || !strings.Contains(err.Error(), "is a directory") {
							c.Fail("directory: module=%v error=%v", m != nil, err)
						}
					}
				}},
			}
			return sp
		},
	})
}

var fileKinds = []string{"file", "link", "named pipe", "named pipe in pieces", "open pipe"}

// parseAsFile has a text parsed from something that has the name p.
func parseAsFile(kind, p, t string) (*a.ModuleDefinition, error) {
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	send := func(w *os.File, step int) {
		for i := 0; i < len(t); i += step {
			e := i + step
			if e > len(t) {
				e = len(t)
			}
			if _, err := w.WriteString(t[i:e]); err != nil {
				break
			}
		}
		w.Close()
	}
	step := len(t) + 1
	if kind == "named pipe in pieces" {
		step = len(t)/5 + 1
	}
	switch kind {
	case "link":
		must(os.WriteFile(p+".link", []byte(t), 0600))
		must(os.Symlink(p+".link", p))
	case "named pipe", "named pipe in pieces":
		must(syscall.Mkfifo(p, 0600))
		done := make(chan bool)
		go func() {
			if w, err := os.OpenFile(p, os.O_WRONLY, 0); err == nil {
				send(w, step)
			}
			close(done)
		}()
		m, err := a.ParseFile(p)
		// the writer goes on even if nobody has read
		r, e := os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0)
		must(e)
		<-done
		r.Close()
		return m, err
	case "open pipe":
		r, w, err := os.Pipe()
		must(err)
		defer r.Close()
		go send(w, step)
		return a.ParseFile(fmt.Sprintf("/proc/self/fd/%d", r.Fd()))
	default:
		must(os.WriteFile(p, []byte(t), 0600))
	}
	return a.ParseFile(p)
}
