package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/asn1"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	a "github.com/chemikadze/asn1go"
)

// C16: writers that fail.

var writeErrs = []error{errors.New("writer broke: code 43"), io.EOF, io.ErrShortWrite, syscall.EPIPE, os.ErrClosed, io.ErrClosedPipe, syscall.ENOSPC}

// allWriteErrs also has errors that claim to be temporary, wrapped ones and those of files.
var allWriteErrs = append(append([]error{}, writeErrs...), tempErr{}, syscall.EAGAIN, syscall.EINTR, os.ErrDeadlineExceeded, io.ErrUnexpectedEOF, io.ErrNoProgress, context.Canceled,
	fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", syscall.EPIPE), &os.PathError{Op: "write", Path: "|1", Err: syscall.EPIPE}, &os.PathError{Op: "write", Path: "/dev/full", Err: syscall.ENOSPC}, bufio.ErrBufferFull, errors.New(""))

// writerKinds are the ways in which a writer is handed to the generator; finish delivers what the way has kept.
var writerKinds = []struct {
	name string
	wrap func(w io.Writer) (io.Writer, func() error)
}{
	{"bufio 16", func(w io.Writer) (io.Writer, func() error) { b := bufio.NewWriterSize(w, 16); return b, b.Flush }},
	{"bufio 4096", func(w io.Writer) (io.Writer, func() error) { b := bufio.NewWriter(w); return b, b.Flush }},
	{"bufio 65536", func(w io.Writer) (io.Writer, func() error) { b := bufio.NewWriterSize(w, 65536); return b, b.Flush }},
	{"bufio.ReadWriter", func(w io.Writer) (io.Writer, func() error) {
		b := bufio.NewReadWriter(bufio.NewReader(strings.NewReader("")), bufio.NewWriterSize(w, 100))
		return b, b.Flush
	}},
	{"multi", func(w io.Writer) (io.Writer, func() error) { return io.MultiWriter(io.Discard, w), nil }},
	{"closing", func(w io.Writer) (io.Writer, func() error) { return closeWriter{w}, nil }},
	{"ReadFrom", func(w io.Writer) (io.Writer, func() error) {
		return struct {
			io.Writer
			readFromer
		}{w, readFromer{w}}, nil
	}},
	{"WriteString", func(w io.Writer) (io.Writer, func() error) {
		return struct {
			io.Writer
			stringWriter
		}{w, stringWriter{w}}, nil
	}},
	{"WriteByte", func(w io.Writer) (io.Writer, func() error) {
		return struct {
			io.Writer
			byteWriter
		}{w, byteWriter{w}}, nil
	}},
	{"all of them", func(w io.Writer) (io.Writer, func() error) {
		return struct {
			closeWriter
			readFromer
			stringWriter
			byteWriter
		}{closeWriter{w}, readFromer{w}, stringWriter{w}, byteWriter{w}}, nil
	}},
	{"net.Pipe", func(w io.Writer) (io.Writer, func() error) {
		near, far := net.Pipe()
		done := make(chan error, 1)
		go func() {
			_, err := io.Copy(struct{ io.Writer }{w}, struct{ io.Reader }{far})
			far.Close()
			done <- err
		}()
		return near, func() error { near.Close(); return <-done }
	}},
	{"io.Pipe", func(w io.Writer) (io.Writer, func() error) {
		far, near := io.Pipe()
		done := make(chan error, 1)
		go func() {
			_, err := io.Copy(struct{ io.Writer }{w}, struct{ io.Reader }{far})
			far.CloseWithError(err)
			done <- err
		}()
		return near, func() error { near.Close(); return <-done }
	}},
}

// The optional interfaces of writers, on top of one that offers none.
type readFromer struct{ to io.Writer }

func (r readFromer) ReadFrom(from io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{r.to}, struct{ io.Reader }{from})
}

type stringWriter struct{ to io.Writer }

func (s stringWriter) WriteString(t string) (int, error) { return s.to.Write([]byte(t)) }

type byteWriter struct{ to io.Writer }

func (b byteWriter) WriteByte(x byte) error {
	_, err := b.to.Write([]byte{x})
	return err
}

func (b byteWriter) WriteRune(r rune) (int, error) { return b.to.Write([]byte(string(r))) }

// closeWriter offers what files and connections offer.
type closeWriter struct{ io.Writer }

func (closeWriter) Close() error         { return nil }
func (closeWriter) Sync() error          { return nil }
func (closeWriter) Flush() error         { return nil }
func (closeWriter) Truncate(int64) error { return nil }

// kindCase: a fault behind a writer of another kind.
func kindCase(c *Ctl) {
	t := historyTexts[c.Choose(len(historyTexts))]
	kind := writerKinds[c.Choose(len(writerKinds))]
	g := histGens[0]
	m, err := a.ParseString(t.text)
	if err != nil {
		return
	}
	ref := generate(m, g.params)
	if ref.err != nil {
		return
	}
	w := &faultWriter{at: c.Choose(len(ref.out) + 2), kind: c.Choose(2), err: allWriteErrs[[]int{0, 3, 8}[c.Choose(3)]]}
	c.Input(fmt.Sprintf("%s through %s: writer fails at byte %d of %d with %q, %s", t.name, kind.name, w.at, len(ref.out), w.err, faultKinds[w.kind]))
	out, finish := kind.wrap(w)
	err = a.NewCodeGenerator(g.params).Generate(*m, out)
	if finish != nil {
		if e := finish(); err == nil {
			err = e
		}
	}
	c.Outcome(fmt.Sprint(err == nil))
	if err == nil && w.failed {
		c.Fail("the writer failed with %q, but generation through %s reports success: %s", w.err, kind.name, t.name)
	}
	if err == nil && !bytes.Equal(w.good, ref.out) {
		c.Fail("generation through %s reports success, but wrote %d of %d bytes: %s", kind.name, len(w.good), len(ref.out), t.name)
	}
	if err != nil && !w.failed {
		c.Fail("the writer accepted everything, but generation through %s reports %v: %s", kind.name, err, t.name)
	}
	if !bytes.HasPrefix(ref.out, w.good) {
		c.Fail("what was written through %s before the failure is no prefix of the output: %q: %s", kind.name, clip(string(w.good), 600), t.name)
	}
}

// fileCase: generation into real files that refuse.
func fileCase(c *Ctl) {
	t := historyTexts[c.Choose(len(historyTexts))]
	m, err := a.ParseString(t.text)
	if err != nil {
		return
	}
	g := histGens[c.Choose(2)]
	ref := generate(m, g.params)
	if ref.err != nil {
		return
	}
	d, rm := scratch()
	defer rm()
	p := filepath.Join(d, "out.go")
	how := c.Choose(6)
	c.Input(fmt.Sprintf("%s %s into file kind %d", t.name, g.name, how))
	var f *os.File
	good := false
	switch how {
	case 0:
		f, err = os.Create(p)
		good = true
	case 1: // appended to what is there
		putFile(p, nil, 0600)
		f, err = os.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0)
		good = true
	case 2:
		putFile(p, nil, 0600)
		f, err = os.Open(p)
	case 3:
		f, err = os.Create(p)
		f.Close()
	case 4:
		if !fullDevice() {
			c.Outcome("no full device here")
			return
		}
		var fd int
		fd, err = syscall.Open("/dev/full", syscall.O_WRONLY|syscall.O_CLOEXEC, 0)
		f = os.NewFile(uintptr(fd), "full") // not by its name: what is generated is nobody's to put there
	case 5: // a pipe nobody reads
		var r *os.File
		r, f, err = os.Pipe()
		if err == nil {
			r.Close()
		}
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
	err = a.NewCodeGenerator(g.params).Generate(*m, f)
	f.Close()
	c.Outcome(fmt.Sprint(err == nil))
	if (err == nil) != good {
		c.Fail("generation of %s into file kind %d (0 and 1 can be written): error %v", t.name, how, err)
	}
	if got, _ := os.ReadFile(p); good && !bytes.Equal(got, ref.out) {
		c.Fail("generation of %s into file kind %d wrote %d of %d bytes", t.name, how, len(got), len(ref.out))
	}
}

type faultWriter struct {
	at     int // offset of the fault, in bytes accepted
	kind   int
	err    error
	good   []byte // accepted before the fault
	after  []byte // accepted after the fault
	failed bool
	calls  int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.failed {
		if w.kind == 2 { // only one fault
			w.after = append(w.after, p...)
			return len(p), nil
		}
		return 0, w.err
	}
	room := w.at - len(w.good)
	if len(p) <= room {
		w.good = append(w.good, p...)
		return len(p), nil
	}
	w.failed = true
	switch w.kind {
	case 1: // refuses the whole write
		return 0, w.err
	case 3: // takes everything, but reports an error
		w.good = append(w.good, p...)
		return len(p), w.err
	}
	w.good = append(w.good, p[:room]...)
	return room, w.err
}

// stringFaultWriter also offers WriteString and WriteByte.
type stringFaultWriter struct{ *faultWriter }

func (w stringFaultWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w stringFaultWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

var faultKinds = []string{"partial write, then broken", "refused, then broken", "partial write once", "complete write with error"}

func judgeWriter(c *Ctl, m *a.ModuleDefinition, p a.GenParams, desc string, all bool) {
	ref := generate(m, p)
	if ref.err != nil {
		w := &faultWriter{err: writeErrs[0]}
		err := a.NewCodeGenerator(p).Generate(*m, w)
		if err == nil || err.Error() != ref.err.Error() || w.calls != 0 {
			c.Fail("generation fails with %v, with a broken writer %v after %d writes: %s", ref.err, err, w.calls, desc)
		}
		c.Outcome("unsupported")
		return
	}
	w := &faultWriter{at: c.Choose(len(ref.out) + 2), err: writeErrs[0]}
	w.kind = c.Choose(len(faultKinds))
	strs := c.Bool()
	c.Input(fmt.Sprintf("%s: writer fails at byte %d of %d, %s, with WriteString %v", desc, w.at, len(ref.out), faultKinds[w.kind], strs))
	errs := writeErrs[:4]
	if all {
		errs = allWriteErrs
	}
	for _, e := range errs {
		v := *w
		v.err = e
		judgeFault(c, m, p, &v, strs, ref.out, desc)
		c.Steps(1)
	}
}

func judgeFault(c *Ctl, m *a.ModuleDefinition, p a.GenParams, w *faultWriter, strs bool, want []byte, desc string) {
	var out io.Writer = w
	if strs {
		out = stringFaultWriter{w}
	}
	err := a.NewCodeGenerator(p).Generate(*m, out)
	if err == nil {
		if w.failed {
			c.Fail("the writer failed (%s at byte %d with %q), but generation reports success: %s", faultKinds[w.kind], w.at, w.err, desc)
		}
		if !bytes.Equal(w.good, want) {
			c.Fail("generation reports success, but wrote %d of %d bytes: %q: %s", len(w.good), len(want), clip(string(w.good), 300), desc)
		}
		c.Outcome("ok")
		return
	}
	if !w.failed {
		c.Fail("the writer accepted everything, but generation reports %v: %s", err, desc)
	}
	if !errors.Is(err, w.err) && !strings.Contains(err.Error(), w.err.Error()) {
		c.Fail("the writer failed with %q, generation reports %q: %s", w.err, err, desc)
	}
	if !bytes.HasPrefix(want, w.good) {
		c.Fail("what was written before the failure is no prefix of the output: %q: %s", clip(string(w.good), 600), desc)
	}
	c.Outcome("error")
}

// C18: files.

var marshalValues = func() []struct {
	name string
	v    interface{}
} {
	type s1 struct {
		A int
		B []byte `asn1:"optional"`
	}
	type bad1 struct {
		A int
		F float64
	}
	type badStr struct {
		A int
		S string `asn1:"printable"`
	}
	long := bytes.Repeat([]byte{0x55}, 70000)
	var nilPtr *big.Int
	_ = nilPtr
	return []struct {
		name string
		v    interface{}
	}{
		{"zero", 0},
		{"int", 12345},
		{"negative", int64(-1) << 40},
		{"bool", true},
		{"string", "hello"},
		{"utf8", "h\u00e9"},
		{"bytes", []byte{1, 2, 3}},
		{"empty bytes", []byte{}},
		{"long bytes", long},
		{"oid", asn1.ObjectIdentifier{1, 2, 840, 113549}},
		{"time", time.Date(2020, 2, 3, 4, 5, 6, 0, time.UTC)},
		{"old time", time.Date(1900, 2, 3, 4, 5, 6, 0, time.UTC)},
		{"bits", asn1.BitString{Bytes: []byte{0xf0}, BitLength: 4}},
		{"enum", asn1.Enumerated(3)},
		{"big", new(big.Int).Lsh(big.NewInt(1), 200)},
		{"struct", s1{7, nil}},
		{"struct 2", s1{7, []byte("xyz")}},
		{"slice", []s1{{1, nil}, {2, []byte{9}}}},
		{"ints", []int{3, 2, 1}},
		{"raw", asn1.RawValue{Class: 2, Tag: 3, Bytes: []byte{1}}},
		{"raw full", asn1.RawValue{FullBytes: []byte{4, 1, 2}}},
		{"empty raw content", asn1.RawContent{}},
		{"nothing", nil},
		{"float", 1.5},
		{"map", map[string]int{"a": 1}},
		{"channel", make(chan int)},
		{"function", func() {}},
		{"struct with float", bad1{1, 2}},
		{"bad oid", asn1.ObjectIdentifier{9, 99}},
		{"short oid", asn1.ObjectIdentifier{1}},
		{"invalid utf8", "a\xff"},
		{"bad printable", badStr{1, "a*\u00e9"}},
		{"year 10000", time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC)},
		{"slice with bad element", []interface{}{1, 2.5}},
		{"unsigned", uint8(3)},
	}
}()

func safeMarshal(v interface{}) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return asn1.Marshal(v)
}

// states of the target path; each prepares dir/name and tells what is there.
type pathState struct {
	name string
	make func(dir string, want []byte) string // returns the path
	fail bool                                 // the path cannot be written
}

func putFile(p string, b []byte, mode os.FileMode) {
	if err := os.WriteFile(p, b, 0600); err != nil {
		panic("harness: " + err.Error())
	}
	if err := os.Chmod(p, mode); err != nil {
		panic("harness: " + err.Error())
	}
}

var pathStates = []pathState{
	{"absent", func(d string, w []byte) string { return filepath.Join(d, "out.der") }, false},
	{"empty file", func(d string, w []byte) string { p := filepath.Join(d, "f"); putFile(p, nil, 0640); return p }, false},
	{"shorter file", func(d string, w []byte) string {
		p := filepath.Join(d, "f")
		putFile(p, bytes.Repeat([]byte{0xee}, (len(w)+1)/2), 0600)
		return p
	}, false},
	{"file of equal length", func(d string, w []byte) string {
		p := filepath.Join(d, "f")
		putFile(p, bytes.Repeat([]byte{0xee}, len(w)), 0644)
		return p
	}, false},
	{"file one byte longer", func(d string, w []byte) string {
		p := filepath.Join(d, "f")
		putFile(p, bytes.Repeat([]byte{0xee}, len(w)+1), 0600)
		return p
	}, false},
	{"same content and more", func(d string, w []byte) string {
		p := filepath.Join(d, "f")
		putFile(p, append(append([]byte{}, w...), 1, 2, 3), 0600)
		return p
	}, false},
	{"same content", func(d string, w []byte) string { p := filepath.Join(d, "f"); putFile(p, w, 0600); return p }, false},
	{"much longer file", func(d string, w []byte) string {
		p := filepath.Join(d, "f")
		putFile(p, bytes.Repeat([]byte{0xee}, 2*len(w)+5000), 0600)
		return p
	}, false},
	{"link to a longer file", func(d string, w []byte) string {
		putFile(filepath.Join(d, "t"), bytes.Repeat([]byte{0xee}, 2*len(w)+10), 0600)
		p := filepath.Join(d, "l")
		if err := os.Symlink("t", p); err != nil {
			panic("harness: " + err.Error())
		}
		return p
	}, false},
	{"dangling link", func(d string, w []byte) string {
		p := filepath.Join(d, "l")
		if err := os.Symlink("nowhere", p); err != nil {
			panic("harness: " + err.Error())
		}
		return p
	}, false},
	// these are run by a user whom permission bits refuse something
	{"file that can only be written", func(d string, w []byte) string {
		p := filepath.Join(d, "f")
		putFile(p, bytes.Repeat([]byte{0xee}, len(w)+3), 0200)
		return p
	}, false},
	{"executable file", func(d string, w []byte) string {
		p := filepath.Join(d, "f")
		putFile(p, bytes.Repeat([]byte{0xee}, len(w)+3), 0755)
		return p
	}, false},
	{"file with another name", func(d string, w []byte) string {
		p := filepath.Join(d, "f")
		putFile(p, bytes.Repeat([]byte{0xee}, len(w)+3), 0600)
		if err := os.Link(p, filepath.Join(d, "g")); err != nil {
			panic("harness: " + err.Error())
		}
		return p
	}, false},
	{"file in a directory that cannot be changed", func(d string, w []byte) string {
		p := filepath.Join(d, "s", "f")
		if err := os.Mkdir(filepath.Join(d, "s"), 0700); err != nil {
			panic("harness: " + err.Error())
		}
		putFile(p, bytes.Repeat([]byte{0xee}, len(w)+3), 0600)
		if err := os.Chmod(filepath.Join(d, "s"), 0555); err != nil {
			panic("harness: " + err.Error())
		}
		return p
	}, false},
	{"read-only file", func(d string, w []byte) string {
		p := filepath.Join(d, "f")
		putFile(p, bytes.Repeat([]byte{0xee}, len(w)+3), 0444)
		return p
	}, true},
	{"absent in a directory that cannot be changed", func(d string, w []byte) string {
		if err := os.Mkdir(filepath.Join(d, "s"), 0555); err != nil {
			panic("harness: " + err.Error())
		}
		return filepath.Join(d, "s", "f")
	}, true},
	{"odd name", func(d string, w []byte) string { return filepath.Join(d, "a b%d\n.der") }, false},
	{"directory", func(d string, w []byte) string { return d }, true},
	{"missing parent", func(d string, w []byte) string { return filepath.Join(d, "no", "f") }, true},
	{"parent is a file", func(d string, w []byte) string {
		putFile(filepath.Join(d, "g"), nil, 0600)
		return filepath.Join(d, "g", "f")
	}, true},
	{"empty name", func(d string, w []byte) string { return "" }, true},
	{"name too long", func(d string, w []byte) string { return filepath.Join(d, strings.Repeat("n", 300)) }, true},
}

var dirNo int64

func scratch() (string, func()) {
	d := filepath.Join(workDir(), fmt.Sprintf("d%d-%d", os.Getpid(), atomic.AddInt64(&dirNo, 1)))
	if err := os.Mkdir(d, 0777); err != nil {
		panic("harness: " + err.Error())
	}
	return d, func() {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0700)
			}
			return nil
		})
		os.RemoveAll(d)
	}
}

// readAnyway reads an own file whatever its permission bits are, and leaves them as they are.
func readAnyway(p string) ([]byte, error) {
	b, err := os.ReadFile(p)
	if !os.IsPermission(err) {
		return b, err
	}
	fi, err := os.Stat(p)
	if err != nil {
		return nil, err
	}
	if err := os.Chmod(p, 0600); err != nil {
		return nil, err
	}
	defer os.Chmod(p, fi.Mode())
	return os.ReadFile(p)
}

// tree lists a scratch directory with contents.
func tree(d string) map[string]string {
	out := map[string]string{}
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == d {
			return nil
		}
		r, _ := filepath.Rel(d, p)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[r] = "-> " + l
		case fi.IsDir():
			out[r] = "dir"
		default:
			b, _ := readAnyway(p)
			out[r] = fmt.Sprintf("%v %x", fi.Mode(), b)
		}
		return nil
	})
	return out
}

func sameTree(x, y map[string]string) string {
	for k, v := range x {
		if y[k] != v {
			return fmt.Sprintf("%s was %s, is %s", k, clip(v, 100), clip(y[k], 100))
		}
	}
	for k, v := range y {
		if _, ok := x[k]; !ok {
			return fmt.Sprintf("%s is new: %s", k, clip(v, 100))
		}
	}
	return ""
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

func marshalCase(c *Ctl, vi, si int, mode, umask os.FileMode) {
	val, st := marshalValues[vi], pathStates[si]
	want, merr := safeMarshal(val.v)
	if merr != nil && strings.HasPrefix(merr.Error(), "panic:") {
		return
	}
	c.Input(fmt.Sprintf("%s to %s, mode %04o, umask %04o", val.name, st.name, mode, umask))
	d, rm := scratch()
	defer rm()
	p := st.make(d, want)
	fresh := p != "" && !exists(p)
	var hadMode os.FileMode
	if fi, err := os.Stat(p); err == nil {
		hadMode = fi.Mode()
	}
	before := tree(d)
	old := syscall.Umask(int(umask))
	err := a.MarshalToFile(val.v, p, mode)
	syscall.Umask(old)
	switch {
	case merr != nil:
		c.Outcome("unencodable")
		if err == nil {
			c.Fail("the value cannot be encoded (%v), but MarshalToFile reports success", merr)
		}
		if diff := sameTree(before, tree(d)); diff != "" {
			c.Fail("the value cannot be encoded, but the target changed: %s", diff)
		}
	case st.fail:
		c.Outcome("unwritable")
		if err == nil {
			c.Fail("the target cannot be written, but MarshalToFile reports success")
		}
		if diff := sameTree(before, tree(d)); diff != "" {
			c.Fail("the target cannot be written, but something changed: %s", diff)
		}
	default:
		c.Outcome("written")
		if err != nil {
			c.Fail("MarshalToFile fails: %v", err)
		}
		got, rerr := readAnyway(p)
		if rerr != nil {
			c.Fail("the file cannot be read: %v", rerr)
		}
		if !bytes.Equal(got, want) {
			c.Fail("the file holds %d bytes %x, the encoding is %d bytes %x", len(got), clip(string(got), 40), len(want), clip(string(want), 40))
		}
		if st.name == "link to a longer file" || st.name == "dangling link" {
			if fi, err := os.Lstat(p); err != nil || fi.Mode()&os.ModeSymlink == 0 {
				c.Fail("the path is no longer the link it was")
			}
		}
		if hadMode != 0 {
			if fi, err := os.Stat(p); err != nil || fi.Mode() != hadMode {
				c.Fail("the existing file had mode %v, now it has %v", hadMode, fi.Mode())
			}
		}
		if fresh {
			fi, _ := os.Stat(p)
			if fi.Mode() != mode&^umask {
				c.Fail("the new file has mode %v, want %v", fi.Mode(), mode&^umask)
			}
		}
		if st.name == "file with another name" {
			if got, _ := os.ReadFile(filepath.Join(d, "g")); !bytes.Equal(got, want) {
				c.Fail("the file was replaced by another one: its other name has the old content")
			}
		}
		after := tree(d)
		for k := range after {
			if _, ok := before[k]; !ok && filepath.Join(d, k) != p && st.name != "dangling link" {
				c.Fail("another file was left: %s", k)
			}
		}
	}
}

// withFileLimit runs f while files cannot grow beyond n bytes.
func withFileLimit(n int, f func()) {
	var ign sync.Once
	ign.Do(func() { signal.Ignore(syscall.SIGXFSZ) })
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic("harness: " + err.Error())
	}
	lim := syscall.Rlimit{Cur: uint64(n), Max: old.Max}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic("harness: " + err.Error())
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic("harness: " + err.Error())
		}
	}()
	f()
}

func init() {
	register(&Check{
		ID: "C16", Level: "fault_enumeration",
		Rule:        "one path per module, byte offset of the fault and kind of fault, each tried with every error value of the list; non-trivial by module, offset and kind",
		Assumptions: []string{"a writer that accepts less than it is given returns an error, as io.Writer demands"},
		Spaces: func(tier string) []*Space {
			j := cgJudge{writer: true}
			d := 1
			if tier == "thorough" {
				d = 2
			}
			return []*Space{
				{Name: "texts", Bound: fmt.Sprintf("%d modules x 2 integer representations x every byte offset x %d kinds of fault x %d errors x 2 interfaces", len(historyTexts), len(faultKinds), len(allWriteErrs)), Run: func(c *Ctl) {
					t := historyTexts[c.Choose(len(historyTexts))]
					g := histGens[c.Choose(2)]
					m, err := a.ParseString(t.text)
					if err != nil {
						return
					}
					judgeWriter(c, m, g.params, t.name+" "+g.name, true)
				}},
				{Name: "large", Bound: "a module whose output exceeds usual buffer sizes x every 97th byte offset and all offsets around powers of two x kinds of fault", Run: func(c *Ctl) {
					largeWriterCase(c)
				}},
				{Name: "writers", Bound: fmt.Sprintf("%d modules x %d types of writers x every byte offset x 2 kinds of fault x 3 errors", len(historyTexts), len(writerKinds)), Run: kindCase},
				{Name: "files", Bound: "modules x representation x files: new, appended, read-only, closed, full device, pipe without reader", Run: fileCase},
				derivedModules("modules", j, d, 2, 2, true, "types"),
				derivedModules("structures", j, d, 2, 1, false, "struct"),
				derivedModules("values", j, d+1, 1, 2, false, "values"),
				sizesSpace(j, d, 12*d-3),
			}
		}})
	register(&Check{
		ID: "C18", Level: "fault_enumeration", Sharded: true,
		Rule:        "one path per value, state of the target, mode, process mask and write limit; non-trivial by these",
		Assumptions: []string{"encoding/asn1 defines the DER encoding of a Go value"},
		Spaces: func(tier string) []*Space {
			masks := []os.FileMode{0, 022, 077, 0777}
			return []*Space{
				{Name: "states", Bound: fmt.Sprintf("%d values x %d states of the target x 3 modes x %d masks", len(marshalValues), len(pathStates), len(masks)), Run: func(c *Ctl) {
					x := c.Choose(len(marshalValues) * len(pathStates))
					marshalCase(c, x%len(marshalValues), x/len(marshalValues), []os.FileMode{0644, 0600, 0777}[c.Choose(3)], masks[c.Choose(len(masks))])
				}},
				{Name: "modes", Bound: "new files with each of the 512 permission sets under each mask", Run: func(c *Ctl) {
					marshalCase(c, 1, []int{0, 9}[c.Choose(2)], os.FileMode(c.Choose(512)), masks[c.Choose(len(masks))])
				}},
				{Name: "write-limits", Bound: "every encodable value of up to 300 bytes, every number of bytes that can be written before the file system refuses more, new, shorter and longer file", Run: func(c *Ctl) {
					val := marshalValues[c.Choose(len(marshalValues))]
					want, merr := safeMarshal(val.v)
					if merr != nil || len(want) > 300 {
						return
					}
					n := c.Choose(len(want) + 2)
					st := pathStates[[]int{0, 2, 7}[c.Choose(3)]]
					c.Input(fmt.Sprintf("%s to %s, at most %d of %d bytes", val.name, st.name, n, len(want)))
					d, rm := scratch()
					defer rm()
					p := st.make(d, want)
					var err error
					withFileLimit(n, func() { err = a.MarshalToFile(val.v, p, 0644) })
					got, _ := readAnyway(p)
					if err == nil && !bytes.Equal(got, want) {
						c.Fail("MarshalToFile reports success, but the file holds %d bytes %x instead of %x", len(got), clip(string(got), 100), want)
					}
					if err == nil && n < len(want) {
						c.Fail("only %d bytes could be written, but MarshalToFile reports success", n)
					}
					if err != nil && n >= len(want) && st.name != "much longer file" {
						c.Fail("MarshalToFile fails: %v", err)
					}
					c.Outcome(fmt.Sprint(err == nil))
				}},
				{Name: "sequences", Bound: "every sequence of 3 calls with 8 values on one path and 2 modes", Run: func(c *Ctl) {
					d, rm := scratch()
					defer rm()
					p := filepath.Join(d, "f")
					vals := []int{0, 6, 8, 16, 23, 27, 30, 4}
					var last []byte
					var names []string
					for i := 0; i < 3; i++ {
						v := marshalValues[vals[c.Choose(len(vals))]]
						mode := []os.FileMode{0600, 0644}[c.Choose(2)]
						names = append(names, fmt.Sprintf("%s %v", v.name, mode))
						c.Input(strings.Join(names, ", "))
						want, merr := safeMarshal(v.v)
						err := a.MarshalToFile(v.v, p, mode)
						if (err == nil) != (merr == nil) {
							c.Fail("call %d: encoding %v, MarshalToFile %v", i+1, merr, err)
						}
						if merr == nil {
							last = want
						}
						got, rerr := readAnyway(p)
						if last == nil && rerr == nil || last != nil && !bytes.Equal(got, last) {
							c.Fail("after call %d the file holds %d bytes %x, want %d bytes", i+1, len(got), clip(string(got), 60), len(last))
						}
						c.Steps(1)
					}
				}},
			}
		}})
}

var largeOnce sync.Once
var largeMod *a.ModuleDefinition

func largeWriterCase(c *Ctl) {
	largeOnce.Do(func() {
		var b strings.Builder
		b.WriteString("L DEFINITIONS ::= BEGIN ")
		for i := 0; i < 1500; i++ {
			fmt.Fprintf(&b, "T%d ::= SEQUENCE { a INTEGER, b T%d OPTIONAL } ", i, (i+1)%1500)
		}
		b.WriteString("END")
		largeMod, _ = a.ParseString(b.String())
	})
	if largeMod == nil {
		return
	}
	ref := generate(largeMod, a.GenParams{})
	if ref.err != nil {
		return
	}
	var offs []int
	for o := 0; o <= len(ref.out)+1; o += 2797 {
		offs = append(offs, o)
	}
	for p := 512; p < len(ref.out); p *= 2 {
		offs = append(offs, p-1, p, p+1)
	}
	offs = append(offs, len(ref.out)-1, len(ref.out))
	w := &faultWriter{at: offs[c.Choose(len(offs))], err: writeErrs[0]}
	w.kind = c.Choose(len(faultKinds))
	c.Input(fmt.Sprintf("large module: writer fails at byte %d of %d, %s", w.at, len(ref.out), faultKinds[w.kind]))
	judgeFault(c, largeMod, a.GenParams{}, w, false, ref.out, "large module")
}
