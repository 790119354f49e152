package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	a "github.com/chemikadze/asn1go"
	"github.com/chemikadze/asn1go/internal/utils"
)

// C17: the asn1go command. C19: hex dumps and the ws2bin command.

type ran struct {
	code   int // -1: killed by a signal
	stdout []byte
	stderr string
	hung   bool
}

// how standard input is delivered
var stdinKinds = []string{"file", "pipe", "pipe in 7 byte pieces"}

// runCmd runs a binary in dir. stdin nil: /dev/null. out: pipe, file, full, broken.
// A pipe nobody reads. Made before any process is started: one that is being started would have the
// reading end for a moment.
var brokenPipe, brokenErr = func() (*os.File, error) {
	rd, wr, err := os.Pipe()
	if err == nil {
		err = rd.Close()
	}
	return wr, err
}()

// The command runs as an unprivileged user who owns dir and can change nothing else.
func runCmd(dir, bin string, args []string, stdin []byte, stdinKind string, out string) ran {
	return runLimited(dir, bin, args, stdin, stdinKind, out, -1)
}

// nobody is the user commands run as.
const nobody = 65534

// fullDevice tells whether there is a device that refuses every write.
var fullDevice = sync.OnceValue(func() bool {
	fi, err := os.Stat("/dev/full")
	return err == nil && fi.Mode()&os.ModeCharDevice != 0
})

func init() {
	// limited: runs a command that cannot make files longer than the first argument says.
	subs["limited"] = func(args []string) int {
		n, _ := strconv.Atoi(args[0])
		lim := syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}
		err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
		if err == nil {
			err = syscall.Exec(args[1], args[1:], os.Environ())
		}
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 125
	}
}

// runLimited also sets a limit to the size of files, unless it is negative.
func runLimited(dir, bin string, args []string, stdin []byte, stdinKind string, out string, limit int) ran {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	if limit >= 0 {
		args = append([]string{"sub", "limited", strconv.Itoa(limit), bin}, args...)
		bin = os.Args[0]
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	root := os.Geteuid() == 0
	if root {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	cmd.Env = []string{"PATH=/nonexistent", "HOME=" + dir, "TMPDIR=" + dir}
	var r ran
	var ob, eb bytes.Buffer
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	var toClose []io.Closer
	var collect sync.WaitGroup
	pipeTo := func(b *bytes.Buffer) *os.File { // one that the command can open again by name
		rd, wr, err := os.Pipe()
		must(err)
		if root {
			must(wr.Chown(nobody, nobody))
		}
		collect.Add(1)
		go func() {
			defer collect.Done()
			io.Copy(b, rd)
			rd.Close()
		}()
		toClose = append(toClose, wr)
		return wr
	}
	cmd.Stderr = pipeTo(&eb)
	switch out {
	case "pipe":
		cmd.Stdout = pipeTo(&ob)
	case "file":
		f, err := os.Create(filepath.Join(dir, "stdout"))
		must(err)
		cmd.Stdout = f
		toClose = append(toClose, f)
	case "full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		cmd.Stdout = f
		toClose = append(toClose, f)
	case "broken":
		must(brokenErr)
		cmd.Stdout = brokenPipe
	}
	var feed func()
	if stdin != nil {
		switch stdinKind {
		case "file":
			p := filepath.Join(dir, "stdin")
			must(os.WriteFile(p, stdin, 0600))
			f, err := os.Open(p)
			must(err)
			cmd.Stdin = f
			toClose = append(toClose, f)
		default:
			rd, wr, err := os.Pipe()
			must(err)
			if root {
				must(rd.Chown(nobody, nobody))
			}
			cmd.Stdin = rd
			toClose = append(toClose, rd)
			feed = func() {
				defer wr.Close()
				step := len(stdin)
				if stdinKind != "pipe" {
					step = 7
				}
				for i := 0; i < len(stdin); i += step {
					e := i + step
					if e > len(stdin) {
						e = len(stdin)
					}
					if _, err := wr.Write(stdin[i:e]); err != nil {
						return
					}
				}
			}
		}
	}
	if root {
		must(filepath.Walk(dir, func(p string, _ os.FileInfo, err error) error {
			if err == nil {
				err = os.Lchown(p, nobody, nobody)
			}
			return err
		}))
	}
	must(cmd.Start())
	if feed != nil {
		go feed()
	}
	for _, c := range toClose {
		c.Close()
	}
	err := cmd.Wait()
	collect.Wait()
	r.hung = ctx.Err() != nil
	if err != nil {
		r.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		}
	}
	r.stdout = ob.Bytes()
	if out == "file" {
		r.stdout, _ = os.ReadFile(filepath.Join(dir, "stdout"))
	}
	r.stderr = eb.String()
	return r
}

type cliInput struct {
	name string
	text string
	kind string // "", "missing", "directory", "link"
}

var cliInputs = func() []cliInput {
	var big strings.Builder
	big.WriteString("Big-Module DEFINITIONS ::= BEGIN ")
	for i := 0; i < 3000; i++ {
		fmt.Fprintf(&big, "Type-%d ::= SEQUENCE { field-a INTEGER, b [1] BIT STRING OPTIONAL }\n", i)
	}
	big.WriteString("END")
	return []cliInput{
		{"small", "Test-Mod DEFINITIONS ::= BEGIN A ::= SEQUENCE { a INTEGER, t GeneralizedTime } v REAL ::= MINUS-INFINITY END\n", ""},
		{"large", big.String(), ""},
		{"empty module", "M DEFINITIONS ::= BEGIN END", ""},
		{"syntax error", "M DEFINITIONS ::= BEGIN\nA ::= SEQUENCE { a %s%d INTEGER }\nEND", ""},
		{"late syntax error", "M DEFINITIONS ::= BEGIN\nA ::= SEQUENCE { a INTEGER }\nB ::= \nEND", ""},
		{"lexical error", "M DEFINITIONS ::= BEGIN\n\nA ::= INTEGER\n/* %v", ""},
		{"unsupported", "M DEFINITIONS ::= BEGIN A ::= INTEGER B ::= NULL END", ""},
		{"undefined", "M DEFINITIONS ::= BEGIN A ::= INTEGER B ::= Undefined-Type C ::= Other END", ""},
		{"automatic", "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= INTEGER END", ""},
		{"empty", "", ""},
		{"bytes", "M DEFINITIONS ::= BEGIN \xff\x00 END", ""},
		{"missing", "", "missing"},
		{"directory", "", "directory"},
	}
}()

var cliFlags = [][]string{
	nil,
	{"-package", "pkg"},
	{"--package=other"},
	{"-default-integer-repr", "int64"},
	{"-default-integer-repr=big.Int"},
	{"-default-integer-repr", "big.Int", "-package=p2"},
	{"-package=p3", "--default-integer-repr", "int64"},
	{"-default-integer-repr", "int32"},
	{"-default-integer-repr="},
	{"-package="},
	{"-no-such-flag"},
}

func cliParams(flags []string) (p a.GenParams, bad bool) {
	p.IntegerRepr = a.IntegerReprInt64
	for i := 0; i < len(flags); i++ {
		f := strings.TrimLeft(flags[i], "-")
		v := ""
		if k := strings.IndexByte(f, '='); k >= 0 {
			f, v = f[:k], f[k+1:]
		} else if i+1 < len(flags) {
			i++
			v = flags[i]
		}
		switch f {
		case "package":
			p.Package = v
		case "default-integer-repr":
			p.IntegerRepr = a.IntegerRepr(v)
		default:
			return p, true
		}
	}
	return p, false
}

var cliTargets = []string{"stdout pipe", "stdout file", "stdout full device", "stdout broken pipe", "absent", "empty file", "shorter file", "longer file", "same file", "same content and more", "link to longer file", "in subdirectory", "odd name", "directory", "missing parent", "parent is a file", "full device", "three arguments", "no room", "no room for the last byte", "no room in longer file", "half written stdout file", "just enough room"}

func cliCase(c *Ctl, in cliInput, viaStdin string, target string, flags []string) {
	bin := os.Getenv("VF_ASN1GO")
	if bin == "" {
		panic("harness: VF_ASN1GO is not set")
	}
	desc := fmt.Sprintf("input %s via %s to %s with %q", in.name, viaStdin, target, flags)
	c.Input(desc)
	d, rm := scratch()
	defer rm()
	put := func(name, s string) { putFile(filepath.Join(d, name), []byte(s), 0644) }
	// expected result
	params, badFlags := cliParams(flags)
	var want []byte
	var wantErr string
	m, err := a.ParseString(in.text)
	if err == nil {
		g := generate(m, params)
		want, err = g.out, g.err
	}
	if err != nil {
		wantErr = err.Error()
	}
	ok := err == nil && in.kind == "" && !badFlags
	args := append([]string{}, flags...)
	var stdin []byte
	if viaStdin == "argument" {
		name := "input.asn1"
		if target == "odd name" {
			name = "in put%d.asn1"
		}
		switch in.kind {
		case "":
			put(name, in.text)
		case "directory":
			os.Mkdir(filepath.Join(d, name), 0755)
		}
		args = append(args, name)
	} else {
		stdin = []byte(in.text)
	}
	named := viaStdin == "argument"
	if kind := strings.TrimPrefix(viaStdin, "/dev/stdin, "); kind != viaStdin {
		args = append(args, "/dev/stdin")
		viaStdin, named = kind, true
	}
	if strings.Contains(target, "full device") && !fullDevice() {
		c.Outcome("no full device here")
		return
	}
	out, limit := "pipe", -1
	outFile := ""
	outName := ""
	writable := true
	old := "package old // " + strings.Repeat("x", 100)
	switch target {
	case "stdout pipe":
	case "stdout file":
		out = "file"
	case "stdout full device":
		out, writable = "full", false
	case "stdout broken pipe":
		out, writable = "broken", false
	case "absent":
		outName = "out.go"
	case "empty file":
		outName = "out.go"
		put(outName, "")
	case "shorter file":
		outName = "out.go"
		put(outName, old[:len("package old")])
	case "longer file":
		outName = "out.go"
		put(outName, old+strings.Repeat("// y\n", len(want)/4+1000))
	case "same file":
		outName = "out.go"
		put(outName, string(want))
	case "same content and more":
		outName = "out.go"
		put(outName, string(want)+"\n}")
	case "link to longer file":
		outName = "link.go"
		put("target.go", old+strings.Repeat("// y\n", len(want)/4+1000))
		os.Symlink("target.go", filepath.Join(d, "link.go"))
	case "in subdirectory":
		os.Mkdir(filepath.Join(d, "sub"), 0755)
		outName = "sub/out.go"
	case "odd name":
		outName = "o ut%s.go"
	case "directory":
		os.Mkdir(filepath.Join(d, "dir"), 0755)
		outName, writable = "dir", false
	case "missing parent":
		outName, writable = "no/out.go", false
	case "parent is a file":
		put("plain", "x")
		outName, writable = "plain/out.go", false
	case "full device":
		outName, writable = "/dev/full", false
	case "no room":
		outName, limit = "out.go", 0
	case "no room for the last byte":
		outName, limit = "out.go", max(0, len(want)-1)
	case "no room in longer file":
		outName, limit = "out.go", len(want)/2
		put(outName, old+strings.Repeat("// y\n", len(want)/4+1000))
	case "half written stdout file":
		out, limit = "file", len(want)/2
	case "just enough room":
		outName, limit = "out.go", len(want)
	case "three arguments":
		args = append(args, "out.go", "extra")
		ok = false
	}
	if outName != "" {
		if !named {
			return // an output name needs an input name
		}
		args = append(args, outName)
		outFile = filepath.Join(d, outName)
		if filepath.IsAbs(outName) {
			outFile = outName
		}
	}
	before := tree(d)
	var oldOut []byte
	if outFile != "" && writable {
		oldOut, _ = os.ReadFile(outFile)
	}
	if limit >= 0 && limit < len(want) {
		writable = false
	}
	r := runLimited(d, bin, args, stdin, viaStdin, out, limit)
	if r.hung {
		c.Fail("asn1go does not end: %s", desc)
	}
	if len(want) == 0 && (out == "full" || out == "broken") {
		writable = true // nothing to write
	}
	// the input and everything else stays as it was
	after := tree(d)
	for k, v := range before {
		if k == outName || outName == "link.go" && k == "target.go" {
			continue
		}
		if after[k] != v {
			c.Fail("%s was changed: %s", k, desc)
		}
	}
	for k := range after {
		if _, was := before[k]; !was && k != outName && k != "stdout" && k != "stdin" {
			c.Fail("asn1go left another file %s: %s", k, desc)
		}
	}
	if ok && writable {
		c.Outcome("delivered")
		if r.code != 0 {
			c.Fail("asn1go exits with %d: %s: %s", r.code, clip(r.stderr, 500), desc)
		}
		got := r.stdout
		if outFile != "" {
			if len(r.stdout) != 0 {
				c.Fail("standard output got %q although an output file is named: %s", clip(string(r.stdout), 200), desc)
			}
			var err error
			if got, err = os.ReadFile(outFile); err != nil {
				c.Fail("no output file: %v: %s", err, desc)
			}
		}
		if !bytes.Equal(got, want) {
			c.Fail("asn1go delivered %d bytes %q, the library generates %d bytes %q: %s", len(got), clip(string(got), 300), len(want), clip(string(want), 300), desc)
		}
		return
	}
	c.Outcome("failed")
	if r.code == 0 {
		c.Fail("asn1go exits with 0, but cannot have delivered the output (stderr %q): %s", clip(r.stderr, 300), desc)
	}
	if target == "stdout broken pipe" && ok {
		return // may be killed by SIGPIPE
	}
	if strings.TrimSpace(r.stderr) == "" {
		c.Fail("asn1go exits with %d without any message: %s", r.code, desc)
	}
	if ok { // the output cannot be written
		if outName != "" && !strings.HasPrefix(outName, "/dev/") && !strings.Contains(r.stderr, outName) {
			c.Fail("the message does not name the file that cannot be written: %q: %s", clip(r.stderr, 300), desc)
		}
		return
	}
	if len(r.stdout) != 0 && target != "stdout full device" {
		c.Fail("asn1go failed, but wrote %q to standard output: %s", clip(string(r.stdout), 300), desc)
	}
	if outFile != "" && writable && target != "full device" {
		if got, err := os.ReadFile(outFile); err == nil && len(got) != 0 && !bytes.Equal(got, oldOut) {
			c.Fail("asn1go failed, but the output file holds %q: %s", clip(string(got), 300), desc)
		}
	}
	if badFlags || target == "three arguments" {
		return
	}
	if !writable {
		return // either failure may be reported
	}
	switch in.kind {
	case "":
		if !strings.Contains(r.stderr, strings.TrimSpace(wantErr)) {
			c.Fail("the message is %q, the library reports %q: %s", clip(r.stderr, 500), clip(wantErr, 500), desc)
		}
	case "missing":
		if !strings.Contains(r.stderr, "input.asn1") && !strings.Contains(r.stderr, "in put%d.asn1") {
			c.Fail("the message does not name the input file: %q: %s", clip(r.stderr, 300), desc)
		}
	}
}

var cliNames = func() []string {
	return append([]string{"-", "--", "---", "-package", "-h", "-p", "=", "+", ".hidden", "stdin", "stdout", "out", "in.asn", "in.asn1", "IN.ASN1", "in.txt", "in.go", "in.gz", "in.asn1.bz2", "in.json", "no extension", " leading", "trailing ", "a\tb", "a\nb", "%s", "%d%%n", "\u00e4.asn1", "\xff\xfe", "~", "~root", "*", "?", "[a]", "$HOME", "${x}", "'q'", "\"d\"", "\\", "|cat", ">x", "a;b", "a&b", "#", "!", "@file", "http:", "file:x", "con", "nul", "C:", "...", "a=b", "0"}, strings.Repeat("n", 255))
}()

var cliPackages = append([]string{"", "myPkg", "P", "PKG", "a_b", "_", "p\u00e4ck", "\u00c4", "type", "main", "x y", " lead", "trail ", "1a", "%s", "%d", "-", "--", "a/b", "a-b", "a.b", "a\nb", "a;b", "// x", "package", "M", "m", "asn1", "=", "a=b"}, strings.Repeat("p", 1000))

// cliNamed: the names of files, packages and representations do not matter.
func cliNamed(c *Ctl) {
	bin := os.Getenv("VF_ASN1GO")
	if bin == "" {
		panic("harness: VF_ASN1GO is not set")
	}
	const text = "Mod-Name DEFINITIONS ::= BEGIN A ::= SEQUENCE { a INTEGER , b BIT STRING } END"
	in, out := "input.asn1", "out.go"
	var args []string
	switch c.Choose(4) {
	case 0:
		in = cliNames[c.Choose(len(cliNames))]
		out = append([]string{"", "out.go"}, cliNames...)[c.Choose(2+len(cliNames))]
	case 1:
		p := cliPackages[c.Choose(len(cliPackages))]
		if c.Bool() {
			args = []string{"-package", p}
		} else {
			args = []string{"--package=" + p}
		}
	case 2:
		all := reprNeighbours()
		step := 1 + len(all)/300
		args = []string{"-default-integer-repr", all[c.Choose(len(all)/step)*step]}
	case 3:
		f := []string{"-package=a", "-package=b", "-package=", "-default-integer-repr=int64", "-default-integer-repr=big.Int", "-default-integer-repr=", "-default-integer-repr=x"}
		for i := 0; i < 3; i++ {
			args = append(args, f[c.Choose(len(f))])
		}
	}
	if in == out {
		return
	}
	params, bad := cliParams(args)
	if bad {
		return
	}
	for _, x := range args {
		if strings.Contains(x, "\x00") {
			return // not an argument
		}
	}
	dashes := strings.HasPrefix(in, "-") && in != "-"
	if dashes || c.Bool() {
		args = append(args, "--")
	}
	args = append(args, in)
	if out != "" {
		args = append(args, out)
	}
	desc := fmt.Sprintf("asn1go %q", args)
	c.Input(desc)
	m, err := a.ParseString(text)
	if err != nil {
		c.Fail("the library refuses %s: %v", text, err)
	}
	g := generate(m, params)
	d, rm := scratch()
	defer rm()
	putFile(filepath.Join(d, in), []byte(text), 0644)
	r := runCmd(d, bin, args, []byte("Other DEFINITIONS ::= BEGIN END"), "pipe", "pipe")
	if r.hung {
		c.Fail("asn1go does not end: %s", desc)
	}
	for k := range tree(d) {
		if k != in && k != out {
			c.Fail("asn1go left another file %q: %s", k, desc)
		}
	}
	if b, err := os.ReadFile(filepath.Join(d, in)); err != nil || string(b) != text {
		c.Fail("the input was changed: %s", desc)
	}
	got := r.stdout
	if out != "" {
		if len(got) > 0 {
			c.Fail("standard output got %q although an output file is named: %s", clip(string(got), 200), desc)
		}
		got, _ = os.ReadFile(filepath.Join(d, out))
	}
	if g.err != nil {
		c.Outcome("failed")
		if r.code == 0 || len(got) > 0 {
			c.Fail("asn1go exits with %d and delivers %q, the library reports %v: %s", r.code, clip(string(got), 300), g.err, desc)
		}
		return
	}
	c.Outcome("delivered")
	if r.code != 0 || !bytes.Equal(got, g.out) {
		c.Fail("asn1go exits with %d (%s) and delivers %q, the library generates %q: %s", r.code, clip(r.stderr, 300), clip(string(got), 300), clip(string(g.out), 300), desc)
	}
}

// hex dumps

// convert calls the converter; ok is false if it refuses the text.
func convert(s string) (b []byte, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			b, ok = nil, false
		}
	}()
	return utils.ParseWiresharkHex(s), true
}

func judgeDump(c *Ctl, text string, want []byte) {
	got, ok := convert(text)
	if !ok {
		c.Fail("dump refused: %q", clip(text, 600))
	}
	if !bytes.Equal(got, want) {
		c.Fail("dump %q gives %x, want %x", clip(text, 600), clip(string(got), 200), clip(string(want), 200))
	}
}

func hexItem(b byte, upper bool) string {
	if upper {
		return fmt.Sprintf("%02X", b)
	}
	return fmt.Sprintf("%02x", b)
}

// dumpText writes bytes as a dump of the given shape.
type dumpShape struct {
	perLine int
	offset  string // format of the offset
	sep     string
	mid     string // after half of a line
	indent  string
	trail   string
	nl      string
	upper   bool
	lastNL  bool
	blank   int // blank line after every n lines
	tail    bool
}

func (s dumpShape) text(b []byte) string {
	var o strings.Builder
	line := 0
	for i := 0; i < len(b) || i == 0 && s.tail; i += s.perLine {
		if i > 0 {
			o.WriteString(s.nl)
		}
		if s.blank > 0 && line > 0 && line%s.blank == 0 {
			o.WriteString([]string{"", " "}[line%2] + s.nl)
		}
		line++
		o.WriteString(s.indent + fmt.Sprintf(s.offset, i))
		for k := i; k < i+s.perLine && k < len(b); k++ {
			o.WriteString(s.sep)
			if k-i == s.perLine/2 && s.perLine > 1 {
				o.WriteString(s.mid)
			}
			o.WriteString(hexItem(b[k], s.upper))
		}
		o.WriteString(s.trail)
	}
	if s.tail {
		o.WriteString(s.nl + s.indent + fmt.Sprintf(s.offset, len(b)))
	}
	if s.lastNL {
		o.WriteString(s.nl)
	}
	return o.String()
}

func chooseShape(c *Ctl) dumpShape {
	s := dumpShape{perLine: []int{16, 1, 2, 8, 32}[c.Choose(5)], offset: []string{"%04x", "%08x", "%x:", "%04X ", "%d"}[c.Choose(5)], sep: []string{" ", "  "}[c.Choose(2)], mid: []string{"", " ", "   "}[c.Choose(3)]}
	s.indent = []string{"", " ", "    "}[c.Choose(3)]
	s.trail = []string{"", " ", "   "}[c.Choose(3)]
	s.nl = []string{"\n", "\r\n"}[c.Choose(2)]
	s.upper = c.Bool()
	s.lastNL = c.Bool()
	s.blank = c.Choose(3)
	s.tail = c.Bool()
	return s
}

func itemClass(s string) string {
	hex := len(s) > 0
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if !(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F') {
			hex = false
		}
	}
	if !hex {
		return "bad"
	}
	if len(s) == 2 {
		return "byte"
	}
	if n, err := strconv.ParseUint(s, 16, 64); err != nil || n > 255 {
		return "bad"
	}
	return "unspecified" // one digit, or leading zeros
}

func judgeItem(c *Ctl, pre, item, post string, before, after []byte) {
	text := pre + item + post
	c.Input(strconv.Quote(text))
	got, ok := convert(text)
	switch itemClass(item) {
	case "bad":
		c.Outcome("bad")
		if ok {
			c.Fail("the item %q is not a byte, but %q is converted to %x", item, text, got)
		}
	case "byte":
		c.Outcome("byte")
		n, _ := strconv.ParseUint(item, 16, 8)
		want := append(append(append([]byte{}, before...), byte(n)), after...)
		if !ok || !bytes.Equal(got, want) {
			c.Fail("%q is converted to %x (%v), want %x", text, got, ok, want)
		}
	}
}

func ws2bin(c *Ctl, text string, kind, out string, want []byte, good bool) {
	bin := os.Getenv("VF_WS2BIN")
	if bin == "" {
		panic("harness: VF_WS2BIN is not set")
	}
	d, rm := scratch()
	defer rm()
	limit := -1
	switch {
	case out == "full" && !fullDevice():
		c.Outcome("no full device here")
		return
	case out == "no room":
		out, limit = "file", 0
	case out == "no room for the last byte":
		out, limit = "file", max(0, len(want)-1)
	}
	r := runLimited(d, bin, nil, []byte(text), kind, out, limit)
	if r.hung {
		c.Fail("ws2bin does not end for %q", clip(text, 300))
	}
	switch {
	case !good:
		c.Outcome("refused")
		if r.code == 0 {
			c.Fail("ws2bin accepts %q and writes %x", clip(text, 300), clip(string(r.stdout), 100))
		}
	case (out == "full" || out == "broken" || limit >= 0) && len(want) > 0:
		c.Outcome("unwritable")
		if r.code == 0 {
			c.Fail("ws2bin exits with 0, but its output cannot be written (%s)", out)
		}
	case out == "full" || out == "broken":
	default:
		c.Outcome("converted")
		if r.code != 0 || !bytes.Equal(r.stdout, want) {
			c.Fail("ws2bin exits with %d (%s) and writes %d bytes %x, want %d bytes %x for %q", r.code, clip(r.stderr, 200), len(r.stdout), clip(string(r.stdout), 100), len(want), clip(string(want), 100), clip(text, 300))
		}
	}
}

func init() {
	register(&Check{
		ID: "C17", Level: "fault_enumeration",
		Rule:        "one path per input, way of delivery, target and flags, each executed with the built command in its own scratch directory; non-trivial by these",
		Assumptions: []string{"naming the same file as input and output, a standard output that is closed, and -h are not explored"},
		Spaces: func(tier string) []*Space {
			vias := append([]string{"argument", "/dev/stdin, pipe in 7 byte pieces"}, stdinKinds...)
			main := &Space{Name: "invocations", Bound: fmt.Sprintf("%d inputs x %d ways of delivery x %d targets x %d flag lists", len(cliInputs), len(vias), len(cliTargets), len(cliFlags)), Run: func(c *Ctl) {
				in := cliInputs[c.Choose(len(cliInputs))]
				via := vias[0]
				if in.kind == "" {
					via = vias[c.Choose(len(vias))]
				}
				cliCase(c, in, via, cliTargets[c.Choose(len(cliTargets))], cliFlags[c.Choose(len(cliFlags))])
			}}
			texts := &Space{Name: "messages", Bound: "every text of the stream and history sets and every single byte x argument and pipe", Run: func(c *Ctl) {
				var all []string
				all = append(all, streamTexts...)
				for _, t := range historyTexts {
					all = append(all, t.text)
				}
				for b := 0; b < 256; b += 1 {
					all = append(all, string([]byte{'M', ' ', byte(b)}))
				}
				t := all[c.Choose(len(all))]
				cliCase(c, cliInput{fmt.Sprintf("%q", t), t, ""}, []string{"argument", "pipe"}[c.Choose(2)], "stdout pipe", nil)
			}}
			seq := &Space{Name: "sequences", Bound: "every sequence of 3 runs over 6 inputs and 2 flag lists into one output file", Run: func(c *Ctl) {
				cliSequence(c, 3)
			}}
			names := &Space{Name: "names", Bound: fmt.Sprintf("every pair of %d file names as input and output, %d package names in 2 forms, about 300 representations next to the known ones, every sequence of 3 flags, with and without --", len(cliNames), len(cliPackages)), Run: cliNamed}
			return []*Space{main, texts, names, seq}
		}})
	register(&Check{
		ID: "C19", Level: "model_checking",
		Rule:        "one path per dump text; the converted bytes are compared with those the dump was made from, and every item that is not a byte has to make the conversion fail",
		Assumptions: []string{"one-digit items, items with extra leading zeros, tabs and other white space than blanks between items are not specified"},
		Spaces: func(tier string) []*Space {
			nb, ni := 3, 3
			if tier == "thorough" {
				nb, ni = 4, 4
			}
			alpha := []byte{0, 0x30, 0xff, 0x0a, 0x9f}
			chars := "019afAFgGxX_+-.:z%\xe9"
			return []*Space{
				{Name: "bytes", Bound: "every sequence of up to 2 bytes, upper and lower case, on one line and on two", Run: func(c *Ctl) {
					b := make([]byte, 1+c.Choose(2))
					for i := range b {
						b[i] = byte(c.Choose(256))
					}
					s := dumpShape{perLine: 1 + c.Choose(2), offset: "%04x", sep: " ", nl: "\n", upper: c.Bool()}
					t := s.text(b)
					c.Input(t)
					judgeDump(c, t, b)
				}},
				{Name: "shapes", Bound: fmt.Sprintf("every sequence of up to %d bytes out of %x in 43200 shapes", nb, alpha), Run: func(c *Ctl) {
					var b []byte
					for i := 0; i < nb; i++ {
						x := c.Choose(len(alpha) + 1)
						if x == 0 {
							break
						}
						b = append(b, alpha[x-1])
					}
					t := chooseShape(c).text(b)
					c.Input(t)
					judgeDump(c, t, b)
				}},
				{Name: "lengths", Bound: "0 to 70 bytes and lengths up to 70000 in every shape", Run: func(c *Ctl) {
					ls := lengthsUpTo(70, 255, 256, 257, 4096, 70000)
					n := ls[c.Choose(len(ls))]
					b := make([]byte, n)
					for i := range b {
						b[i] = byte(i*7 + i>>8)
					}
					var s dumpShape
					if n > 300 {
						s = dumpShape{perLine: []int{16, 8, 32, 1, n}[c.Choose(5)], offset: "%04x", sep: " ", mid: " ", nl: []string{"\n", "\r\n"}[c.Choose(2)], lastNL: c.Bool()}
					} else {
						s = chooseShape(c)
					}
					t := s.text(b)
					c.Input(fmt.Sprintf("%d bytes in %+v", n, s))
					judgeDump(c, t, b)
				}},
				{Name: "lines", Bound: "every way of dividing 9 bytes into lines, with every kind of line in between", Run: func(c *Ctl) {
					b := []byte{1, 0xab, 0, 0xff, 0x10, 0x0d, 0x20, 0x7f, 0x80}
					var o strings.Builder
					o.WriteString("0000")
					for i, x := range b {
						if i > 0 {
							switch c.Choose(5) {
							case 1:
								fmt.Fprintf(&o, "\n%04x", i)
							case 2:
								fmt.Fprintf(&o, "\n\n%04x ", i)
							case 3:
								fmt.Fprintf(&o, " \r\n %x", i)
							case 4:
								if i > 5 {
									fmt.Fprintf(&o, "\n%04x\n%04x", i, i)
								}
							}
						}
						o.WriteString(" " + hexItem(x, i%2 == 0))
					}
					t := o.String()
					c.Input(t)
					judgeDump(c, t, b)
				}},
				{Name: "offsets", Bound: "every sequence of 1 to 4 lines of 1 or 2 bytes whose offsets are each one of 14, x blank lines and line ends", Run: func(c *Ctl) {
					offs := []string{"0000", "0001", "0002", "0004", "0010", "ffff", "00000000", "0", "0000:", "FFFFFFFF", "10000000000000000", "12", "0003", "1"}
					nl := c.Pick("\n", "\r\n", "\n\n", "\n \n")
					t := ""
					var want []byte
					n := 1 + c.Choose(4)
					for i := 0; i < n; i++ {
						b := []byte{byte(0x11*i + 1), byte(0xf0 - i)}[:1+c.Choose(2)]
						t += offs[c.Choose(len(offs))]
						for _, x := range b {
							t += fmt.Sprintf(" %02x", x)
						}
						t += nl
						want = append(want, b...)
					}
					c.Input(t)
					judgeDump(c, t, want)
				}},
				{Name: "odd-lines", Bound: "dumps with an odd item alone on the first, second or last line, or between bytes, beside equal and different lines", Run: func(c *Ctl) {
					items := []string{"*", "**", "...", "..", "+", "-", "|", ":", "#", "//", ";", "--", "...|", "|..|", "=", "~", "?", "??", "xx", "XX", "__", "  *", "EOF", "end", "same", "...0000", "0x", "\\", "''", "``", ">", ">>", "..;", "(2)", "x2", "2x", "%", "%02x", "\"", "\x00", "\u00a0", "\u3000", "\u00b7\u00b7"}
					it := items[c.Choose(len(items))]
					lines := []string{"0000 01 02", "0002 01 02", "0004 03"}
					k := c.Choose(4)
					switch c.Choose(4) {
					case 0: // a line of its own, with an offset
						lines = append(lines[:min(k, 3)], append([]string{"0010 " + it}, lines[min(k, 3):]...)...)
					case 1:
						lines[k%3] += " " + it
					case 2:
						lines[k%3] += " " + it + " 04"
					case 3:
						lines = append(lines[:min(k, 3)], append([]string{"0010 " + it + " " + it + " 05"}, lines[min(k, 3):]...)...)
					}
					t := strings.Join(lines, "\n")
					c.Input(t)
					if got, ok := convert(t); ok {
						bad := false
						for _, w := range strings.Fields(it) {
							bad = bad || itemClass(w) == "bad"
						}
						if bad {
							c.Fail("%q holds an item that is not a byte, but is converted to %x", t, got)
						}
					}
				}},
				{Name: "items", Bound: fmt.Sprintf("every item of 1 to %d characters out of %q in 6 places", ni, chars), Run: func(c *Ctl) {
					n := 1 + c.Choose(ni)
					item := ""
					for i := 0; i < n; i++ {
						item += string(chars[c.Choose(len(chars))])
					}
					ctx := [][2]string{{"0000 ", ""}, {"0000 12 ", " 34"}, {"0000  12\n0001  ", "\n0002  34"}, {" 0000 12 34  ", "\r\n"}, {"0 ", "\n\n"}, {"0000\n0010 12 ", " 34\n"}}
					k := c.Choose(len(ctx))
					var before, after []byte
					switch k {
					case 1, 2, 5:
						before, after = []byte{0x12}, []byte{0x34}
					case 3:
						before = []byte{0x12, 0x34}
					}
					judgeItem(c, ctx[k][0], item, ctx[k][1], before, after)
				}},
				{Name: "long-items", Bound: "items of 2 to 40 characters of one digit, and numbers around powers of two", Run: func(c *Ctl) {
					var items []string
					for n := 2; n <= 40; n++ {
						for _, d := range []string{"0", "1", "f", "F"} {
							items = append(items, strings.Repeat(d, n))
						}
					}
					for _, n := range []uint64{255, 256, 257, 511, 512, 4095, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<32 + 0x41, 1<<63 + 0x41, 1<<64 - 1} {
						items = append(items, strconv.FormatUint(n, 16), "1"+fmt.Sprintf("%016x", n))
					}
					judgeItem(c, "0000 ", items[c.Choose(len(items))], []string{"", " 11"}[c.Choose(1)], nil, nil)
				}},
				{Name: "ws2bin", Bound: "the command on 60 dumps and 40 damaged dumps x 3 ways of input x pipe, file, full device, broken pipe and files without room for all or the last byte", Run: func(c *Ctl) {
					kind := stdinKinds[c.Choose(len(stdinKinds))]
					out := []string{"pipe", "file", "full", "broken", "no room", "no room for the last byte"}[c.Choose(6)]
					if c.Bool() {
						items := []string{"g0", "0x", "+1", "-1", "1 zz", "100", "fff", ".", "0x1", "é", "1_0", "%d", "|", "..", "12345", "ffffffffffffffff41", "0-", "- 1", "z", "12g"}
						it := items[c.Choose(len(items))]
						pre := []string{"0000 11 22 ", "0000 11\n0001 "}[c.Choose(2)]
						c.Input(fmt.Sprintf("%q %s %s", pre+it, kind, out))
						ws2bin(c, pre+it+"\n", kind, out, nil, false)
						return
					}
					ls := []int{0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 255, 256, 4095, 4096, 70000}
					n := ls[c.Choose(len(ls))]
					b := make([]byte, n)
					for i := range b {
						b[i] = byte(i*11 + i>>8)
					}
					s := []dumpShape{{perLine: 16, offset: "%04x", sep: " ", mid: " ", nl: "\n", lastNL: true}, {perLine: 16, offset: "%04x", sep: " ", nl: "\r\n"}, {perLine: 8, offset: "%08x", sep: "  ", indent: " ", nl: "\n", upper: true, tail: true}, {perLine: 7, offset: "%x:", sep: " ", nl: "\n", blank: 1, lastNL: true}}[c.Choose(4)]
					c.Input(fmt.Sprintf("%d bytes %+v %s %s", n, s, kind, out))
					ws2bin(c, s.text(b), kind, out, b, true)
				}},
			}
		}})
}

func cliSequence(c *Ctl, n int) {
	bin := os.Getenv("VF_ASN1GO")
	if bin == "" {
		panic("harness: VF_ASN1GO is not set")
	}
	d, rm := scratch()
	defer rm()
	ins := []int{0, 1, 2, 3, 6, 8}
	for _, i := range ins {
		putFile(filepath.Join(d, fmt.Sprintf("in%d.asn1", i)), []byte(cliInputs[i].text), 0644)
	}
	before := tree(d)
	var names []string
	for k := 0; k < n; k++ {
		i := ins[c.Choose(len(ins))]
		var fl []string
		if c.Bool() {
			fl = []string{"-package", "q", "-default-integer-repr=big.Int"}
		}
		names = append(names, fmt.Sprint(cliInputs[i].name, fl))
		c.Input(strings.Join(names, ", "))
		p, _ := cliParams(fl)
		var want []byte
		m, err := a.ParseString(cliInputs[i].text)
		if err == nil {
			g := generate(m, p)
			want, err = g.out, g.err
		}
		r := runCmd(d, bin, append(fl, fmt.Sprintf("in%d.asn1", i), "out.go"), nil, "", "pipe")
		if (r.code == 0) != (err == nil) {
			c.Fail("run %d exits with %d, the library reports %v: %v", k+1, r.code, err, names)
		}
		if err == nil {
			got, _ := os.ReadFile(filepath.Join(d, "out.go"))
			if !bytes.Equal(got, want) {
				c.Fail("after run %d the output file holds %d bytes, want %d: %v", k+1, len(got), len(want), names)
			}
		}
		c.Steps(1)
	}
	after := tree(d)
	var ks []string
	for k := range before {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if after[k] != before[k] {
			c.Fail("input %s was changed", k)
		}
	}
}
