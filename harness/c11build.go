package main

// C11: the generated source itself, compiled and executed, against the types rebuilt by reflection.

import (
	"bytes"
	"context"
	"encoding/asn1"
	"encoding/hex"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	a "github.com/chemikadze/asn1go"
)

// derRun is what becomes of one encoding: the value it is decoded to and that value encoded again.
func derRun(p interface{}, in []byte) string {
	rest, err := asn1.Unmarshal(in, p)
	if err != nil {
		return "decoding fails"
	}
	v := reflect.ValueOf(p).Elem().Interface()
	s := fmt.Sprintf("%v rest %x ", v, rest)
	out, err := asn1.Marshal(v)
	if err != nil {
		return s + "encoding fails"
	}
	return s + hex.EncodeToString(out)
}

// derRunSource is the same function for the compiled program.
const derRunSource = `
func derRun(p interface{}, in []byte) string {
	rest, err := asn1.Unmarshal(in, p)
	if err != nil {
		return "decoding fails"
	}
	v := reflect.ValueOf(p).Elem().Interface()
	s := fmt.Sprintf("%v rest %x ", v, rest)
	out, err := asn1.Marshal(v)
	if err != nil {
		return s + "encoding fails"
	}
	return s + hex.EncodeToString(out)
}

func zero(p interface{}) string {
	out, err := asn1.Marshal(reflect.ValueOf(p).Elem().Interface())
	if err != nil {
		return "encoding fails"
	}
	return hex.EncodeToString(out)
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
`

type builtCase struct {
	desc string
	want []string // one line per input, the first for the zero value
	der  []string // references for lines 1..; "" where the reference gives none
}

// builtBatch compiles the generated code of all modules of a batch into one program and runs it.
func builtBatch(c *Ctl, descs []string, ps []a.GenParams) {
	dir, rm := scratch()
	defer rm()
	write := func(name, text string) {
		f := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(f), 0777); err == nil {
			err = os.WriteFile(f, []byte(text), 0666)
			if err == nil {
				return
			}
		}
		panic("harness: can not write " + f)
	}
	var cases []builtCase
	var imports, body strings.Builder
	for i, desc := range descs {
		m := parseForGen(desc)
		d := &der{m: m}
		wt, _ := (&cgModel{m: m}).lookup("W")
		ok, decode := d.derOK(wt)
		if !ok {
			continue
		}
		p := ps[i]
		n := len(cases)
		p.Package = fmt.Sprintf("m%d", n)
		g := generate(m, p)
		if g.err != nil {
			c.Fail("generation failed: %v: %s", g.err, desc)
		}
		k, err := typecheck(g.out)
		if err != nil {
			c.Fail("generated code does not compile: %v: %s generated\n%s", err, desc, g.out)
		}
		o, isT := k.pkg.Scope().Lookup("W").(*types.TypeName)
		if !isT {
			c.Fail("type W is missing: %s", desc)
		}
		rt, err := reflectType(o.Type())
		if err != nil {
			c.Fail("generated type can not be built: %v: %s generated\n%s", err, desc, g.out)
		}
		write(p.Package+"/g.go", string(g.out))
		fmt.Fprintf(&imports, "import \"batch/m%d\"\n", n)
		bc := builtCase{desc: desc}
		z, err := asn1.Marshal(reflect.New(rt).Elem().Interface())
		if err != nil {
			bc.want = append(bc.want, "encoding fails")
		} else {
			bc.want = append(bc.want, hex.EncodeToString(z))
		}
		bc.der = append(bc.der, "")
		fmt.Fprintf(&body, "\tfmt.Println(zero(new(m%d.W)))\n", n)
		x := d.def(wt).(a.SequenceType)
		for _, v := range d.allStructValues(comps(x.Components, x.ExtensionAdditions), p.IntegerRepr == a.IntegerReprBigInt, 11) {
			if d.toGo(reflect.New(rt).Elem(), wt, v) != nil {
				continue
			}
			in := d.enc(wt, v).bytes()
			bc.want = append(bc.want, derRun(reflect.New(rt).Interface(), in))
			if decode {
				bc.der = append(bc.der, hex.EncodeToString(in))
			} else {
				bc.der = append(bc.der, "")
			}
			fmt.Fprintf(&body, "\tfmt.Println(derRun(new(m%d.W), unhex(\"%x\")))\n", n, in)
		}
		cases = append(cases, bc)
	}
	if len(cases) == 0 {
		c.Outcome("inexpressible")
		return
	}
	write("go.mod", "module batch\n\ngo 1.16\n")
	write("main.go", "package main\n\nimport (\n\"encoding/asn1\"\n\"encoding/hex\"\n\"fmt\"\n\"reflect\"\n)\n"+imports.String()+derRunSource+"\nfunc main() {\n"+body.String()+"}\n")
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	run := func(name string, args ...string) (string, string, error) {
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Dir = dir
		var out, errOut bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errOut
		err := cmd.Run()
		return out.String(), errOut.String(), err
	}
	if _, errOut, err := run("go", "build", "-o", "batch", "."); err != nil {
		if strings.Contains(errOut, "# batch/m") {
			c.Fail("the compiler refuses generated code: %s", errOut)
		}
		c.Outcome("not built")
		return
	}
	out, errOut, err := run("./batch")
	if err != nil {
		c.Fail("the compiled program fails: %v %s", err, errOut)
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	at := 0
	for n, bc := range cases {
		for j, want := range bc.want {
			if at >= len(lines) {
				c.Fail("the compiled program stops at m%d: %s", n, bc.desc)
			}
			got := lines[at]
			at++
			if got != want {
				c.Fail("compiled: %s; rebuilt by reflection: %s; %s", got, want, bc.desc)
			}
			if e := bc.der[j]; e != "" && got != "decoding fails" && !strings.HasSuffix(got, " rest  "+e) {
				c.Fail("compiled: %s for encoding %s; %s", got, e, bc.desc)
			}
			c.Steps(1)
		}
	}
	c.Outcome("ran")
}

func derBuiltSpace(thorough bool) *Space {
	refs := derRefs()
	all := append(append([]string{}, derInline...), refs...)
	tags := []string{"", "[1]", "[2] IMPLICIT", "[3] EXPLICIT", "[APPLICATION 4]", "[300]"}
	if thorough {
		tags = derTags
	}
	size := 6
	batches := (len(all) + size - 1) / size
	return &Space{
		Name:  "compiled",
		Bound: fmt.Sprintf("W ::= SEQUENCE { c TYPE } and as SET inside W: %d types x %d tags x none/OPTIONAL/DEFAULT x 3 tag defaults x INTEGER representation; the generated files of %d types at a time are compiled with the Go compiler into a program that decodes and encodes every value; its results must be those of the types rebuilt by reflection", len(all), len(tags), size),
		Run: func(c *Ctl) {
			b := c.Choose(batches)
			tagDefault := c.Pick("", "IMPLICIT TAGS ", "EXPLICIT TAGS ")
			var descs []string
			var ps []a.GenParams
			for i := b * size; i < (b+1)*size && i < len(all); i++ {
				t := all[i]
				for _, tag := range tags {
					for _, opt := range []string{"", "OPTIONAL", "DEFAULT 5"} {
						if strings.HasPrefix(opt, "DEFAULT") && t != "INTEGER" && t != "RIn" {
							continue
						}
						for form := 0; form < 2; form++ {
							if form == 1 && !thorough && tag != "" && opt == "" {
								continue
							}
							g := &derGen{c: c}
							g.use(t)
							w := "W ::= SEQUENCE { c " + tag + " " + t + " " + opt + " } "
							if form == 1 {
								w = "W ::= SEQUENCE { s SET { c " + tag + " " + t + " " + opt + " } } "
							}
							var p a.GenParams
							if len(descs)%2 == 1 {
								p.IntegerRepr = a.IntegerReprBigInt
							}
							descs = append(descs, "M DEFINITIONS "+tagDefault+"::= BEGIN "+g.needed(true)+w+"END")
							ps = append(ps, p)
						}
					}
				}
			}
			c.Input(fmt.Sprintf("%s%s", tagDefault, strings.Join(all[b*size:min(len(all), (b+1)*size)], " / ")))
			builtBatch(c, descs, ps)
		},
	}
}
