package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
	"sync"

	a "github.com/chemikadze/asn1go"
)

type lockedImporter struct {
	mu   sync.Mutex
	imp  types.Importer
	pkgs map[string]*types.Package
	errs map[string]error
}

func (l *lockedImporter) Import(path string) (*types.Package, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if p, ok := l.pkgs[path]; ok {
		return p, nil
	}
	if e, ok := l.errs[path]; ok {
		return nil, e
	}
	p, err := l.imp.Import(path)
	if err != nil {
		l.errs[path] = err
		return nil, err
	}
	l.pkgs[path] = p
	return p, nil
}

var stdImporter = &lockedImporter{imp: importer.ForCompiler(token.NewFileSet(), "source", nil), pkgs: map[string]*types.Package{}, errs: map[string]error{}}

type checked struct {
	file *ast.File
	pkg  *types.Package
	info *types.Info
}

// typecheck yields what could be checked and the first error; nothing if the file is not syntactically right.
func typecheck(src []byte) (*checked, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "generated.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: stdImporter, Error: func(e error) {
		if err == nil {
			err = e
		}
	}}
	pkg, e := conf.Check("gen", fset, []*ast.File{f}, info)
	if err == nil {
		err = e
	}
	return &checked{f, pkg, info}, err
}

// canonType writes a Go type without aliases; types of the generated package are @Name.
func canonType(t types.Type, depth int) string {
	if depth > 5000 {
		return "deep"
	}
	switch x := types.Unalias(t).(type) {
	case *types.Basic:
		return types.Typ[x.Kind()].Name()
	case *types.Named:
		o := x.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		if o.Pkg().Path() == "gen" {
			return "@" + o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	case *types.Pointer:
		return "*" + canonType(x.Elem(), depth+1)
	case *types.Slice:
		return "[]" + canonType(x.Elem(), depth+1)
	case *types.Struct:
		var b strings.Builder
		b.WriteString("{")
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			if f.Embedded() {
				b.WriteString("embedded ")
			}
			b.WriteString(f.Name() + " " + canonType(f.Type(), depth+1) + ";")
		}
		b.WriteString("}")
		return b.String()
	case *types.Interface:
		if x.NumMethods() == 0 && x.NumEmbeddeds() == 0 {
			return "any"
		}
	}
	return t.String()
}

// evalVar yields the value of a generated variable.
type goValue struct {
	kind string // bool int real other
	b    bool
	i    *big.Int
	f    float64
	text string
}

func (k *checked) varInit() map[string]ast.Expr {
	out := map[string]ast.Expr{}
	for _, d := range k.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR && gd.Tok != token.CONST {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if i < len(vs.Values) {
					out[n.Name] = vs.Values[i]
				}
			}
		}
	}
	return out
}

func (k *checked) eval(inits map[string]ast.Expr, e ast.Expr, depth int) goValue {
	if depth > 50 {
		return goValue{kind: "other", text: "cycle"}
	}
	tv := k.info.Types[e]
	if tv.Value != nil {
		switch b, _ := types.Unalias(tv.Type).Underlying().(*types.Basic); {
		case b == nil:
		case b.Info()&types.IsBoolean != 0:
			return goValue{kind: "bool", b: constant.BoolVal(tv.Value)}
		case b.Info()&types.IsInteger != 0:
			if z, ok := constant.Val(constant.ToInt(tv.Value)).(*big.Int); ok {
				return goValue{kind: "int", i: z}
			}
			if n, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
				return goValue{kind: "int", i: big.NewInt(n)}
			}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(tv.Value)
			return goValue{kind: "real", f: f}
		}
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return k.eval(inits, x.X, depth+1)
	case *ast.Ident:
		if in, ok := inits[x.Name]; ok {
			return k.eval(inits, in, depth+1)
		}
	case *ast.UnaryExpr:
		v := k.eval(inits, x.X, depth+1)
		if x.Op == token.SUB && v.kind == "real" {
			v.f = -v.f
			return v
		}
	case *ast.CallExpr:
		fn := types.ExprString(x.Fun)
		if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
			if o := k.info.Uses[sel.Sel]; o != nil && o.Pkg() != nil {
				fn = o.Pkg().Path() + "." + o.Name()
			}
		}
		if fn == "math/big.NewInt" && len(x.Args) == 1 {
			return k.eval(inits, x.Args[0], depth+1)
		}
		if fn == "math.Inf" && len(x.Args) == 1 {
			if v := k.eval(inits, x.Args[0], depth+1); v.kind == "int" {
				return goValue{kind: "real", f: math.Inf(v.i.Sign())}
			}
		}
		if k.info.Types[x.Fun].IsType() && len(x.Args) == 1 {
			return k.eval(inits, x.Args[0], depth+1)
		}
	}
	return goValue{kind: "other", text: types.ExprString(e)}
}

// what a code generation space judges
type cgJudge struct {
	compile bool // C09
	types   bool // C10 C12 C22
	values  bool // C13
	fails   bool // C14 C12: generation fails exactly if it has to
	success bool // generation of a supported module must succeed
	writer  bool // C16: writer faults only
	total   bool // C23: generation ends with an error or a file
	pure    bool // C15: generation changes neither the module nor later generations
}

// parseForGen gives the AST of a module: that of the parser if it is the right one, else the reference's.
func parseForGen(text string) *a.ModuleDefinition {
	r := refParse(text)
	if r.v == vReject {
		panic(fmt.Sprintf("harness: %q is rejected by the reference at %d %q", text, r.errTok, tokText(r)))
	}
	m, err := a.ParseString(text)
	if err == nil && m != nil && diffAST(*r.mod, *m) == "" {
		return m
	}
	return r.mod
}

type genOut struct {
	out []byte
	err error
}

func generate(m *a.ModuleDefinition, p a.GenParams) genOut {
	var b bytes.Buffer
	err := a.NewCodeGenerator(p).Generate(*m, &b)
	return genOut{b.Bytes(), err}
}

// judgeGen generates a module and compares with the model. It returns the checked file, if any.
func judgeGen(c *Ctl, j cgJudge, m *a.ModuleDefinition, p a.GenParams, desc string) *checked {
	if j.writer {
		judgeWriter(c, m, p, desc, false)
		return nil
	}
	if j.total {
		judgeTotal(c, m, desc)
		return nil
	}
	if j.pure {
		judgePure(c, m, p, desc)
		judgePure(c, headerVariants(m)[1], p, desc+" (with header)")
		return nil
	}
	g := generate(m, p)
	// neither EXTENSIBILITY IMPLIED nor imports nor an identifier make a difference
	for i, v := range headerVariants(m) {
		if gv := generate(v, p); (gv.err == nil) != (g.err == nil) || !bytes.Equal(gv.out, g.out) {
			judgeGenerated(c, j, v, p, desc+[]string{" (with EXTENSIBILITY IMPLIED)", " (with EXTENSIBILITY IMPLIED, identifier and imports)"}[i], gv)
		}
	}
	return judgeGenerated(c, j, m, p, desc, g)
}

// headerVariants are modules of the same body.
func headerVariants(m *a.ModuleDefinition) [2]*a.ModuleDefinition {
	v1 := *m
	v1.ExtensibilityImplied = true
	v2 := v1
	v2.ModuleIdentifier.DefinitiveIdentifier = a.DefinitiveIdentifier{{Name: "iso", Id: 1}, {Name: "", Id: 3}}
	own := a.GlobalModuleReference{Reference: m.ModuleIdentifier.Reference, AssignedIdentifier: a.ObjectIdentifierValue{{Name: "iso", ID: 1}}}
	v2.ModuleBody.Imports = append([]a.SymbolsFromModule{
		{SymbolList: []a.Symbol{a.TypeReference("Not-used-1"), a.ValueReference("not-used-2")}, Module: a.GlobalModuleReference{Reference: "Other"}},
		{SymbolList: []a.Symbol{a.TypeReference("Not-used-3")}, Module: own},
	}, m.ModuleBody.Imports...)
	return [2]*a.ModuleDefinition{&v1, &v2}
}

func judgeGenerated(c *Ctl, j cgJudge, m *a.ModuleDefinition, p a.GenParams, desc string, g genOut) *checked {
	bigInt := p.IntegerRepr == a.IntegerReprBigInt
	exp := expectGen(m, bigInt, p.IntegerRepr != "" && p.IntegerRepr != a.IntegerReprInt64 && !bigInt)
	if g.err != nil {
		c.Outcome("err")
		if j.fails && len(g.out) > 0 {
			c.Fail("generation failed (%v) but wrote %q for %s", g.err, clip(string(g.out), 300), desc)
		}
		if j.success && !exp.fail && !exp.maybe {
			c.Fail("generation of a supported module failed: %v: %s", g.err, desc)
		}
		return nil
	}
	c.Outcome("ok")
	if exp.fail {
		if j.fails {
			c.Fail("generation succeeded but has to fail, because %s: %s generated\n%s", exp.why, desc, g.out)
		}
		return nil
	}
	if exp.recursive {
		return nil
	}
	k, err := typecheck(g.out)
	if err != nil {
		if j.compile {
			c.Fail("generated code does not compile: %v: %s generated\n%s", err, desc, g.out)
		}
		if k == nil && (j.types || j.values) {
			c.Fail("the generated file declares nothing, it is not Go: %v: %s generated\n%s", err, desc, g.out)
		}
		if !distinctNames(m) {
			return nil
		}
		j.values = false
	}
	want := goName(m.ModuleIdentifier.Reference)
	if p.Package != "" {
		want = p.Package
	}
	if j.compile && k.pkg.Name() != want {
		c.Fail("package clause is %s, want %s: %s", k.pkg.Name(), want, desc)
	}
	if j.types {
		compareTypes(c, k, exp, desc, g.out)
	}
	if j.values {
		compareValues(c, k, exp, desc, g.out)
	}
	if err != nil {
		return nil
	}
	return k
}

func compareTypes(c *Ctl, k *checked, exp *cgExpect, desc string, out []byte) {
	sc := k.pkg.Scope()
	var names []string
	for n := range exp.types {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		want := exp.types[n]
		o, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			c.Fail("type %s is not declared: %s generated\n%s", n, desc, out)
		}
		if got := canonType(o.Type(), 0); got != want {
			c.Fail("type %s is %s, want %s: %s generated\n%s", n, got, want, desc, out)
		}
		if body, ok := exp.bodies[n]; ok {
			if got := canonType(o.Type().Underlying(), 0); got != body {
				c.Fail("type %s has %s, want %s: %s generated\n%s", n, got, body, desc, out)
			}
		}
	}
	for _, n := range sc.Names() {
		if _, isType := sc.Lookup(n).(*types.TypeName); isType && exp.types[n] == "" {
			c.Fail("unexpected type %s: %s generated\n%s", n, desc, out)
		}
	}
	// nothing is declared twice (the type checker would refuse) or missing
}

func compareValues(c *Ctl, k *checked, exp *cgExpect, desc string, out []byte) {
	sc := k.pkg.Scope()
	inits := k.varInit()
	seen := map[string]bool{}
	for _, v := range exp.values {
		seen[v.name] = true
		o, ok := sc.Lookup(v.name).(*types.Var)
		if !ok {
			c.Fail("variable %s is not declared: %s generated\n%s", v.name, desc, out)
		}
		if got := canonType(o.Type(), 0); got != v.typ {
			c.Fail("variable %s has type %s, want %s: %s generated\n%s", v.name, got, v.typ, desc, out)
		}
		in, ok := inits[v.name]
		if !ok {
			c.Fail("variable %s has no value: %s generated\n%s", v.name, desc, out)
		}
		g := k.eval(inits, in, 0)
		good := g.kind == v.kind
		switch v.kind {
		case "bool":
			good = good && g.b == v.b
		case "int":
			good = good && g.i.Cmp(big.NewInt(v.i)) == 0
		case "real":
			if g.kind == "int" { // a whole constant
				f, _ := new(big.Float).SetInt(g.i).Float64()
				g = goValue{kind: "real", f: f}
				good = true
			}
			good = good && sameReal(g.f, v.f)
		}
		if !good {
			c.Fail("variable %s is %+v, want %+v: %s generated\n%s", v.name, g, v, desc, out)
		}
	}
	for _, n := range sc.Names() {
		if _, isVar := sc.Lookup(n).(*types.Var); isVar && !seen[n] {
			c.Fail("unexpected variable %s: %s generated\n%s", n, desc, out)
		}
	}
}

// judgePure generates a module with several generators in turn and observes the module and the results.
func judgePure(c *Ctl, m *a.ModuleDefinition, p a.GenParams, desc string) {
	before := dumpAST(m)
	other := p
	other.IntegerRepr = a.IntegerReprBigInt
	if p.IntegerRepr == a.IntegerReprBigInt {
		other.IntegerRepr = a.IntegerReprInt64
	}
	show := func(g genOut) string {
		if g.err != nil {
			return "error " + g.err.Error() + " after " + string(g.out)
		}
		return string(g.out)
	}
	one, two := a.NewCodeGenerator(p), a.NewCodeGenerator(other)
	with := func(gen a.CodeGenerator) genOut {
		var b bytes.Buffer
		err := gen.Generate(*m, &b)
		return genOut{b.Bytes(), err}
	}
	first := show(with(one))
	if after := dumpAST(m); after != before {
		c.Fail("generation changes the module: %s before %s after %s", desc, before, after)
	}
	second := show(with(two))
	for i, gen := range []a.CodeGenerator{one, two, a.NewCodeGenerator(p), a.NewCodeGenerator(other)} {
		want := first
		if i%2 == 1 {
			want = second
		}
		if got := show(with(gen)); got != want {
			c.Fail("repeated generation (%d) gives\n%s\ninstead of\n%s\nfor %s", i, got, want, desc)
		}
	}
	if after := dumpAST(m); after != before {
		c.Fail("generations change the module: %s before %s after %s", desc, before, after)
	}
	c.Steps(6)
	if strings.HasPrefix(first, "error ") {
		c.Outcome("err")
	} else {
		c.Outcome("ok")
	}
}
