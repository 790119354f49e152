package main

import (
	"encoding/json"
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	gotoken "go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument rewrites the library's current sources into an overlay in which
// every statement is preceded by a call of a scheduling point. Nothing else
// changes: text is only inserted, on the same line.

const pointFile = `package asn1go

// VerifPoint is called before every statement of the library (kind 1: first statement of a function).
var VerifPoint func(kind int)

func verifP() {
	if f := VerifPoint; f != nil {
		f(0)
	}
}

func verifF() {
	if f := VerifPoint; f != nil {
		f(1)
	}
}
`

func instrumentSource(name string, src []byte) ([]byte, int, error) {
	fset := gotoken.NewFileSet()
	f, err := goparser.ParseFile(fset, name, src, goparser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	ins := map[int]string{}
	tf := fset.File(f.Pos())
	list := func(stmts []goast.Stmt, fn bool) {
		for i, s := range stmts {
			switch s.(type) {
			case *goast.CaseClause, *goast.CommClause:
				continue // not a statement list
			}
			p := "verifP(); "
			if fn && i == 0 {
				p = "verifF(); "
			}
			ins[tf.Offset(s.Pos())] = p
		}
	}
	goast.Inspect(f, func(n goast.Node) bool {
		switch n := n.(type) {
		case *goast.FuncDecl:
			if n.Name.Name == "init" || n.Body == nil {
				return false
			}
			list(n.Body.List, true)
			for _, s := range n.Body.List {
				goast.Inspect(s, instrumentInner(list))
			}
			return false
		case *goast.GenDecl:
			// function literals in package variables
			goast.Inspect(n, instrumentInner(list))
			return false
		}
		return true
	})
	offs := make([]int, 0, len(ins))
	for o := range ins {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	var out []byte
	last := 0
	for _, o := range offs {
		out = append(out, src[last:o]...)
		out = append(out, ins[o]...)
		last = o
	}
	out = append(out, src[last:]...)
	return out, len(ins), nil
}

func instrumentInner(list func([]goast.Stmt, bool)) func(goast.Node) bool {
	return func(n goast.Node) bool {
		switch n := n.(type) {
		case *goast.FuncLit:
			list(n.Body.List, true)
			for _, s := range n.Body.List {
				goast.Inspect(s, instrumentInner(list))
			}
			return false
		case *goast.BlockStmt:
			list(n.List, false)
		case *goast.CaseClause:
			list(n.Body, false)
		case *goast.CommClause:
			list(n.Body, false)
		}
		return true
	}
}

func init() {
	subs["instrument"] = func(args []string) int {
		dir := args[0]
		repo := repoDir()
		repl := map[string]string{}
		if ov := os.Getenv("VF_OVERLAY"); ov != "" {
			b, err := os.ReadFile(ov)
			var o struct{ Replace map[string]string }
			if err == nil {
				err = json.Unmarshal(b, &o)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 1
			}
			repl = o.Replace
		}
		files, _ := filepath.Glob(filepath.Join(repo, "*.go"))
		out := map[string]string{}
		total := 0
		for _, p := range files {
			if strings.HasSuffix(p, "_test.go") {
				continue
			}
			from := p
			if r, ok := repl[p]; ok {
				from = r
			}
			src, err := os.ReadFile(from)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 1
			}
			b, n, err := instrumentSource(p, src)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 1
			}
			total += n
			to := filepath.Join(dir, filepath.Base(p))
			if err := os.WriteFile(to, b, 0600); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 1
			}
			out[p] = to
		}
		to := filepath.Join(dir, "zz_verif_point.go")
		os.WriteFile(to, []byte(pointFile), 0600)
		out[filepath.Join(repo, "zz_verif_point.go")] = to
		b, _ := json.Marshal(map[string]interface{}{"Replace": out})
		os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0600)
		fmt.Fprintf(os.Stderr, "instrumented %d statements in %d files\n", total, len(out)-1)
		return 0
	}
}
