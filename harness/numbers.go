package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	a "github.com/chemikadze/asn1go"
)

// numLeaf is a number somewhere in an AST.
type numLeaf struct {
	path string
	typ  string
	i    int64
	f    float64
	real bool
}

func numLeaves(v reflect.Value, path string, out *[]numLeaf) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			numLeaves(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" && !v.Type().Field(i).Anonymous {
				continue
			}
			numLeaves(v.Field(i), path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			numLeaves(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Int, reflect.Int64:
		*out = append(*out, numLeaf{path: path, typ: v.Type().Name(), i: v.Int()})
	case reflect.Float64:
		*out = append(*out, numLeaf{path: path, typ: v.Type().Name(), f: v.Float(), real: true})
	}
}

type numPlace struct {
	text   string // with %s
	signed bool
	real   bool
}

var numPlaces = []numPlace{
	{hdr + "a INTEGER ::= %s END", true, true},
	{hdr + "A ::= SEQUENCE { a T DEFAULT %s , b T } END", true, true},
	{hdr + "A ::= SET { b T , ... , a T DEFAULT %s } END", true, true},
	{hdr + "A ::= T ( %s ) END", true, true},
	{hdr + "A ::= T ( %s .. MAX ) END", true, true},
	{hdr + "A ::= T ( MIN .. %s ) END", true, true},
	{hdr + "A ::= T ( %s < .. < MAX | MIN .. 3 ) END", true, true},
	{hdr + "A ::= T ( 1 , ... , %s ) END", true, true},
	{hdr + "A ::= T ( ALL EXCEPT %s ) END", true, true},
	{hdr + "A ::= SEQUENCE SIZE ( %s ) OF T END", true, true},
	{hdr + "A ::= INTEGER { x ( %s ) , y ( 2 ) } END", true, false},
	{hdr + "A ::= ENUMERATED { x , z ( %s ) , y ( 2 ) } END", true, false},
	{hdr + "A ::= BIT STRING { x ( %s ) , y ( 2 ) } END", false, false},
	{hdr + "A ::= [ %s ] T END", false, false},
	{hdr + "A ::= [ PRIVATE %s ] IMPLICIT T END", false, false},
	{hdr + "a T ::= { %s 2 } END", false, false},
	{hdr + "a T ::= { 1 b ( %s ) } END", false, false},
	{"M { 1 %s 3 } DEFINITIONS ::= BEGIN END", false, false},
	{"M { a ( %s ) } DEFINITIONS ::= BEGIN END", false, false},
	{hdr + "IMPORTS A FROM B { 2 %s } ; a T ::= 1 END", false, false},
}

// judgeNumber: lit stands at place p. Representable literals must be delivered
// exactly, others refused; forms the notation does not define may be refused,
// but if accepted they must have the value written.
func judgeNumber(c *Ctl, p numPlace, lit string, may bool) {
	text := strings.Replace(p.text, "%s", lit, 1)
	c.Input(text)
	plain := "71"
	isReal := strings.ContainsAny(lit, ".eE")
	if isReal {
		plain = "71.5"
	}
	base, err := a.ParseString(strings.Replace(p.text, "%s", plain, 1))
	if err != nil {
		c.Fail("refused: %v: %q", err, strings.Replace(p.text, "%s", plain, 1))
	}
	var bl []numLeaf
	numLeaves(reflect.ValueOf(*base), "", &bl)
	at := -1
	for i, l := range bl {
		if l.i == 71 && !l.real || l.real && l.f == 71.5 {
			if at >= 0 {
				c.Fail("the literal %s occurs twice in the AST of %q", plain, p.text)
			}
			at = i
		}
	}
	if at < 0 {
		c.Fail("the literal %s does not occur in the AST of %q", plain, p.text)
	}
	mod, err := a.ParseString(text)
	if (mod == nil) == (err == nil) {
		c.Fail("parsing returned module=%v error=%v for %q", mod != nil, err, text)
	}
	clean := strings.ReplaceAll(lit, " ", "")
	var wantI int64
	var wantF float64
	representable := true
	if isReal {
		wantF, representable = exactReal(clean)
	} else {
		z, ok := new(big.Int).SetString(clean, 10)
		if !ok {
			panic("harness: bad literal " + lit)
		}
		representable = z.IsInt64()
		if representable {
			wantI = z.Int64()
		}
		if clean == "-9223372036854775808" {
			may = true // its digits alone are beyond the limit
		}
	}
	if err != nil {
		c.Outcome("refused")
		if representable && !may {
			c.Fail("%s refused: %v: %q", lit, err, text)
		}
		return
	}
	c.Outcome("ok")
	if !representable {
		c.Fail("%s is not representable but was accepted: %q", lit, text)
	}
	var ls []numLeaf
	numLeaves(reflect.ValueOf(*mod), "", &ls)
	if len(ls) != len(bl) {
		c.Fail("AST of %q has %d numbers, expected %d", text, len(ls), len(bl))
	}
	for i, l := range ls {
		if i != at {
			if l != bl[i] {
				c.Fail("number at %s changed from %v to %v in %q", l.path, bl[i], l, text)
			}
			continue
		}
		if l.path != bl[i].path || l.typ != bl[i].typ {
			c.Fail("%s is delivered at %s as %s, expected at %s as %s: %q", lit, l.path, l.typ, bl[i].path, bl[i].typ, text)
		}
		if isReal && l.f != wantF {
			c.Fail("%s is delivered as %v, the nearest value is %v: %q", lit, l.f, wantF, text)
		}
		if !isReal && l.i != wantI {
			c.Fail("%s is delivered as %d: %q", lit, l.i, text)
		}
	}
}

// exactReal is the double nearest to a literal, by exact rational arithmetic.
func exactReal(lit string) (float64, bool) {
	s := strings.ToLower(lit)
	m, e := s, ""
	if i := strings.IndexByte(s, 'e'); i >= 0 {
		m, e = s[:i], s[i+1:]
	}
	r, ok := new(big.Rat).SetString(m)
	if !ok {
		panic("harness: bad literal " + lit)
	}
	if e != "" {
		x, ok := new(big.Int).SetString(e, 10)
		if !ok {
			panic("harness: bad literal " + lit)
		}
		if r.Sign() == 0 {
			return 0, true
		}
		lim := big.NewInt(5000)
		if x.Cmp(lim) > 0 {
			return 0, false
		}
		if x.Cmp(new(big.Int).Neg(lim)) < 0 {
			return 0, true
		}
		n := x.Int64()
		neg := n < 0
		if neg {
			n = -n
		}
		p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil))
		if neg {
			p.Inv(p)
		}
		r.Mul(r, p)
	}
	f, _ := r.Float64()
	return f, !math.IsInf(f, 0)
}

func boundaryInts() []string {
	var out []string
	seen := map[string]bool{}
	add := func(z *big.Int) {
		if z.Sign() >= 0 && !seen[z.String()] {
			seen[z.String()] = true
			out = append(out, z.String())
		}
	}
	for k := uint(0); k <= 130; k++ {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		for d := int64(-2); d <= 2; d++ {
			add(new(big.Int).Add(p, big.NewInt(d)))
		}
	}
	for k := int64(0); k <= 40; k++ {
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil)
		for d := int64(-1); d <= 1; d++ {
			add(new(big.Int).Add(p, big.NewInt(d)))
		}
	}
	return out
}

func digitString(c *Ctl, digits string, max int) string {
	s := ""
	for i := 0; i < max; i++ {
		k := c.Choose(len(digits) + 1)
		if k == 0 {
			break
		}
		s += digits[k-1 : k]
	}
	return s
}

func overLong(s string) bool { // a run of digits beyond the limit of an integer
	run := ""
	for _, r := range s + " " {
		if r >= '0' && r <= '9' {
			run += string(r)
			continue
		}
		if run != "" {
			z, _ := new(big.Int).SetString(run, 10)
			if !z.IsInt64() {
				return true
			}
		}
		run = ""
	}
	return false
}

func init() {
	ints := boundaryInts()
	exps := []string{"", "0", "1", "2", "5", "10", "15", "16", "22", "23", "37", "100", "290", "300", "305", "306", "307", "308", "309", "310", "322", "323", "324", "325", "326", "330", "400", "1000", "5001", "99999", "2147483647", "2147483648", "4294967296", "9223372036854775807"}
	register(&Check{
		ID: "C05", Level: "model_checking",
		Rule:        "one path per literal and position; exact value by math/big",
		Assumptions: []string{"a sign before zero is not observed", "digit runs beyond 63 bits inside a real literal and leading zeros may be refused"},
		Spaces: func(tier string) []*Space {
			dig, fr, allPos := 4, 3, 3
			if tier == "thorough" {
				dig, fr, allPos = 6, 5, len(numPlaces)
			}
			return []*Space{balancedReals(tier == "thorough"),
				{Name: "integers", Bound: fmt.Sprintf("every digit string of up to %d digits over 0,1,7,9 and %d numbers around powers of 2 and 10 x sign x %d positions", dig, len(ints), len(numPlaces)), Run: func(c *Ctl) {
					p := numPlaces[c.Choose(len(numPlaces))]
					sign := ""
					if p.signed {
						sign = c.Pick("", "-", "- ")
					}
					lit := ""
					if c.Bool() {
						lit = ints[c.Choose(len(ints))]
					} else {
						lit = "0179"[:0] + digitString(c, "1790", dig)
						if lit == "" {
							return
						}
					}
					judgeNumber(c, p, sign+lit, len(lit) > 1 && lit[0] == '0')
				}},
				{Name: "reals", Bound: fmt.Sprintf("every real literal: 9 integer parts x every fraction of up to %d digits over 0,1,5,9 x %d exponents with sign x sign, in %d positions", fr, len(exps), allPos), Run: func(c *Ctl) {
					var places []numPlace
					for _, p := range numPlaces {
						if p.real && len(places) < allPos {
							places = append(places, p)
						}
					}
					p := places[c.Choose(len(places))]
					realLit(c, p, c.Pick("0", "1", "9", "12", "100", "9007199254740993", "9223372036854775807", "9223372036854775808", "007"), digitString(c, "0159", fr), exps)
				}},
				{Name: "reals-all", Bound: "a list of hard fractions x exponents x sign in every position", Run: func(c *Ctl) {
					var places []numPlace
					for _, p := range numPlaces {
						if p.real {
							places = append(places, p)
						}
					}
					p := places[c.Choose(len(places))]
					realLit(c, p, c.Pick("0", "1", "17976931348623157", "4", "2", "8"), c.Pick("5", "000000000000000001", "9999999999999999", "99999999999999999", "999999999999999999", "9999999999999999999", "00000000000000000000000000000000001", "1000000000000000055", "940656458412465", "9406564584124654", "470328229206232", "4703282292062327", "2250738585072011", "2250738585072014", "79769313486231570", "797693134862315807", "7976931348623158080", ""), exps)
				}},
			}
		},
	})
}

func realLit(c *Ctl, p numPlace, ip, frac string, exps []string) {
	e := exps[c.Choose(len(exps))]
	lit := ip
	if frac != "" {
		lit += "." + frac
	}
	if e != "" {
		lit += c.Pick("e", "e-", "E", "E-") + e
	}
	if frac == "" && e == "" {
		return
	}
	may := len(ip) > 1 && ip[0] == '0' || overLong(lit) || strings.Contains(lit, "E") && false
	judgeNumber(c, p, c.Pick("", "-")+lit, may)
}

// literalReals are the reals whose generation is checked.
func literalReals() []float64 {
	seen := map[float64]bool{}
	var out []float64
	add := func(f float64) {
		if !seen[f] && !math.IsNaN(f) {
			seen[f] = true
			out = append(out, f)
		}
	}
	for e := -1074; e <= 1023; e++ {
		f := math.Ldexp(1, e)
		for _, x := range []float64{f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1)), f * 1.5} {
			add(x)
			add(-x)
		}
	}
	for e := -323; e <= 308; e++ {
		f, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", e), 64)
		for _, x := range []float64{f, f * 1.1, f * 7, math.Nextafter(f, 0)} {
			add(x)
			add(-x)
		}
	}
	for i := -300; i <= 300; i++ {
		add(float64(i))
		add(float64(i) / 8)
		add(float64(i) / 10)
	}
	add(math.Inf(1))
	add(math.Inf(-1))
	add(math.MaxFloat64)
	add(-math.MaxFloat64)
	return out
}
