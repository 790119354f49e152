package main

import (
	"fmt"
	"reflect"

	a "github.com/chemikadze/asn1go"
)

// lookups looks up names in a list by all three ways.
func lookups(c *Ctl, l a.AssignmentList, looked []string, desc string) {
	before := append(a.AssignmentList{}, l...)
	for _, nm := range looked {
		c.Steps(3)
		first := -1
		for i, x := range l {
			if x.Reference().Name() == nm {
				first = i
				break
			}
		}
		g := l.Get(nm)
		gt := l.GetType(nm)
		gv := l.GetValue(nm)
		if first < 0 {
			c.Outcome("0")
			if g != nil || gt != nil || gv != nil {
				c.Fail("lookup of %q in [%s] found %v %v %v", nm, desc, g, gt, gv)
			}
			continue
		}
		if !reflect.DeepEqual(g, l[first]) {
			c.Fail("Get(%q) in [%s] = %v, want #%d", nm, desc, g, first)
		}
		switch x := l[first].(type) {
		case a.TypeAssignment:
			c.Outcome("t")
			if gv != nil || gt == nil || !reflect.DeepEqual(*gt, x) {
				c.Fail("lookup of %q in [%s]: GetType %v GetValue %v, want type #%d", nm, desc, gt, gv, first)
			}
			gt.TypeReference, gt.Type = "changed", nil
		case a.ValueAssignment:
			c.Outcome("v")
			if gt != nil || gv == nil || !reflect.DeepEqual(*gv, x) {
				c.Fail("lookup of %q in [%s]: GetType %v GetValue %v, want value #%d", nm, desc, gt, gv, first)
			}
			gv.ValueReference, gv.Type, gv.Value = "changed", nil, nil
		}
		if !reflect.DeepEqual(before, append(a.AssignmentList{}, l...)) {
			c.Fail("changing the result of looking up %q changed the list [%s]", nm, desc)
		}
	}
}

// longListSpace: one name defined twice at any two places of a list of any length.
func longListSpace(lengths []int) *Space {
	return &Space{Name: "long-lists", Bound: fmt.Sprintf("lists of %d lengths up to %d, one name defined at every two places (of 20 in quick runs if longer than 40) as type and value, every other name once or several", len(lengths), lengths[len(lengths)-1]), Run: func(c *Ctl) {
		n := lengths[c.Choose(len(lengths))]
		if n < 2 {
			return
		}
		pos := lengthsUpTo(n)
		if n > 40 && len(lengths) < 100 {
			pos = nil
			for _, k := range []int{1, 2, 3, 8, 9, 16, 17, 18, 32, 33, 64, 65, 66, 128, 129, 130, n / 2, n - 2, n - 1, n} {
				if k <= n {
					pos = append(pos, k)
				}
			}
		}
		i := pos[c.Choose(len(pos))] - 1
		j := pos[c.Choose(len(pos))] - 1
		kinds := c.Choose(4)
		other := c.Choose(2)
		l := make(a.AssignmentList, n)
		put := func(k int, nm string, typ bool) {
			if typ {
				l[k] = a.TypeAssignment{TypeReference: a.TypeReference(nm), Type: a.TypeReference(fmt.Sprintf("T%d", k))}
			} else {
				l[k] = a.ValueAssignment{ValueReference: a.ValueReference(nm), Type: a.IntegerType{}, Value: a.Number(k)}
			}
		}
		for k := range l {
			nm := fmt.Sprintf("N%d", k)
			if other == 1 {
				nm = fmt.Sprintf("N%d", k%7)
			}
			put(k, nm, k%3 > 0)
		}
		put(i, "X", kinds&1 == 0)
		put(j, "X", kinds&2 == 0)
		desc := fmt.Sprintf("%d assignments, X at %d and %d, kinds %d %d", n, i, j, kinds, other)
		c.Input(desc)
		lookups(c, l, []string{"X", "x", "N1", "N3", fmt.Sprintf("N%d", n-1), fmt.Sprintf("N%d", n)}, desc)
	}}
}

// alike lists names that are easily taken for a name.
func alike(nm string) []string {
	var out []string
	for i := range nm {
		b := []byte(nm)
		was := b[i]
		b[i] = 'z'
		out = append(out, string(b), nm[:i]+nm[i+1:], nm[:i]+nm[i:i+1]+nm[i:], nm[:i])
		b[i] = was ^ 0x20
		out = append(out, string(b))
		b[i] = was ^ 1
		out = append(out, string(b))
		if i > 0 {
			b[i] = nm[i-1]
			b[i-1] = was
			out = append(out, string(b)) // same characters in another order
		}
	}
	return append(out, nm+" ", nm+"\x00", " "+nm, nm+"a", "a"+nm, nm+"-a", nm+nm)
}

// alikeSpace: names that differ in a single place, at every length.
func alikeSpace(lengths []int) *Space {
	return &Space{Name: "alike", Bound: fmt.Sprintf("a name of each of %d lengths up to %d out of 3 alphabets, and every name that differs from it by a replaced, removed, doubled or swapped character, by case, by its end or start: in a list in either order as type or value, and looked up without being there", len(lengths), lengths[len(lengths)-1]), Run: func(c *Ctl) {
		n := lengths[c.Choose(len(lengths))]
		pattern := c.Pick("a", "Abcdefghijklm", "Type-Name-1")
		var b []byte
		for len(b) < n {
			b = append(b, pattern[len(b)%len(pattern)])
		}
		nm := string(b)
		others := alike(nm)
		x := others[c.Choose(len(others))]
		kinds := c.Choose(4)
		var l a.AssignmentList
		put := func(nm string, typ bool, n int) {
			if typ {
				l = append(l, a.TypeAssignment{TypeReference: a.TypeReference(nm), Type: a.TypeReference(fmt.Sprintf("T%d", n))})
			} else {
				l = append(l, a.ValueAssignment{ValueReference: a.ValueReference(nm), Type: a.IntegerType{}, Value: a.Number(n)})
			}
		}
		switch c.Choose(3) {
		case 0:
			put(nm, kinds&1 == 0, 1)
			put(x, kinds&2 == 0, 2)
		case 1:
			put(x, kinds&2 == 0, 1)
			put(nm, kinds&1 == 0, 2)
		case 2:
			put(x, kinds&2 == 0, 1)
			put("Other", kinds&1 == 0, 2)
		}
		desc := fmt.Sprintf("%#v", l)
		c.Input(desc)
		lookups(c, l, []string{nm, x, "Other"}, desc)
	}}
}

func init() {
	register(&Check{
		ID: "C21", Level: "model_checking",
		Rule: "one path per assignment list; every name of the alphabet (and absent ones) is looked up in it by Get, GetType and GetValue",
		Spaces: func(tier string) []*Space {
			n := 5
			if tier == "thorough" {
				n = 6
			}
			names := []string{"A", "a", "AB", "Ab", "A-B", "aB"}
			looked := append([]string{"", "B", "ab", "A-", "a ", "b"}, names...)
			long := lengthsUpTo(40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300)
			if tier == "thorough" {
				long = lengthsUpTo(140, 200, 255, 256, 257, 300, 511, 512, 513, 600)
			}
			return []*Space{rewrittenSpace(n - 2), longListSpace(long), alikeSpace(long), {Name: "lists", Bound: fmt.Sprintf("every list of up to %d assignments over %d names x {type, value}, every lookup of %d names", n, len(names), len(looked)), Run: func(c *Ctl) {
				var l a.AssignmentList
				k := c.Choose(n + 1)
				desc := ""
				for i := 0; i < k; i++ {
					x := c.Choose(2 * len(names))
					nm := names[x/2]
					if x%2 == 0 {
						l = append(l, a.TypeAssignment{TypeReference: a.TypeReference(nm), Type: a.TypeReference(fmt.Sprintf("T%d", i))})
						desc += "type " + nm + "; "
					} else {
						l = append(l, a.ValueAssignment{ValueReference: a.ValueReference(nm), Type: a.IntegerType{}, Value: a.Number(i)})
						desc += "value " + nm + "; "
					}
				}
				c.Input(desc)
				lookups(c, l, looked, desc)
			}}}
		},
	})

	register(&Check{
		ID: "C20", Level: "model_checking",
		Rule: "one path per constraint; the AST must equal the one the reference parser builds with the precedence of X.680 (46-47), and constraints that are not in the notation must be refused",
		Spaces: func(tier string) []*Space {
			j := judge{total: true, accept: true, reject: true}
			n1, n2, dev := 3, 5, 3
			if tier == "thorough" {
				n1, n2, dev = 4, 7, 5
			}
			ops := []string{"|", "^", "EXCEPT", "UNION", "INTERSECTION"}
			elems := []string{"1", "a", "T", "0 .. 9", "MIN < .. < MAX", "-1 < .. 2.5", "SIZE ( 1 | 2 )", "( 1 | 2 ^ 3 )", "( ( 1 ) EXCEPT 2 )", "( ALL EXCEPT 1 )", "INTEGER ( 1 )", "TRUE .. < MAX", "{ 1 2 }", "WITH COMPONENT ( 1 )"}
			few := []string{"1", "T", "( 2 | 3 )"}
			carriers := []struct{ pre, post string }{
				{"A ::= INTEGER ( ", " )"},
				{"A ::= T ( ", " )"},
				{"A ::= [1] INTEGER ( ", " )"},
				{"A ::= SEQUENCE OF INTEGER ( ", " )"},
				{"A ::= SET OF x INTEGER ( ", " )"},
				{"A ::= SEQUENCE ( ", " ) OF INTEGER"},
				{"A ::= SET SIZE ( ", " ) OF INTEGER ( 3 )"},
				{"A ::= SEQUENCE { a INTEGER ( ", " ) OPTIONAL , b T }"},
				{"A ::= SEQUENCE { a INTEGER } ( ", " )"},
				{"A ::= SET { a INTEGER ( ", " ) DEFAULT 1 , ... }"},
				{"A ::= CHOICE { a INTEGER ( ", " ) , b T }"},
				{"A ::= CHOICE { a NULL } ( ", " )"},
				{"a INTEGER ( ", " ) ::= 4"},
				{"A ::= OCTET STRING ( ", " ) ( 7 )"},
				{"A ::= INTEGER ( 7 ) ( ", " )"},
				{"A ::= ENUMERATED { a } ( ", " )"},
				{"A ::= INTEGER { a ( 1 ) } ( ", " )"},
				{"A ::= BIT STRING { a ( 1 ) } ( ", " )"},
				{"A ::= IA5String ( ", " )"},
				{"A ::= ANY DEFINED BY a ( ", " )"},
				{"A ::= SEQUENCE { COMPONENTS OF T ( ", " ) }"},
				{"A ::= GeneralizedTime ( ", " )"},
				{"A ::= INTEGER ( SIZE ( ", " ) )"},
				{"A ::= INTEGER ( 1 , ... , ", " )"},
				{"A ::= INTEGER ( ( ", " ) ^ 4 )"},
				{"A ::= INTEGER ( ALL EXCEPT ( ", " ) )"},
				{"A ::= T ( WITH COMPONENTS { a ( ", " ) , b } )"},
				{"A ::= T ( 1 EXCEPT ( ", " ) )"},
			}
			tails := []string{"", " , ...", " , ... , 5 | 6 ^ 7", " , ... , ALL EXCEPT 5", " ! 1", " , ... ! T : 2", " , ... , 5 ! a"}
			expr := func(c *Ctl, n int, elems []string) string {
				t := ""
				if c.Choose(2) == 1 {
					t = "ALL EXCEPT "
				}
				t += elems[c.Choose(len(elems))]
				for i := 1; i < n; i++ {
					k := c.Choose(len(ops) + 1)
					if k == 0 {
						break
					}
					t += " " + ops[k-1] + " " + elems[c.Choose(len(elems))]
				}
				return t
			}
			run := func(c *Ctl, text string) {
				text = hdr + text + " END"
				c.Input(text)
				judgeText(c, j, text)
			}
			out := []*Space{
				{Name: "expressions", Bound: fmt.Sprintf("every expression of up to %d operands over %d elements and 5 operators", n1, len(elems)), Run: func(c *Ctl) {
					run(c, "A ::= INTEGER ( "+expr(c, n1, elems)+" )")
				}},
				{Name: "long", Bound: fmt.Sprintf("every expression of up to %d operands over %d elements and 5 operators", n2, len(few)), Run: func(c *Ctl) {
					run(c, "A ::= INTEGER ( "+expr(c, n2, few)+" )")
				}},
				{Name: "nested", Bound: "operand op ( expression of up to 3 operands ) op operand, all operators, elements and nesting positions", Run: func(c *Ctl) {
					in := "( " + expr(c, 3, []string{"1", "T"}) + " )"
					t := in
					if c.Bool() {
						t = "8 " + ops[c.Choose(len(ops))] + " " + t
					}
					if c.Bool() {
						t += " " + ops[c.Choose(len(ops))] + " 9"
					}
					if c.Bool() {
						t = "( " + t + " ) " + ops[c.Choose(len(ops))] + " 4"
					}
					run(c, "A ::= INTEGER ( "+t+" )")
				}},
				{Name: "carriers", Bound: fmt.Sprintf("every expression of up to 2 operands x %d carriers x %d tails x up to one further constraint", len(carriers), len(tails)), Run: func(c *Ctl) {
					k := carriers[c.Choose(len(carriers))]
					run(c, k.pre+expr(c, 2, elems)+tails[c.Choose(len(tails))]+k.post)
				}},
				{Name: "ranges", Bound: "every pair of endpoints x open/closed x nesting in a union", Run: func(c *Ctl) {
					lo := c.Pick("1", "-2", "MIN", "a", "2.5", "-0.5e-2", "TRUE", "MINUS-INFINITY", "{ 1 2 }", "MAX", "T")
					hi := c.Pick("1", "-2", "MAX", "a", "2.5", "-0.5e-2", "FALSE", "PLUS-INFINITY", "{ 3 }", "MIN", "T")
					t := lo + c.Pick(" ", " < ", " < < ") + c.Pick("..", "...", ".") + c.Pick(" ", " < ") + hi
					if c.Bool() {
						t = "4 | " + t
					}
					if c.Bool() {
						t += " ^ 5"
					}
					run(c, "A ::= INTEGER ( "+t+" )")
				}},
			}
			return append(out, deriveSpace(derivations[4], dev+1, 3, j), editSpace(derivations[4], 2, 2, midTokens, j, []string{" "}))
		},
	})
}
