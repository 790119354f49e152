package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"time"

	a "github.com/chemikadze/asn1go"
)

// C08, many calls at a time: calls are held inside their reader or writer while others run, and are
// released in a chosen order. One of them runs at a time, so that every path is one schedule.

// gate holds a call when it comes to its n-th read or write.
type gate struct {
	at      int
	seen    int
	arrived chan struct{} // closed when the call is held
	open    chan struct{} // closed to release it
}

func newGate(at int) *gate {
	return &gate{at: at, arrived: make(chan struct{}), open: make(chan struct{})}
}

func (g *gate) pass() {
	if g == nil {
		return
	}
	if g.seen == g.at {
		close(g.arrived)
		<-g.open
	}
	g.seen++
}

type gatedReader struct {
	g     *gate
	text  string
	piece int
}

func (r *gatedReader) Read(p []byte) (int, error) {
	r.g.pass()
	if r.text == "" {
		return 0, io.EOF
	}
	n := r.piece
	if n > len(r.text) {
		n = len(r.text)
	}
	n = copy(p, r.text[:n])
	r.text = r.text[n:]
	return n, nil
}

type gatedWriter struct {
	g *gate
	bytes.Buffer
}

func (w *gatedWriter) Write(p []byte) (int, error) {
	held := append([]byte{}, p...)
	w.g.pass()
	if !bytes.Equal(held, p) {
		return 0, fmt.Errorf("the data changed while it was written: %q became %q", clip(string(held), 200), clip(string(p), 200))
	}
	return w.Buffer.Write(p)
}

func crowdText(i int) string {
	s := fmt.Sprintf("Mod-%d { iso crowd(%d) } DEFINITIONS %s::= BEGIN\n", i, i, []string{"", "IMPLICIT TAGS ", "EXPLICIT TAGS "}[i%3])
	s += fmt.Sprintf("T-%d ::= SEQUENCE { field-%d [%d] INTEGER { n%d(%d) } (%d..MAX) OPTIONAL , t UTCTime", i, i, i, i, i, i)
	for k := 0; k < i%4; k++ {
		s += fmt.Sprintf(" , k%d SET OF BIT STRING { b%d (%d) }", k, i, k)
	}
	s += fmt.Sprintf(" }\nv-%d INTEGER ::= %d /* %s */\n", i, i, strings.Repeat("x", i%50))
	if i%5 == 4 {
		s += strings.Repeat("\n", i%7) + fmt.Sprintf("U-%d ::= %d", i, i) // an error
	}
	if i%7 == 6 {
		s += fmt.Sprintf("U-%d ::= Undefined-%d ", i, i)
	}
	return s + " END\n"
}

type crowdCall struct {
	run  func(g *gate) string
	want string
}

func parseResult(m *a.ModuleDefinition, err error) string {
	if err != nil {
		return fmt.Sprintf("error %v, module %v", err, m != nil)
	}
	return fmt.Sprintf("%#v", *m)
}

func crowdCalls(kind, n int) []crowdCall {
	shared := a.NewCodeGenerator(a.GenParams{Package: "shared"})
	var out []crowdCall
	for i := 0; i < n; i++ {
		text := crowdText(i)
		parse := func(g *gate) string {
			return parseResult(a.ParseStream(&gatedReader{g: g, text: text, piece: 20}))
		}
		m := parseForGen(strings.Replace(text, fmt.Sprintf("U-%d ::= %d", i, i), "", 1))
		gen := shared
		if kind == 1 || i%2 == 1 {
			p := a.GenParams{}
			if i%4 == 1 {
				p.IntegerRepr = a.IntegerReprBigInt
			}
			gen = a.NewCodeGenerator(p)
		}
		before := fmt.Sprintf("%#v", *m)
		generate := func(g *gate) string {
			w := &gatedWriter{g: g}
			err := gen.Generate(*m, w)
			res := fmt.Sprintf("%v\n%s", err, w.String())
			if after := fmt.Sprintf("%#v", *m); after != before {
				res += "\nthe module changed: " + after
			}
			return res
		}
		c := crowdCall{run: parse}
		if kind == 1 || kind == 2 || kind == 3 && i%2 == 0 {
			c.run = generate
		}
		c.want = c.run(nil)
		out = append(out, c)
	}
	return out
}

var crowdKinds = []string{"parses", "generations", "generations, half of them with one generator", "parses and generations"}

var crowdSizes = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 24, 31, 32, 33, 40, 64, 65, 100, 128, 129, 256, 257}

func crowdSpace(sizes []int) *Space {
	gates := []int{0, 1, 4, 9}
	holds := []string{"every call", "the first call", "the last but one", "every second call", "every call but the last two"}
	orders := []string{"first started first", "last started first", "inside out"}
	return &Space{
		Name:   "crowds",
		Serial: true,
		Bound:  fmt.Sprintf("%d numbers of calls up to %d x %d kinds x %d sets of calls held in their reader or writer, at 1 of %d reads or writes (2 above 33 calls), x %d orders of release; one call runs at a time", len(sizes), sizes[len(sizes)-1], len(crowdKinds), len(holds), len(gates), len(orders)),
		Run: func(c *Ctl) {
			n := sizes[c.Choose(len(sizes))]
			kind := c.Choose(len(crowdKinds))
			at := 0
			if n <= 33 {
				at = gates[c.Choose(len(gates))]
			} else if c.Bool() {
				at = 4
			}
			hold := c.Choose(len(holds))
			order := 0
			if hold != 1 && hold != 2 {
				order = c.Choose(len(orders))
			}
			desc := fmt.Sprintf("%d %s; %s held at its read or write %d; released %s", n, crowdKinds[kind], holds[hold], at, orders[order])
			c.Input(desc)
			calls := crowdCalls(kind, n)
			res := make([]chan string, n)
			got := make([]string, n)
			var held []int
			gs := make([]*gate, n)
			patience := 2 * time.Second
			for i := range calls {
				h := hold == 0 || hold == 1 && i == 0 || hold == 2 && i == n-2 || hold == 3 && i%2 == 0 || hold == 4 && i < n-2
				res[i] = make(chan string, 1)
				gs[i] = newGate(at)
				if !h {
					gs[i].at = -1
				}
				go func(i int) {
					defer func() {
						if r := recover(); r != nil {
							res[i] <- fmt.Sprintf("panic: %v", r)
						}
					}()
					res[i] <- calls[i].run(gs[i])
				}(i)
				select {
				case <-gs[i].arrived:
					held = append(held, i)
				case got[i] = <-res[i]:
				case <-time.After(patience): // waits for one that is held
					patience = 20 * time.Millisecond
				}
				c.Steps(1)
			}
			switch order {
			case 1:
				for l, r := 0, len(held)-1; l < r; l, r = l+1, r-1 {
					held[l], held[r] = held[r], held[l]
				}
			case 2:
				var o []int
				for k := range held {
					j := len(held) / 2
					if k%2 == 1 {
						j += (k + 1) / 2
					} else {
						j -= k / 2
					}
					if j >= 0 && j < len(held) {
						o = append(o, held[j])
					}
				}
				for k := range held {
					seen := false
					for _, x := range o {
						seen = seen || x == held[k]
					}
					if !seen {
						o = append(o, held[k])
					}
				}
				held = o
			}
			released := map[int]bool{}
			for _, i := range held {
				close(gs[i].open)
				released[i] = true
				select {
				case got[i] = <-res[i]:
				case <-time.After(patience):
				}
				c.Steps(1)
			}
			for i := range gs {
				if !released[i] {
					close(gs[i].open)
				}
			}
			end := time.After(60 * time.Second)
			for i := range calls {
				if got[i] == "" {
					select {
					case got[i] = <-res[i]:
					case <-end:
						c.Fail("call %d does not end: %s", i, desc)
					}
				}
				if got[i] != calls[i].want {
					c.Fail("call %d gives\n%s\nalone it gives\n%s\n%s", i, clip(got[i], 1500), clip(calls[i].want, 1500), desc)
				}
			}
			c.Outcome(fmt.Sprint(len(held)))
		},
	}
}
