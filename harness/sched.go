package main

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	a "github.com/chemikadze/asn1go"
)

// C08: cooperative scheduler for the instrumented library. One thread holds
// the token; it gives it up at the scheduling points the plan names, and when
// it ends. A plan is a sequence of segments (thread, points to run).

var setPoint func(f func(kind int))

func getg() uintptr

type segment struct {
	thread int
	points int // run until this many further points of that thread, <0: until it ends
}

type schedThread struct {
	g      atomic.Uintptr
	id     string // goroutine number
	resume chan struct{}
	done   bool
	points int64
	budget int64 // points left in the current segment, <0: no limit
}

type sched struct {
	mu       sync.Mutex
	threads  []*schedThread
	plan     []segment
	pos      int
	cur      int32
	finished chan struct{}
	progress int64
	entry    bool // count only function entries
	switches int
}

var activeSched *sched

func schedPoint(kind int) {
	s := activeSched
	if s == nil {
		return
	}
	if s.entry && kind == 0 {
		return
	}
	g := getg()
	for i, t := range s.threads {
		if t.g.Load() == g {
			s.point(i, t)
			return
		}
	}
}

func (s *sched) point(i int, t *schedThread) {
	t.points++
	atomic.AddInt64(&s.progress, 1)
	if int(atomic.LoadInt32(&s.cur)) != i {
		// This thread was taken for blocked and lost the token: wait for it.
		<-t.resume
		return
	}
	select {
	case <-t.resume: // was given the token while it waited for something else
	default:
	}
	if t.budget < 0 {
		return
	}
	t.budget--
	if t.budget >= 0 {
		return
	}
	s.mu.Lock()
	next := s.advance(i)
	s.mu.Unlock()
	if next != i {
		s.threads[next].resume <- struct{}{}
		<-t.resume
	}
}

// advance moves to the next segment whose thread can run; callers hold mu.
func (s *sched) advance(from int) int {
	for s.pos+1 < len(s.plan) {
		s.pos++
		seg := s.plan[s.pos]
		if t := s.threads[seg.thread]; !t.done {
			return s.give(seg.thread, seg.points)
		}
	}
	// plan exhausted: lowest unfinished thread, the running one first
	if from >= 0 && !s.threads[from].done {
		return s.give(from, -1)
	}
	for i, t := range s.threads {
		if !t.done {
			return s.give(i, -1)
		}
	}
	return -1
}

func (s *sched) give(i, points int) int {
	s.threads[i].budget = int64(points)
	if int(s.cur) != i {
		s.switches++
	}
	atomic.StoreInt32(&s.cur, int32(i))
	return i
}

// runSched executes the bodies under the plan and returns their results.
func runSched(bodies []func() string, plan []segment, entry bool) (res []string, points []int64, problem string) {
	s := &sched{plan: plan, pos: -1, cur: -1, finished: make(chan struct{}), entry: entry}
	res = make([]string, len(bodies))
	ready := make(chan struct{}, len(bodies))
	for range bodies {
		s.threads = append(s.threads, &schedThread{resume: make(chan struct{}, 1)})
	}
	for i := range bodies {
		go func(i int) {
			t := s.threads[i]
			t.g.Store(getg())
			t.id = goroutineID()
			ready <- struct{}{}
			<-t.resume
			func() {
				defer func() {
					if r := recover(); r != nil {
						res[i] = fmt.Sprintf("panic: %v at %s", r, panicOrigin(string(debug.Stack())))
					}
				}()
				res[i] = bodies[i]()
			}()
			t.g.Store(0) // a goroutine that the library starts may get the same address
			s.mu.Lock()
			t.done = true
			wasCur := int(atomic.LoadInt32(&s.cur)) == i
			next := i
			if wasCur {
				next = s.advance(i)
			} else {
				all := true
				for _, o := range s.threads {
					all = all && o.done
				}
				if all {
					next = -1
				}
			}
			s.mu.Unlock()
			if next == -1 {
				close(s.finished)
			} else if next != i {
				s.threads[next].resume <- struct{}{}
			}
		}(i)
	}
	for range bodies {
		<-ready
	}
	activeSched = s
	defer func() { activeSched = nil }()
	s.mu.Lock()
	first := s.advance(-1)
	s.mu.Unlock()
	s.threads[first].resume <- struct{}{}
	const minPoll = 400 * time.Microsecond
	var idle time.Duration
	poll := minPoll
	last := int64(-1)
	for {
		select {
		case <-s.finished:
			for _, t := range s.threads {
				points = append(points, t.points)
			}
			return res, points, ""
		case <-time.After(poll):
		}
		// The token holder makes no progress: it waits for something a paused
		// thread owns (a lock). Let another thread run.
		p := atomic.LoadInt64(&s.progress)
		if p != last {
			last, idle, poll = p, 0, minPoll
			continue
		}
		idle += poll
		if idle > 30*time.Second {
			return res, nil, "no thread makes progress (deadlock or endless loop)"
		}
		if cur := int(atomic.LoadInt32(&s.cur)); idle < 20*time.Millisecond && !goroutineBlocked(s.threads[cur].id) {
			continue
		} else if idle >= 20*time.Millisecond {
			poll = 20 * time.Millisecond
		}
		s.mu.Lock()
		cur := int(s.cur)
		next := -1
		for k := 1; k < len(s.threads); k++ {
			j := (cur + k) % len(s.threads)
			if !s.threads[j].done {
				next = j
				break
			}
		}
		if next >= 0 && !s.threads[cur].done {
			s.give(next, -1)
			s.mu.Unlock()
			select {
			case s.threads[next].resume <- struct{}{}:
			default:
			}
			continue
		}
		s.mu.Unlock()
	}
}

// goroutineID is the number of the calling goroutine.
func goroutineID() string {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	if len(f) < 2 {
		return "?"
	}
	return f[1]
}

// goroutineBlocked tells if a goroutine waits for a lock or a channel.
func goroutineBlocked(id string) bool {
	b := make([]byte, 1<<16)
	text := string(b[:runtime.Stack(b, true)])
	i := strings.Index(text, "goroutine "+id+" [")
	if i < 0 {
		return false
	}
	text = text[i:]
	if i = strings.IndexByte(text, ']'); i < 0 {
		return false
	}
	for _, s := range []string{"sync.", "semacquire", "chan ", "select"} {
		if strings.Contains(text[:i], s) {
			return true
		}
	}
	return false
}

// bodies

const schedTextA = "M DEFINITIONS IMPLICIT TAGS ::= BEGIN\nA ::= SEQUENCE { a [1] B OPTIONAL, b SET OF REAL }\nB ::= INTEGER { x(1) }\nC ::= BIT STRING\nv REAL ::= -1.5\nEND"
const schedTextB = "N DEFINITIONS ::= BEGIN\n\nA ::= CHOICE { a GeneralizedTime }\n-- c --\nB ::= SET { b A, c INTEGER (1|2) DEFAULT 3 }\nv B ::= TRUE\nEND"
const schedTextBad = "M DEFINITIONS ::= BEGIN\n\nA ::= SEQUENCE { a INTEGER DEFAULT 7,\n b }\nEND"
const schedTextLex = "M DEFINITIONS ::= BEGIN\n\n\nA ::= 1.50 /* x /* y */\n"
const schedTextSmall = "S DEFINITIONS ::= BEGIN A ::= SEQUENCE { a BIT STRING, b [1] A2 } A2 ::= REAL v A2 ::= 1.5 END"
const schedTextUns = "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a NULL } B ::= REAL v B ::= PLUS-INFINITY END"

type schedShared struct {
	mods map[string]*a.ModuleDefinition
	gen  a.CodeGenerator
	big  a.CodeGenerator
}

// newSchedShared parses the modules the given bodies share.
func newSchedShared(bodies ...int) *schedShared {
	s := &schedShared{mods: map[string]*a.ModuleDefinition{}, gen: a.NewCodeGenerator(a.GenParams{}), big: a.NewCodeGenerator(a.GenParams{Package: "p", IntegerRepr: a.IntegerReprBigInt})}
	for _, x := range bodies {
		t := schedBodies[x].shared
		if t == "" || s.mods[t] != nil {
			continue
		}
		m, err := a.ParseString(t)
		if err != nil {
			continue
		}
		s.mods[t] = m
	}
	return s
}

func parseBody(text string) func(*schedShared) string {
	return func(*schedShared) string {
		m, err := a.ParseString(text)
		return renderParse(m, err)
	}
}

func genBody(text string, big bool) func(*schedShared) string {
	return func(s *schedShared) string {
		m := s.mods[text]
		if m == nil {
			return "module refused"
		}
		g := s.gen
		if big {
			g = s.big
		}
		var b strings.Builder
		err := g.Generate(*m, &b)
		return fmt.Sprintf("%v\n%s", err, b.String())
	}
}

type schedBody struct {
	name   string
	shared string // text of the shared module it uses
	run    func(*schedShared) string
}

var schedBodies []schedBody

func init() {
	schedBodies = []schedBody{
		{"generate A", schedTextA, genBody(schedTextA, false)},
		{"generate B", schedTextB, genBody(schedTextB, false)},
		{"generate A bigint", schedTextA, genBody(schedTextA, true)},
		{"generate unsupported", schedTextUns, genBody(schedTextUns, false)},
		{"parse A", "", parseBody(schedTextA)},
		{"parse B", "", parseBody(schedTextB)},
		{"parse bad", "", parseBody(schedTextBad)},
		{"parse lexical", "", parseBody(schedTextLex)},
		{"parse failing reader", "", func(*schedShared) string {
			m, err := a.ParseStream(&failingAt{data: schedTextA, at: 70})
			return renderParse(m, err)
		}},
		{"generate small", schedTextSmall, genBody(schedTextSmall, false)},
		{"parse tiny", "", parseBody("M DEFINITIONS::=BEGIN a B::=1.05END")},
		{"parse tiny values", "", parseBody("N DEFINITIONS::=BEGIN\nA::=SET{b[1]C DEFAULT-7}END")},
		{"parse tiny bad", "", parseBody("M\n DEFINITIONS::=--c\n{")},
	}
}

type schedRefs struct {
	results []string
	stmts   []int64
	entries []int64
	dump    map[string]string
}

var schedOnce sync.Once
var schedRef schedRefs

func dumpShared(s *schedShared) map[string]string {
	d := map[string]string{}
	for k, m := range s.mods {
		d[k] = dumpAST(*m)
	}
	return d
}

// calibrate runs every body alone in this process and counts its points.
func calibrate() {
	setPoint(schedPoint)
	var every []int
	for i := range schedBodies {
		every = append(every, i)
	}
	sh := newSchedShared(every...)
	schedRef.dump = dumpShared(sh)
	for _, b := range schedBodies {
		b := b
		body := func() string { return b.run(sh) }
		r, p, _ := runSched([]func() string{body}, []segment{{0, -1}}, false)
		_, q, _ := runSched([]func() string{body}, []segment{{0, -1}}, true)
		schedRef.results = append(schedRef.results, r[0])
		schedRef.stmts = append(schedRef.stmts, p[0])
		schedRef.entries = append(schedRef.entries, q[0])
		if os.Getenv("VF_SHARD") == "0/8" {
			fmt.Fprintf(os.Stderr, "%s: %d statements, %d calls\n", b.name, p[0], q[0])
		}
	}
}

func planName(bodies []int, plan []segment, entry bool) string {
	var b strings.Builder
	for i, x := range bodies {
		fmt.Fprintf(&b, "T%d=%s ", i, schedBodies[x].name)
	}
	unit := "statements"
	if entry {
		unit = "calls"
	}
	for _, s := range plan {
		if s.points < 0 {
			fmt.Fprintf(&b, "| T%d to its end ", s.thread)
		} else {
			fmt.Fprintf(&b, "| T%d %d %s ", s.thread, s.points, unit)
		}
	}
	return b.String()
}

func runPlan(c *Ctl, bodies []int, plan []segment, entry bool) {
	c.Input(planName(bodies, plan, entry))
	sh := newSchedShared(bodies...)
	var fs []func() string
	for _, x := range bodies {
		run := schedBodies[x].run
		fs = append(fs, func() string { return run(sh) })
	}
	res, pts, problem := runSched(fs, plan, entry)
	if problem != "" {
		fmt.Fprintln(os.Stderr, problem)
		c.Fail("%s", problem)
	}
	for i, x := range bodies {
		if res[i] != schedRef.results[x] {
			c.Fail("%s gives another result than alone:\n--- alone\n%s\n--- here\n%s", schedBodies[x].name, clip(schedRef.results[x], 1200), clip(res[i], 1200))
		}
		c.Steps(int(pts[i]))
	}
	for k, m := range sh.mods {
		if d := dumpAST(*m); d != schedRef.dump[k] {
			c.Fail("a shared module was modified:\n--- before\n%s\n--- after\n%s", clip(schedRef.dump[k], 1200), clip(d, 1200))
		}
	}
	c.Outcome(fmt.Sprint(pts))
}

// schedSpace: all schedules of the bodies with exactly the given number of preemptions (fewer when a thread ends early).
func schedSpace(name string, tuples [][]int, preempt int, entry bool) *Space {
	const chunks = 8
	unit := "statement"
	if entry {
		unit = "function call"
	}
	return &Space{
		Name:  name,
		Bound: fmt.Sprintf("%d tuples of concurrent calls, all schedules with %d preemptions at any %s of the library, all orders", len(tuples), preempt, unit),
		Run: func(c *Ctl) {
			schedOnce.Do(calibrate)
			n := func(x int) int {
				if entry {
					return int(schedRef.entries[x])
				}
				return int(schedRef.stmts[x])
			}
			nt := len(tuples[0])
			x := c.Choose(len(tuples) * nt * chunks)
			bodies := tuples[x/(nt*chunks)]
			start := x / chunks % nt
			chunk := x % chunks
			var plan []segment
			cur := start
			for k := 0; k < preempt; k++ {
				lim := n(bodies[cur])
				var p int
				if k == 0 {
					lo, hi := 1+lim*chunk/chunks, 1+lim*(chunk+1)/chunks
					if lo >= hi {
						lo, hi = 1, 2
					}
					p = lo + c.Choose(hi-lo)
				} else {
					p = 1 + c.Choose(lim)
				}
				plan = append(plan, segment{cur, p})
				if nt == 2 {
					cur = 1 - cur
				} else {
					o := c.Choose(nt - 1)
					if o >= cur {
						o++
					}
					cur = o
				}
			}
			plan = append(plan, segment{cur, -1})
			if nt > 2 && c.Bool() {
				// which of the other threads continues first once cur has ended
				for i := nt - 1; i >= 0; i-- {
					plan = append(plan, segment{i, -1})
				}
			}
			runPlan(c, bodies, plan, entry)
		},
	}
}

func tuplesOf(bodies []int, n int) [][]int {
	var out [][]int
	var rec func(t []int, from int)
	rec = func(t []int, from int) {
		if len(t) == n {
			out = append(out, append([]int{}, t...))
			return
		}
		for i := from; i < len(bodies); i++ {
			rec(append(t, bodies[i]), i)
		}
	}
	rec(nil, 0)
	return out
}

// firstUse: schedules in which the concurrent calls are the first of their process.
func firstUseSpace(tuples [][]int) *Space {
	const chunks = 8
	return &Space{
		Name:  fmt.Sprintf("first-use-%d", len(tuples)),
		Bound: fmt.Sprintf("%d pairs of concurrent calls that are the first in a fresh process each, all schedules with 1 preemption at any function call", len(tuples)),
		Run: func(c *Ctl) {
			schedOnce.Do(calibrate)
			x := c.Choose(len(tuples) * 2 * chunks)
			b := tuples[x/(2*chunks)]
			start := x / chunks % 2
			chunk := x % chunks
			lim := int(schedRef.entries[b[start]])
			lo, hi := 1+lim*chunk/chunks, 1+lim*(chunk+1)/chunks
			if lo >= hi {
				lo, hi = 1, 2
			}
			p := lo + c.Choose(hi-lo)
			plan := []segment{{start, p}, {1 - start, -1}}
			c.Input("fresh process: " + planName(b, plan, true))
			out, err := exec.Command(os.Args[0], "sub", "firstuse", strconv.Itoa(b[0]), strconv.Itoa(b[1]), strconv.Itoa(start), strconv.Itoa(p)).CombinedOutput()
			want := schedRef.results[b[0]] + "\x00" + schedRef.results[b[1]]
			if err != nil || string(out) != want {
				c.Fail("results differ from those alone (%v):\n--- alone\n%s\n--- here\n%s", err, clip(want, 1200), clip(string(out), 1200))
			}
		},
	}
}

func init() {
	subs["firstuse"] = func(args []string) int {
		setPoint(schedPoint)
		var n []int
		for _, s := range args {
			k, _ := strconv.Atoi(s)
			n = append(n, k)
		}
		sh := newSchedShared(n[:2]...)
		var fs []func() string
		for _, x := range n[:2] {
			run := schedBodies[x].run
			fs = append(fs, func() string { return run(sh) })
		}
		res, _, problem := runSched(fs, []segment{{n[2], n[3]}, {1 - n[2], -1}}, true)
		if problem != "" {
			fmt.Print(problem)
			return 1
		}
		fmt.Print(res[0] + "\x00" + res[1])
		return 0
	}
	// racepair: free-running pass for the race detector.
	subs["racepair"] = func(args []string) int {
		x, _ := strconv.Atoi(args[0])
		y, _ := strconv.Atoi(args[1])
		for round := 0; round < 30; round++ {
			sh := newSchedShared(x, y)
			start := make(chan struct{})
			var wg sync.WaitGroup
			res := make([]string, 4)
			for i, b := range []int{x, y, x, y} {
				wg.Add(1)
				go func(i, b int) {
					defer wg.Done()
					<-start
					res[i] = schedBodies[b].run(sh)
				}(i, b)
			}
			close(start)
			wg.Wait()
			for i := 0; i < 2; i++ {
				if res[i] != res[i+2] {
					fmt.Printf("results differ between runs of the same call:\n%s\n---\n%s", res[i], res[i+2])
					return 1
				}
			}
		}
		return 0
	}
	register(&Check{
		ID: "C08", Level: "model_checking", Sharded: true,
		Rule:        "one path per schedule of the instrumented library; every result is compared with that of the same call alone, shared modules are compared with their original, and a separate free-running pass under the race detector covers every pair",
		Assumptions: []string{"scheduling points are the statements of the library; interleavings within one statement and memory-model effects are left to the race detector pass", "at most the stated number of preemptions"},
		Spaces: func(tier string) []*Space {
			if setPoint == nil {
				return nil
			}
			all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
			gens := []int{0, 1, 2, 3}
			tiny := []int{9, 10, 11, 12}
			sizes := crowdSizes
			if tier == "thorough" {
				sizes = append(append([]int{}, sizes...), 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097)
			}
			out := []*Space{
				crowdSpace(sizes),
				schedSpace("pairs-1", tuplesOf(all, 2), 1, false),
				firstUseSpace(tuplesOf(tiny, 2)),
				schedSpace("small-2-calls", tuplesOf(tiny, 2), 2, true),
				schedSpace("generate-2-calls", tuplesOf(gens, 2), 2, true),
				schedSpace("small-3-threads", tuplesOf(tiny, 3), 1, true),
			}
			if tier == "thorough" {
				out = append(out, firstUseSpace(tuplesOf(all, 2)), schedSpace("small-2", tuplesOf(tiny, 2), 2, false), schedSpace("generate-2", tuplesOf(gens, 2), 2, false), schedSpace("pairs-2-calls", tuplesOf(all, 2), 2, true), schedSpace("small-3-calls", tuplesOf([]int{9, 12}, 2), 3, true))
			}
			return out
		},
		Custom: func(env *Env) *Result {
			r := &Result{Extra: map[string]interface{}{}}
			bin := os.Getenv("VF_RACE")
			if bin == "" {
				r.Extra["race_detector"] = "not available"
				return r
			}
			t0 := time.Now()
			var mu sync.Mutex
			var wg sync.WaitGroup
			sem := make(chan struct{}, runtime.NumCPU()/2)
			n := 0
			for x := range schedBodies[:9] {
				for y := x; y < 9; y++ {
					wg.Add(1)
					go func(x, y int) {
						defer wg.Done()
						sem <- struct{}{}
						defer func() { <-sem }()
						cmd := exec.Command(bin, "sub", "racepair", strconv.Itoa(x), strconv.Itoa(y))
						cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
						out, err := cmd.CombinedOutput()
						mu.Lock()
						defer mu.Unlock()
						n++
						if err != nil {
							r.Violations = append(r.Violations, violation{Space: "race-detector", Choices: []int{x, y}, Input: schedBodies[x].name + " || " + schedBodies[y].name, Msg: clip(string(out), 3000)})
						}
					}(x, y)
				}
			}
			wg.Wait()
			raceMany(bin, r)
			r.Extra["race_detector"] = map[string]interface{}{"pairs": n, "rounds_per_pair": 30, "goroutines": 4, "secs": time.Since(t0).Seconds()}
			if len(r.Violations) > 3 {
				r.Violations = r.Violations[:3]
			}
			return r
		},
	})
}
