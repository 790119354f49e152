package main

// Stateless exhaustive explorer. A Space is a program that asks its Ctl for
// choices; the explorer runs it once for every sequence of choices (depth
// first, restarted from the beginning for each path) on several workers and
// reports every path whose oracle fails. Nothing is sampled.

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Ctl is the controller of one path.
type Ctl struct {
	prefix  []int
	choices []int
	arity   []int
	input   string
	hasIn   bool
	steps   int
	outcome uint64
	w       *worker
	replay  bool
}

// Choose returns a value in [0,n); the explorer enumerates all of them.
func (c *Ctl) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("harness: Choose(%d)", n))
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("harness: divergence while replaying: choice %d of %d at %d", v, n, i))
		}
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, n)
	return v
}

// Bool is a two-way choice.
func (c *Ctl) Bool() bool { return c.Choose(2) == 1 }

// Pick chooses one of the strings.
func (c *Ctl) Pick(xs ...string) string { return xs[c.Choose(len(xs))] }

// Input records the concrete case of this path (for crash reports, distinct counts, samples).
func (c *Ctl) Input(s string) {
	c.input = s
	c.hasIn = true
	if c.w != nil {
		c.w.setSlot(c.choices)
	}
}

// Outcome folds an observed outcome into the path's outcome class.
func (c *Ctl) Outcome(s string) {
	h := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], c.outcome)
	h.Write(b[:])
	h.Write([]byte(s))
	c.outcome = h.Sum64()
}

// Steps adds n oracle-checked transitions within a path.
func (c *Ctl) Steps(n int) { c.steps += n }

type failure struct{ msg string }

// Fail reports a violation on this path.
func (c *Ctl) Fail(format string, args ...interface{}) {
	panic(failure{clip(fmt.Sprintf(format, args...), 6000)})
}

// Space is one bounded space of behaviours.
type Space struct {
	Name  string
	Bound string
	Run   func(c *Ctl)
	// Serial spaces run on one worker.
	Serial bool
}

type violation struct {
	Space   string
	Choices []int
	Input   string
	Msg     string
}

type spaceStats struct {
	Name     string  `json:"name"`
	Bound    string  `json:"bound"`
	Paths    int64   `json:"paths"`
	Nodes    int64   `json:"choice_points_and_leaves"`
	Steps    int64   `json:"extra_checked_steps"`
	Distinct int64   `json:"distinct_inputs"`
	Outcomes int64   `json:"distinct_outcomes"`
	Complete bool    `json:"complete"`
	Secs     float64 `json:"secs"`
}

type hashSet struct {
	mu [64]sync.Mutex
	m  [64]map[uint64]struct{}
	n  int64
}

const hashSetCap = 60 << 20

func newHashSet() *hashSet {
	h := &hashSet{}
	for i := range h.m {
		h.m[i] = map[uint64]struct{}{}
	}
	return h
}

func (h *hashSet) add(x uint64) {
	if atomic.LoadInt64(&h.n) > hashSetCap {
		return
	}
	i := x >> 58
	h.mu[i].Lock()
	if _, ok := h.m[i][x]; !ok {
		h.m[i][x] = struct{}{}
		atomic.AddInt64(&h.n, 1)
	}
	h.mu[i].Unlock()
}

type worker struct {
	id    int
	slot  []byte
	start int64 // unix nano of the current path, 0 if idle
	space string
}

const slotSize = 1 << 16

func (w *worker) setSlot(choices []int) {
	if w.slot == nil {
		return
	}
	s := w.slot[8:8]
	s = append(s, w.space...)
	for i, c := range choices {
		if len(s) > slotSize-64 {
			break
		}
		if i == 0 {
			s = append(s, ' ')
		} else {
			s = append(s, ',')
		}
		s = strconv.AppendInt(s, int64(c), 10)
	}
	binary.LittleEndian.PutUint64(w.slot[:8], uint64(len(s)))
}

// mapSlots maps a file with one slot per worker, so that the parent can read
// what each worker was doing even if this process dies abruptly.
func mapSlots(path string, n int) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return nil
	}
	defer f.Close()
	if err := f.Truncate(int64(n * slotSize)); err != nil {
		return nil
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, n*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return b
}

type explorer struct {
	workers    []*worker
	deadline   time.Time
	stats      []spaceStats
	states     int64
	trans      int64
	paths      int64
	samples    []string
	violations []violation
	known      *knownFindings
	knownHit   map[string]string
	prop       string
	mu         sync.Mutex
	cut        bool
	shard      int
	shards     int
}

const hangLimit = 40 * time.Second

func newExplorer(prop string, slots []byte, n int, deadline time.Time, kf *knownFindings) *explorer {
	e := &explorer{prop: prop, deadline: deadline, known: kf, knownHit: map[string]string{}}
	for i := 0; i < n; i++ {
		w := &worker{id: i}
		if slots != nil {
			w.slot = slots[i*slotSize : (i+1)*slotSize]
		}
		e.workers = append(e.workers, w)
	}
	return e
}

func (e *explorer) watchdog(stop chan struct{}) {
	t := time.NewTicker(500 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case <-stop:
			return
		case <-t.C:
		}
		now := time.Now().UnixNano()
		for _, w := range e.workers {
			s := atomic.LoadInt64(&w.start)
			if s != 0 && now-s > int64(hangLimit) {
				fmt.Fprintf(os.Stderr, "worker %d hangs\n", w.id)
				os.Exit(97)
			}
		}
		if rssBytes() > 22<<30 {
			fmt.Fprintln(os.Stderr, "memory limit")
			os.Exit(98)
		}
	}
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// runPath runs one path; it returns the failure message ("" if none).
func runPath(sp *Space, c *Ctl) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				msg = f.msg
				return
			}
			if s, ok := r.(string); ok && strings.HasPrefix(s, "harness:") {
				fmt.Fprintf(os.Stderr, "harness error in %s %v: %s\n%s", sp.Name, c.choices, s, debug.Stack())
				os.Exit(3)
			}
			st := string(debug.Stack())
			if strings.Contains(panicOrigin(st), "verifharness") || strings.Contains(panicOrigin(st), "main.") {
				// The oracle met a result it cannot even read (a nil where the interface promises a value).
				msg = fmt.Sprintf("panic while judging the result: %v at %s", r, panicOrigin(st))
				return
			}
			msg = fmt.Sprintf("panic: %v at %s", r, panicOrigin(st))
		}
	}()
	sp.Run(c)
	if len(c.choices) < len(c.prefix) {
		panic("harness: divergence while replaying: path is shorter than its prefix")
	}
	return ""
}

// panicOrigin returns the first function below runtime in a panic's stack.
func panicOrigin(st string) string {
	lines := strings.Split(st, "\n")
	seenPanic := false
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			i++
			continue
		}
		if !seenPanic {
			continue
		}
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "strings.") || strings.HasPrefix(l, "reflect.") || strings.HasPrefix(l, "bytes.") || strings.HasPrefix(l, "bufio.") || strings.HasPrefix(l, "panic") {
			continue
		}
		return l
	}
	return ""
}

// rerun runs the path of a failure n more times and tells how often it fails again.
func rerun(sp *Space, v violation, n int) int {
	again := 0
	for k := 0; k < n; k++ {
		c := &Ctl{prefix: v.Choices, replay: true}
		if runPath(sp, c) != "" {
			again++
		}
	}
	return again
}

func (e *explorer) explore(sp *Space) {
	if e.cut || len(e.violations) > 0 {
		return
	}
	t0 := time.Now()
	var (
		mu      sync.Mutex
		cond    = sync.NewCond(&mu)
		stack   = [][]int{nil}
		active  int
		stop    bool
		cut     bool
		nviol   int
		viol    []violation
		samples []string
	)
	st := spaceStats{Name: sp.Name, Bound: sp.Bound}
	distinct := newHashSet()
	outcomes := newHashSet()
	var nodes, paths, steps int64
	nw := len(e.workers)
	if sp.Serial {
		nw = 1
	}
	var firstViol time.Time
	work := func(w *worker) {
		w.space = sp.Name
		local := [][]int{}
		for {
			var prefix []int
			if len(local) > 0 {
				prefix = local[len(local)-1]
				local = local[:len(local)-1]
			} else {
				mu.Lock()
				for len(stack) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(stack) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				// take up to a few prefixes
				k := 1 + len(stack)/(4*nw)
				if k > 64 {
					k = 64
				}
				local = append(local, stack[len(stack)-k:]...)
				stack = stack[:len(stack)-k]
				active++
				prefix = local[len(local)-1]
				local = local[:len(local)-1]
				mu.Unlock()
			}
			c := &Ctl{prefix: prefix, w: w}
			w.setSlot(prefix)
			atomic.StoreInt64(&w.start, time.Now().UnixNano())
			msg := runPath(sp, c)
			atomic.StoreInt64(&w.start, 0)
			if e.shards > 1 && len(prefix) == 0 {
				// The first path tells the width of the first choice; deal its alternatives out.
				for alt := 1; len(c.arity) > 0 && alt < c.arity[0]; alt++ {
					if alt%e.shards == e.shard {
						local = append(local, []int{alt})
					}
				}
				if e.shard != 0 {
					mu.Lock()
					if len(local) == 0 {
						active--
					}
					mu.Unlock()
					continue
				}
			}
			p := atomic.AddInt64(&paths, 1)
			add := int64(len(c.choices) - len(prefix) + 1)
			atomic.AddInt64(&nodes, add)
			atomic.AddInt64(&steps, int64(c.steps))
			if c.hasIn {
				h := fnv.New64a()
				h.Write([]byte(c.input))
				distinct.add(h.Sum64())
			}
			outcomes.add(c.outcome)
			if c.hasIn && (p <= 2 || p&(p-1) == 0 && p > 64) {
				mu.Lock()
				if len(samples) < 40 {
					samples = append(samples, clip(c.input, 300))
				}
				mu.Unlock()
			}
			if msg != "" {
				v := violation{sp.Name, append([]int{}, c.choices...), c.input, msg}
				if key := e.known.match(e.prop, v.Input); key != "" {
					e.mu.Lock()
					e.knownHit[key] = v.Msg
					e.mu.Unlock()
				} else if again := rerun(sp, v, 5); again == 0 {
					fmt.Fprintf(os.Stderr, "NOTE: failure not reproduced, ignored: %s %q: %s\n", v.Space, clip(v.Input, 300), clip(v.Msg, 1600))
				} else {
					v.Msg = fmt.Sprintf("%s (failed again in %d of 5 re-runs)", clip(v.Msg, 1600), again)
					mu.Lock()
					nviol++
					viol = append(viol, v)
					if firstViol.IsZero() {
						firstViol = time.Now()
					}
					if nviol >= 200 {
						stop = true
					}
					mu.Unlock()
				}
			}
			for i := len(c.choices) - 1; i >= len(prefix); i-- {
				if i == 0 && e.shards > 1 {
					break
				}
				for alt := c.arity[i] - 1; alt >= 1; alt-- {
					np := make([]int, i+1)
					copy(np, c.choices[:i])
					np[i] = alt
					local = append(local, np)
				}
			}
			mu.Lock()
			if !firstViol.IsZero() && time.Since(firstViol) > 3*time.Second {
				stop = true
			}
			if p&255 == 0 && time.Now().After(e.deadline) {
				stop = true
				cut = true
			}
			if stop {
				active--
				mu.Unlock()
				cond.Broadcast()
				return
			}
			if len(local) == 0 {
				active--
				mu.Unlock()
				if active == 0 {
					cond.Broadcast()
				}
				continue
			}
			// share: give away the oldest half when others starve
			if len(stack) < nw && len(local) > 1 && nw > 1 {
				k := len(local) / 2
				stack = append(stack, local[:k]...)
				local = append([][]int{}, local[k:]...)
				cond.Broadcast()
			}
			mu.Unlock()
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(w *worker) { defer wg.Done(); work(w) }(e.workers[i])
	}
	wg.Wait()
	st.Paths, st.Nodes, st.Steps = paths, nodes, steps
	st.Distinct = distinct.n
	st.Outcomes = outcomes.n
	st.Complete = !stop && !cut
	st.Secs = float64(time.Since(t0).Milliseconds()) / 1000
	e.stats = append(e.stats, st)
	e.paths += paths
	e.trans += nodes + steps
	e.states += distinct.n
	if distinct.n == 0 {
		e.states += nodes
	}
	if cut {
		e.cut = true
	}
	for i, s := range samples {
		if i < 4 {
			e.samples = append(e.samples, sp.Name+": "+s)
		}
	}
	sort.Slice(viol, func(i, j int) bool { return len(viol[i].Input) < len(viol[j].Input) })
	for _, v := range viol {
		e.violations = append(e.violations, v)
		if len(e.violations) >= 5 {
			break
		}
	}
	fmt.Fprintf(os.Stderr, "%s/%s: paths=%d distinct=%d outcomes=%d nodes=%d complete=%v %.1fs viol=%d\n", e.prop, sp.Name, paths, st.Distinct, st.Outcomes, nodes, st.Complete, st.Secs, nviol)
	runtime.GC()
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + fmt.Sprintf("...(%d bytes)...", len(s)) + s[len(s)-n/2:]
}

func choicesString(c []int) string {
	var b strings.Builder
	for i, x := range c {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Itoa(x))
	}
	return b.String()
}

func parseChoices(s string) []int {
	var out []int
	if s == "" {
		return out
	}
	for _, x := range strings.Split(s, ",") {
		n, _ := strconv.Atoi(x)
		out = append(out, n)
	}
	return out
}
