package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID     string
	Level  string
	Spaces func(tier string) []*Space
	// Sharded checks explore in one single-threaded process per CPU, because
	// their paths own process-wide state; the first choice of each space is
	// dealt out to the processes.
	Sharded bool
	// Custom checks run in the parent process instead of the explorer.
	Custom func(env *Env) *Result
	// Replay re-runs one recorded case of a custom check.
	Rule        string
	Assumptions []string
}

// Env is what a custom check gets.
type Env struct {
	Prop     string
	Tier     string
	Deadline time.Time
	Work     string // scratch directory
	Verif    string
	Repo     string
	Known    *knownFindings
}

// Result of a custom check.
type Result struct {
	Stats      []spaceStats
	States     int64
	Trans      int64
	Paths      int64
	Samples    []string
	Violations []violation
	KnownHit   map[string]string
	Cut        bool
	Extra      map[string]interface{}
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func budget(tier string) time.Duration {
	if s := os.Getenv("VF_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		return time.Duration(n) * time.Second
	}
	if tier == "thorough" {
		return 3 * time.Hour
	}
	return 420 * time.Second
}

type childReport struct {
	Stats      []spaceStats
	States     int64
	Trans      int64
	Paths      int64
	Samples    []string
	Violations []violation
	KnownHit   map[string]string
	Cut        bool
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vf check ID TIER | child ID TIER OUT | one ID TIER SPACE CHOICES | list")
		os.Exit(2)
	}
	debug.SetGCPercent(300)
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "check":
		os.Exit(runCheck(os.Args[2], os.Args[3]))
	case "child":
		runChild(os.Args[2], os.Args[3], os.Args[4])
	case "one":
		os.Exit(runOne(os.Args[2], os.Args[3], os.Args[4], os.Args[5]))
	case "sub":
		os.Exit(runSub(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

// subcommands for custom checks
var subs = map[string]func(args []string) int{}

func runSub(args []string) int {
	f := subs[args[0]]
	if f == nil {
		return 2
	}
	return f(args[1:])
}

func verifDir() string {
	if d := os.Getenv("VF_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func workDir() string {
	if d := os.Getenv("VF_WORK"); d != "" {
		return d
	}
	return os.TempDir()
}

func runChild(id, tier, out string) {
	c := checks[id]
	slots := mapSlots(out+".slots", runtime.NumCPU())
	kf := loadKnown()
	dropPrivileges(id, filepath.Dir(out))
	end := time.Now().Add(budget(tier))
	if s := os.Getenv("VF_END"); s != "" {
		n, _ := strconv.ParseInt(s, 10, 64)
		end = time.Unix(n, 0)
	}
	nw := runtime.NumCPU()
	if c.Sharded {
		nw = 1
		runtime.GOMAXPROCS(2)
	}
	e := newExplorer(id, slots, nw, end, kf)
	if f := strings.Split(os.Getenv("VF_SHARD"), "/"); c.Sharded && len(f) == 2 {
		e.shard, _ = strconv.Atoi(f[0])
		e.shards, _ = strconv.Atoi(f[1])
	}
	stop := make(chan struct{})
	go e.watchdog(stop)
	only := os.Getenv("VF_SPACE")
	for _, sp := range c.Spaces(tier) {
		if only != "" && !strings.Contains(sp.Name, only) {
			continue
		}
		e.explore(sp)
	}
	close(stop)
	r := childReport{e.stats, e.states, e.trans, e.paths, e.samples, e.violations, e.knownHit, e.cut}
	b, _ := json.Marshal(r)
	if err := os.WriteFile(out, b, 0600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

// dropPrivileges makes this process that of an unprivileged user before it gives the names of files, or open
// files, to the code under test: whatever that does with them, it can change nothing but a directory of its own.
func dropPrivileges(id, out string) {
	if id != "C07" && id != "C16" && id != "C18" || os.Geteuid() != 0 {
		return
	}
	d, err := os.MkdirTemp(workDir(), "u-")
	if err == nil {
		err = os.Chown(d, nobody, nobody)
	}
	if err == nil && out != "" {
		err = os.Chown(out, nobody, nobody)
	}
	if err == nil {
		err = syscall.Setgroups(nil)
	}
	if err == nil {
		err = syscall.Setgid(nobody)
	}
	if err == nil {
		err = syscall.Setuid(nobody)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	os.Setenv("VF_WORK", d)
}

func findSpace(id, tier, name string) *Space {
	for _, t := range []string{tier, "quick", "thorough"} {
		for _, sp := range checks[id].Spaces(t) {
			if sp.Name == name {
				return sp
			}
		}
	}
	return nil
}

// runOne re-runs one recorded path: exit 0 ok, 1 failure, 2 unknown path.
func runOne(id, tier, space, choices string) int {
	c := checks[id]
	if c == nil || c.Spaces == nil {
		return 2
	}
	sp := findSpace(id, tier, space)
	if sp == nil {
		return 2
	}
	dropPrivileges(id, "")
	ctl := &Ctl{prefix: parseChoices(choices), replay: true}
	msg := runPath(sp, ctl)
	fmt.Printf("input: %q\n", ctl.input)
	if msg != "" {
		fmt.Printf("FAILED: %s\n", msg)
		return 1
	}
	fmt.Println("ok")
	return 0
}

// superviseChild runs the explorer in a child process; if the child dies, the
// paths that were in progress are re-run in isolation to find the culprit.
func superviseChild(id, tier, work string) (*childReport, error) {
	if !checks[id].Sharded {
		return superviseShard(id, tier, work, 0, 1)
	}
	n := runtime.NumCPU()
	rs := make([]*childReport, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			d := filepath.Join(work, fmt.Sprintf("shard%d", i))
			if errs[i] = os.Mkdir(d, 0700); errs[i] == nil {
				rs[i], errs[i] = superviseShard(id, tier, d, i, n)
			}
		}(i)
	}
	wg.Wait()
	sum := &childReport{KnownHit: map[string]string{}}
	var firstErr error
	byName := map[string]int{}
	for i, r := range rs {
		if errs[i] != nil {
			firstErr = errs[i]
			continue
		}
		sum.States += r.States
		sum.Trans += r.Trans
		sum.Paths += r.Paths
		sum.Cut = sum.Cut || r.Cut
		if i < 4 {
			sum.Samples = append(sum.Samples, r.Samples...)
		}
		sum.Violations = append(sum.Violations, r.Violations...)
		for k, v := range r.KnownHit {
			sum.KnownHit[k] = v
		}
		for _, st := range r.Stats {
			k, ok := byName[st.Name]
			if !ok {
				byName[st.Name] = len(sum.Stats)
				sum.Stats = append(sum.Stats, st)
				continue
			}
			t := &sum.Stats[k]
			t.Paths += st.Paths
			t.Nodes += st.Nodes
			t.Steps += st.Steps
			t.Distinct += st.Distinct
			if st.Outcomes > t.Outcomes {
				t.Outcomes = st.Outcomes
			}
			t.Complete = t.Complete && st.Complete
			if st.Secs > t.Secs {
				t.Secs = st.Secs
			}
		}
	}
	if firstErr != nil && len(sum.Violations) == 0 {
		return nil, firstErr
	}
	return sum, nil
}

func superviseShard(id, tier, work string, shard, shards int) (*childReport, error) {
	out := filepath.Join(work, "child.json")
	cmd := exec.Command(os.Args[0], "child", id, tier, out)
	cmd.Stdout = os.Stderr
	cmd.Env = append(os.Environ(), "VF_END="+strconv.FormatInt(time.Now().Add(budget(tier)).Unix(), 10), fmt.Sprintf("VF_SHARD=%d/%d", shard, shards))
	errf, _ := os.Create(filepath.Join(work, "child.err"))
	cmd.Stderr = errf
	runErr := cmd.Run()
	errf.Close()
	tail := tailFile(filepath.Join(work, "child.err"), 6000)
	if runErr == nil {
		fmt.Fprint(os.Stderr, tail)
		b, err := os.ReadFile(out)
		if err != nil {
			return nil, err
		}
		r := &childReport{}
		return r, json.Unmarshal(b, r)
	}
	code := -1
	if ee, ok := runErr.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	fmt.Fprintf(os.Stderr, "explorer process ended: %v\n%s\n", runErr, headFile(filepath.Join(work, "child.err"), 3000))
	if code == 3 {
		return nil, fmt.Errorf("harness error")
	}
	// crash, hang (97) or memory (98)
	b, err := os.ReadFile(out + ".slots")
	if err != nil {
		return nil, err
	}
	r := &childReport{Cut: true}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; (i+1)*slotSize <= len(b); i++ {
		s := b[i*slotSize : (i+1)*slotSize]
		n := binary.LittleEndian.Uint64(s[:8])
		if n == 0 || n > slotSize-8 {
			continue
		}
		parts := strings.SplitN(string(s[8:8+n]), " ", 2)
		ch := ""
		if len(parts) == 2 {
			ch = parts[1]
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if bad, _, _ := isolate(id, tier, parts[0], ch); !bad {
				return
			}
			bad, how, input := isolate(id, tier, parts[0], ch)
			if bad {
				mu.Lock()
				r.Violations = append(r.Violations, violation{Space: parts[0], Choices: parseChoices(ch), Input: input, Msg: how})
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if len(r.Violations) == 0 {
		return nil, fmt.Errorf("explorer process died (%v) and no path in progress reproduces it", runErr)
	}
	return r, nil
}

func isolate(id, tier, space, choices string) (bad bool, how, input string) {
	cmd := exec.Command(os.Args[0], "one", id, tier, space, choices)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out strings.Builder
	outf, err := os.CreateTemp(workDir(), "one")
	if err != nil {
		return false, "", ""
	}
	defer os.Remove(outf.Name())
	cmd.Stdout, cmd.Stderr = outf, outf
	if err := cmd.Start(); err != nil {
		return false, "", ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	t0 := time.Now()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			out.WriteString(headFile(outf.Name(), 2000))
			text := out.String()
			in := ""
			for _, l := range strings.Split(text, "\n") {
				if strings.HasPrefix(l, "input: ") {
					in, _ = strconv.Unquote(strings.TrimPrefix(l, "input: "))
				}
			}
			if err == nil {
				return false, "", in
			}
			if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 3 || ee.ExitCode() == 2 && strings.Contains(text, "usage")) {
				return false, "", in
			}
			return true, "process crashed: " + clip(text, 600), in
		case <-tick.C:
			mem := procRSS(cmd.Process.Pid)
			if time.Since(t0) > 60*time.Second || mem > 3<<30 {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return true, fmt.Sprintf("does not terminate (%.0fs, %d MB)", time.Since(t0).Seconds(), mem>>20), "(path " + space + " " + clip(choices, 200) + ")"
			}
		}
	}
}

func procRSS(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func tailFile(p string, n int) string {
	b, _ := os.ReadFile(p)
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func headFile(p string, n int) string {
	b, _ := os.ReadFile(p)
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func runCheck(id, tier string) int {
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		return 2
	}
	t0 := time.Now()
	work, err := os.MkdirTemp(workDir(), "vf-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	os.Chmod(work, 0711) // see dropPrivileges
	var r *Result
	if c.Spaces != nil {
		cr, err := superviseChild(id, tier, work)
		if err != nil {
			fmt.Fprintln(os.Stderr, "check error:", err)
			return 2
		}
		r = &Result{Stats: cr.Stats, States: cr.States, Trans: cr.Trans, Paths: cr.Paths, Samples: cr.Samples, Violations: cr.Violations, KnownHit: cr.KnownHit, Cut: cr.Cut}
	}
	if c.Custom != nil && (r == nil || len(r.Violations) == 0) {
		env := &Env{Prop: id, Tier: tier, Deadline: t0.Add(budget(tier)), Work: work, Verif: verifDir(), Repo: repoDir(), Known: loadKnown()}
		r2 := c.Custom(env)
		if r2 == nil {
			return 2
		}
		if r == nil {
			r = r2
		} else {
			r.Stats = append(r.Stats, r2.Stats...)
			r.States += r2.States
			r.Trans += r2.Trans
			r.Paths += r2.Paths
			r.Samples = append(r.Samples, r2.Samples...)
			r.Violations = append(r.Violations, r2.Violations...)
			r.Cut = r.Cut || r2.Cut
			if r.KnownHit == nil {
				r.KnownHit = map[string]string{}
			}
			for k, v := range r2.KnownHit {
				r.KnownHit[k] = v
			}
			r.Extra = r2.Extra
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	complete := !r.Cut
	for _, s := range r.Stats {
		if !s.Complete {
			complete = false
		}
	}
	if len(r.Samples) == 0 {
		r.Samples = []string{"(none)"}
	}
	if len(r.Samples) > 40 {
		r.Samples = r.Samples[:40]
	}
	cov := map[string]interface{}{
		"spaces":     r.Stats,
		"samples":    r.Samples,
		"exhaustive": complete,
		"rule":       c.Rule,
	}
	if c.Level == "model_checking" {
		cov["states"] = r.States
		cov["transitions"] = r.Trans
		cov["traces_validated_against_impl"] = r.Paths
	} else {
		cov["evaluations"] = r.Paths
		cov["distinct_nontrivial"] = r.States
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       c.Level,
		"coverage":    cov,
		"assumptions": append([]string{}, c.Assumptions...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(r.Violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var keys []string
	for k := range r.KnownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, oneLine(k))
	}
	if len(r.Violations) > 0 {
		dir := filepath.Join(verifDir(), "evidence", "replay")
		os.MkdirAll(dir, 0755)
		for i, v := range r.Violations {
			if i >= 3 {
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i))
			vb, _ := json.MarshalIndent(map[string]interface{}{
				"property": id, "tier": tier, "space": v.Space, "choices": v.Choices, "input": v.Input, "what": v.Msg,
				"replay": fmt.Sprintf("./run.sh replay %s %s '%s' '%s'", id, tier, v.Space, choicesString(v.Choices)),
			}, "", " ")
			os.WriteFile(p, append(vb, '\n'), 0644)
			fmt.Fprintf(os.Stderr, "violation of %s in %s\n  input: %s\n  %s\n", id, v.Space, clip(v.Input, 1500), clip(v.Msg, 3000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		return 1
	}
	fmt.Printf("OK property=%s paths=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n", id, r.Paths, r.States, r.Trans, complete, time.Since(t0).Seconds())
	return 0
}

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", "\\n") }

// known findings

type knownEntry struct {
	Property string `json:"property"`
	Input    string `json:"input"`
	What     string `json:"what"`
}

type knownFindings struct {
	Findings []knownEntry `json:"findings"`
	Fixed    []string     `json:"fixed"`
}

func loadKnown() *knownFindings {
	k := &knownFindings{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, k); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(3)
		}
	}
	return k
}

// match returns the description of the listed finding for exactly this input.
func (k *knownFindings) match(prop, input string) string {
	for _, f := range k.Findings {
		if f.Property == prop && f.Input == input {
			return f.What
		}
	}
	return ""
}
