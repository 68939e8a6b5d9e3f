package explore

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------------------------------------
// Stateless exploration. A scenario body is an ordinary function that takes every nondeterministic
// decision through C.Choose. The explorer runs the body once per distinct choice sequence (depth
// first, by re-execution), so the set of executions is exactly the set of leaves of the choice tree.
// ---------------------------------------------------------------------------------------------

// C is the choice context of one execution.
type C struct {
	forced  []int
	trace   []int
	widths  []int
	labels  []string
	st      *stats
	always  bool // every point counts as fresh
	Tier    string
	ops     []string
	cleanup []func()
	// Quiet suppresses nothing; kept for harness use.
	Vars map[string]interface{}
}

type stats struct {
	Execs       int64            `json:"execs"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Counters    map[string]int64 `json:"counters"`
}

func (s *stats) add(o *stats) {
	s.Execs += o.Execs
	s.States += o.States
	s.Transitions += o.Transitions
	if s.Counters == nil {
		s.Counters = map[string]int64{}
	}
	for k, v := range o.Counters {
		s.Counters[k] += v
	}
}

// Violation is one failing execution.
type Violation struct {
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Ops      []string `json:"ops"`
}

type failSentinel struct{ key, msg string }
type abortSentinel struct{}

// Choose returns a value in [0,n), all of which get explored.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic("kit: Choose(0)")
	}
	i := len(c.trace)
	v := 0
	if i < len(c.forced) {
		v = c.forced[i]
		if v >= n {
			panic(fmt.Sprintf("kit: replay divergence at choice %d: forced %d of %d", i, v, n))
		}
	}
	c.trace = append(c.trace, v)
	c.widths = append(c.widths, n)
	return v
}

// Bool is a two-way choice.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Fresh tells whether the current point has not been visited by an earlier execution of this job,
// so per-state checks need to run only when it is true.
func (c *C) Fresh() bool { return c.always || len(c.trace) >= len(c.forced) }

// Op records one executed operation of the history.
func (c *C) Op(format string, a ...interface{}) {
	c.ops = append(c.ops, fmt.Sprintf(format, a...))
	c.st.Transitions++
}

// State counts a state on which the property was evaluated.
func (c *C) State() {
	if !c.always || len(c.trace) >= len(c.forced) {
		c.st.States++
	}
}

// Asked is s with the checks made after every step of every history: in s alone, an execution makes them from its
// first new state on, so that what a question leaves behind (a cached answer) is not part of the history.
func Asked(s Scenario) Scenario {
	b := s.Body
	s.Name += "-asked"
	s.Bound += "; all questions are asked after every step"
	s.Body = func(c *C) { c.always = true; b(c) }
	return s
}

// AddStates counts n states.
func (c *C) AddStates(n int) { c.st.States += int64(n) }

// AddTransitions counts n transitions.
func (c *C) AddTransitions(n int) { c.st.Transitions += int64(n) }

// Count bumps a named counter of the evidence.
func (c *C) Count(name string, n int) {
	if c.st.Counters == nil {
		c.st.Counters = map[string]int64{}
	}
	c.st.Counters[name] += int64(n)
}

// Defer registers a cleanup that runs however the execution ends.
func (c *C) Defer(f func()) { c.cleanup = append(c.cleanup, f) }

// Fail reports a violation and ends the execution. key identifies the kind of failure.
func (c *C) Fail(key, format string, a ...interface{}) {
	panic(failSentinel{key, fmt.Sprintf(format, a...)})
}

// Prune ends the execution without a verdict (the choice led nowhere new).
func (c *C) Prune() { panic(abortSentinel{}) }

// Scenario is one closed system to explore.
type Scenario struct {
	Name  string
	Bound string // human readable bound
	Body  func(c *C)
	// Timeout of one execution.
	Timeout time.Duration
}

// Suite is everything one check explores.
type Suite struct {
	Property    string
	Scenarios   func(tier string) []Scenario
	Assumptions []string
	// PanicIsViolation: a Go panic escaping from the body is a violation (default true).
	IgnorePanics bool
	Workers      int
	// QuickBudget/ThoroughBudget: wall clock after which no new work is started.
	QuickBudget, ThoroughBudget time.Duration
}

func execOne(s *Suite, sc *Scenario, tier string, forced []int, st *stats) (trace, widths []int, v *Violation, ops []string) {
	c := &C{forced: forced, st: st, Tier: tier, Vars: map[string]interface{}{}}
	defer func() {
		for i := len(c.cleanup) - 1; i >= 0; i-- {
			func() {
				defer func() { recover() }()
				c.cleanup[i]()
			}()
		}
		trace, widths, ops = c.trace, c.widths, c.ops
	}()
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case failSentinel:
				v = &Violation{Key: x.key, Msg: x.msg}
			case abortSentinel:
			default:
				// a replay divergence also ends here: the code under test answered identical inputs differently
				stack := string(debug.Stack())
				v = &Violation{Key: "panic:" + panicKey(fmt.Sprint(r), stack), Msg: fmt.Sprintf("panic: %v\n%s", r, stack)}
			}
			if v != nil {
				v.Scenario = sc.Name
				v.Choices = append([]int{}, c.trace...)
				v.Ops = append([]string{}, c.ops...)
			}
		}()
		sc.Body(c)
	}()
	st.Execs++
	return
}

// panicKey names the first frame of the code under test on the panicking stack.
func panicKey(msg, stack string) string {
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		if strings.Contains(l, "vitelabs/go-vite") && !strings.HasPrefix(l, "\t") {
			i := strings.LastIndex(l, "(")
			if i > 0 {
				l = l[:i]
			}
			return filepath.Base(l)
		}
	}
	if len(msg) > 40 {
		msg = msg[:40]
	}
	return msg
}

// next computes the next forced prefix in depth-first order below base, nil when exhausted.
func next(trace, widths []int, base int) []int {
	for i := len(trace) - 1; i >= base; i-- {
		if trace[i]+1 < widths[i] {
			p := append([]int{}, trace[:i]...)
			return append(p, trace[i]+1)
		}
	}
	return nil
}

type job struct {
	Sc     int   `json:"sc"`
	Prefix []int `json:"p"`
	Single bool  `json:"single,omitempty"`
}

type jobResult struct {
	Stats      stats        `json:"stats"`
	Rest       [][]int      `json:"rest"`
	Violations []*Violation `json:"violations"`
	Fatal      string       `json:"fatal,omitempty"`
	MaxDepth   int          `json:"depth"`
	Sample     []string     `json:"sample"`
}

func workerMain(s *Suite, tier, journal string, out *os.File) {
	scs := s.Scenarios(tier)
	rd := bufio.NewReader(os.Stdin)
	jf, err := os.OpenFile(journal, os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(out)
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if err := json.Unmarshal(line, &j); err != nil {
			return
		}
		res := &jobResult{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					res.Fatal = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
			}()
			sc := &scs[j.Sc]
			start := time.Now()
			forced := j.Prefix
			for {
				b, _ := json.Marshal(job{Sc: j.Sc, Prefix: forced})
				jb := make([]byte, len(b)+8)
				copy(jb, fmt.Sprintf("%07d\n", len(b)))
				copy(jb[8:], b)
				jf.WriteAt(jb, 0)
				tr, wd, v, ops := execOne(s, sc, tier, forced, &res.Stats)
				if v == nil && len(ops) > len(res.Sample) {
					res.Sample = ops
				}
				if len(tr) > res.MaxDepth {
					res.MaxDepth = len(tr)
				}
				if v != nil {
					res.Violations = append(res.Violations, v)
				}
				if j.Single {
					return
				}
				nx := next(tr, wd, len(j.Prefix))
				if nx == nil {
					return
				}
				if res.Stats.Execs >= 4096 || time.Since(start) > 400*time.Millisecond || len(res.Violations) >= 5 {
					// hand the rest of the subtree back
					for i := len(j.Prefix); i < len(tr); i++ {
						for k := tr[i] + 1; k < wd[i]; k++ {
							res.Rest = append(res.Rest, append(append([]int{}, tr[:i]...), k))
						}
					}
					return
				}
				forced = nx
			}
		}()
		if err := enc.Encode(res); err != nil {
			return
		}
	}
}

type worker struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	journal string
	scratch string
	stderr  string
	jobs    int
}

func startWorker(tier string, id int, scratch string) (*worker, error) {
	w := &worker{}
	w.scratch = filepath.Join(scratch, fmt.Sprintf("w%d-%d", id, time.Now().UnixNano()))
	if err := os.MkdirAll(w.scratch, 0o755); err != nil {
		return nil, err
	}
	w.journal = filepath.Join(w.scratch, "journal")
	w.stderr = filepath.Join(w.scratch, "stderr")
	self, _ := os.Executable()
	w.cmd = exec.Command(self, "-tier", tier, "-worker", w.journal)
	w.cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+w.scratch, "HOME="+w.scratch, "GOMAXPROCS=2", "GOGC=200")
	w.cmd.Dir = w.scratch
	ef, err := os.Create(w.stderr)
	if err != nil {
		return nil, err
	}
	w.cmd.Stderr = ef
	w.in, err = w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	rp, wp, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	// results travel on fd 3 so that anything the code under test prints cannot disturb them
	w.cmd.ExtraFiles = []*os.File{wp}
	w.out = bufio.NewReaderSize(rp, 1<<20)
	err = w.cmd.Start()
	wp.Close()
	ef.Close()
	return w, err
}

func (w *worker) kill() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	os.RemoveAll(w.scratch)
}

func (w *worker) lastJob() *job {
	b, err := os.ReadFile(w.journal)
	if err != nil || len(b) < 8 {
		return nil
	}
	var n int
	fmt.Sscanf(string(b[:7]), "%d", &n)
	if len(b) < 8+n {
		return nil
	}
	var j job
	if json.Unmarshal(b[8:8+n], &j) != nil {
		return nil
	}
	return &j
}

func (w *worker) errTail() string {
	b, _ := os.ReadFile(w.stderr)
	if len(b) > 4000 {
		b = append(b[:2500], b[len(b)-1500:]...)
	}
	return string(b)
}

// run sends a job and waits. died is true when the process ended or hung.
// rss is the resident memory of the worker; what the code under test never frees ends with the process.
func (w *worker) rss() int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", w.cmd.Process.Pid))
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

func (w *worker) run(j job, timeout time.Duration) (res *jobResult, died bool, why string) {
	b, _ := json.Marshal(j)
	b = append(b, '\n')
	if _, err := w.in.Write(b); err != nil {
		return nil, true, "worker gone: " + err.Error()
	}
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		l, err := w.out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	var lastJ string
	lastChange := time.Now()
	for {
		select {
		case a := <-ch:
			if a.err != nil {
				w.cmd.Wait()
				return nil, true, "process exited: " + w.cmd.ProcessState.String()
			}
			r := &jobResult{}
			if err := json.Unmarshal(a.line, r); err != nil {
				return nil, true, "bad answer"
			}
			w.jobs++
			return r, false, ""
		case <-time.After(500 * time.Millisecond):
			jb, _ := os.ReadFile(w.journal)
			if string(jb) != lastJ {
				lastJ = string(jb)
				lastChange = time.Now()
			}
			if time.Since(lastChange) > timeout {
				return nil, true, fmt.Sprintf("no progress for %v (hang)", timeout)
			}
		}
	}
}

// Result is what the parent writes for the driver.
type Result struct {
	Property   string                   `json:"property"`
	Tier       string                   `json:"tier"`
	Exhaustive bool                     `json:"exhaustive"`
	Stats      stats                    `json:"stats"`
	Scenarios  []map[string]interface{} `json:"scenarios"`
	Violations []*Violation             `json:"violations"`
	Known      []*Violation             `json:"known"`
	Unrepro    []*Violation             `json:"unreproduced"`
	Wall       float64                  `json:"wall_s"`
	Fatal      string                   `json:"fatal,omitempty"`
	Assume     []string                 `json:"assumptions"`
	Samples    [][]string               `json:"samples"`
}

// Main is the entry point of every harness program.
func Main(s Suite) {
	tier := flag.String("tier", "quick", "quick or thorough")
	workerJ := flag.String("worker", "", "internal: journal file")
	out := flag.String("out", "", "result file")
	known := flag.String("known", "", "comma separated file of known keys (one per line)")
	replay := flag.String("replay", "", "replay file: run exactly this execution")
	list := flag.Bool("list", false, "list scenarios")
	only := flag.String("only", "", "run only scenarios with this substring")
	budget := flag.Duration("budget", 0, "override the budget")
	nw := flag.Int("j", 0, "workers")
	flag.Parse()
	if *workerJ != "" {
		f := os.NewFile(3, "results")
		Silence()
		if p := os.Getenv("VERIF_PPROF"); p != "" {
			if o, err := os.Create(fmt.Sprintf("%s.%d", p, os.Getpid())); err == nil {
				pprof.StartCPUProfile(o)
				go func() { time.Sleep(15 * time.Second); pprof.StopCPUProfile(); o.Close() }()
			}
		}
		workerMain(&s, *tier, *workerJ, f)
		return
	}
	scs := s.Scenarios(*tier)
	if *list {
		for _, sc := range scs {
			fmt.Println(sc.Name, "-", sc.Bound)
		}
		return
	}
	if *replay != "" {
		os.Exit(replayMain(&s, *tier, *replay))
	}
	knownKeys := map[string]bool{}
	if *known != "" {
		if b, err := os.ReadFile(*known); err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				if l = strings.TrimSpace(l); l != "" {
					knownKeys[l] = true
				}
			}
		}
	}
	start := time.Now()
	bud := s.QuickBudget
	if bud == 0 {
		bud = 150 * time.Second
	}
	if *tier == "thorough" {
		bud = s.ThoroughBudget
		if bud == 0 {
			bud = 40 * time.Minute
		}
	}
	if *budget != 0 {
		bud = *budget
	}
	n := s.Workers
	if n == 0 {
		n = 8
	}
	if *nw != 0 {
		n = *nw
	}
	scratch := MkTemp("verif-" + s.Property + "-")
	defer os.RemoveAll(scratch)

	res := &Result{Property: s.Property, Tier: *tier, Exhaustive: true, Assume: s.Assumptions}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []job
	active := 0
	stop := false
	perSc := make([]stats, len(scs))
	depth := make([]int, len(scs))
	wall := make([]time.Time, len(scs))
	left := make([]int, len(scs))
	sample := make([][]string, len(scs))
	byKey := map[string]*Violation{}
	for i := len(scs) - 1; i >= 0; i-- {
		if *only != "" && !strings.Contains(scs[i].Name, *only) {
			continue
		}
		queue = append(queue, job{Sc: i})
	}
	deadline := start.Add(bud)
	record := func(v *Violation) {
		old := byKey[v.Scenario+"\x00"+v.Key]
		if old == nil || len(v.Choices) < len(old.Choices) {
			byKey[v.Scenario+"\x00"+v.Key] = v
		}
		if !knownKeys[v.Key] {
			stop = true
		}
	}
	var wg sync.WaitGroup
	for id := 0; id < n; id++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.kill()
				}
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(queue) == 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					res.Exhaustive = false
					for _, j := range queue {
						left[j.Sc]++
					}
					queue = nil
					cond.Broadcast()
					mu.Unlock()
					return
				}
				j := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				active++
				mu.Unlock()
				if w != nil && (w.jobs >= 400 || w.rss() > 1<<30) {
					w.kill()
					w = nil
				}
				if w == nil {
					var err error
					w, err = startWorker(*tier, id, scratch)
					if err != nil {
						mu.Lock()
						res.Fatal = "cannot start worker: " + err.Error()
						stop = true
						active--
						cond.Broadcast()
						mu.Unlock()
						return
					}
				}
				to := scs[j.Sc].Timeout
				if to == 0 {
					to = 90 * time.Second
				}
				r, died, why := w.run(j, to)
				var crash *Violation
				if died {
					lj := w.lastJob()
					tail := w.errTail()
					w.kill()
					w = nil
					if lj == nil {
						lj = &j
					}
					crash = &Violation{Key: "died:" + scs[lj.Sc].Name, Msg: why + "\n" + tail, Scenario: scs[lj.Sc].Name, Choices: lj.Prefix}
				}
				mu.Lock()
				active--
				if crash != nil {
					record(crash)
				} else {
					if r.Fatal != "" && res.Fatal == "" {
						res.Fatal = r.Fatal
						stop = true
					}
					perSc[j.Sc].add(&r.Stats)
					wall[j.Sc] = time.Now()
					if len(r.Sample) > len(sample[j.Sc]) {
						sample[j.Sc] = r.Sample
					}
					if r.MaxDepth > depth[j.Sc] {
						depth[j.Sc] = r.MaxDepth
					}
					for _, v := range r.Violations {
						record(v)
					}
					for i := len(r.Rest) - 1; i >= 0; i-- {
						queue = append(queue, job{Sc: j.Sc, Prefix: r.Rest[i]})
					}
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}(id)
	}
	wg.Wait()

	keys := make([]string, 0, len(byKey))
	for k := range byKey {
		keys = append(keys, k)
	}
	// executions that ended the process are the slowest to repeat
	died := func(k string) bool { return strings.HasPrefix(byKey[k].Key, "died:") }
	sort.Slice(keys, func(i, j int) bool {
		if died(keys[i]) != died(keys[j]) {
			return died(keys[j])
		}
		return keys[i] < keys[j]
	})
	for _, k := range keys {
		v := byKey[k]
		if knownKeys[v.Key] {
			res.Known = append(res.Known, v)
			continue
		}
		if (died(k) || time.Since(start) > 4*time.Minute) && len(res.Violations) > 0 {
			continue // one confirmed violation decides
		}
		if n, m := confirm(&s, scs, *tier, v, scratch); n > 0 {
			v.Msg = fmt.Sprintf("(reproduced %d/%d in fresh processes) %s", n, m, v.Msg)
			res.Violations = append(res.Violations, v)
		} else {
			res.Unrepro = append(res.Unrepro, v)
		}
	}
	for i := range scs {
		res.Stats.add(&perSc[i])
		m := map[string]interface{}{"name": scs[i].Name, "bound": scs[i].Bound, "executions": perSc[i].Execs,
			"states": perSc[i].States, "transitions": perSc[i].Transitions, "max_choice_depth": depth[i], "unexplored_subtrees": left[i]}
		if len(perSc[i].Counters) > 0 {
			m["counters"] = perSc[i].Counters
		}
		if !wall[i].IsZero() {
			m["finished_at_s"] = wall[i].Sub(start).Seconds()
		}
		res.Scenarios = append(res.Scenarios, m)
	}
	if stop {
		res.Exhaustive = false
	}
	// one actual execution of each of the first scenarios, for the evidence
	for i := range scs {
		if len(sample[i]) > 0 && len(res.Samples) < 6 {
			l := sample[i]
			if len(l) > 40 {
				l = append(append([]string{}, l[:40]...), fmt.Sprintf("... %d more", len(l)-40))
			}
			res.Samples = append(res.Samples, append([]string{"scenario " + scs[i].Name}, l...))
		}
	}
	res.Wall = time.Since(start).Seconds()
	b, _ := json.MarshalIndent(res, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
	os.RemoveAll(scratch)
	if res.Fatal != "" {
		fmt.Fprintln(os.Stderr, res.Fatal)
		os.Exit(2)
	}
	if len(res.Violations) > 0 {
		os.Exit(1)
	}
}

// confirm re-runs the failing execution in fresh processes.
func confirm(s *Suite, scs []Scenario, tier string, v *Violation, scratch string) (n, m int) {
	idx := -1
	for i := range scs {
		if scs[i].Name == v.Scenario {
			idx = i
		}
	}
	if idx < 0 {
		return 0, 0
	}
	to := scs[idx].Timeout
	if to == 0 {
		to = 90 * time.Second
	}
	for k := 0; k < 5; k++ {
		w, err := startWorker(tier, 100+k, scratch)
		if err != nil {
			continue
		}
		r, died, _ := w.run(job{Sc: idx, Prefix: v.Choices, Single: true}, to)
		w.kill()
		m++
		if died {
			n++
		} else if len(r.Violations) > 0 {
			n++
			if len(v.Ops) == 0 {
				v.Ops = r.Violations[0].Ops
			}
		}
		if n >= 2 || (died && n >= 1) {
			break
		}
	}
	return
}

func replayMain(s *Suite, tier, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	scs := s.Scenarios(tier)
	real := Silence()
	for i := range scs {
		if scs[i].Name == v.Scenario {
			os.Setenv("VERIF_SCRATCH", MkTemp("verif-replay-"))
			defer os.RemoveAll(os.Getenv("VERIF_SCRATCH"))
			_, _, got, _ := execOne(s, &scs[i], tier, v.Choices, &stats{})
			if got == nil {
				fmt.Fprintln(real, "replay: no violation")
				return 0
			}
			fmt.Fprintln(real, "replay: violation", got.Key)
			for _, o := range got.Ops {
				fmt.Fprintln(real, "  ", o)
			}
			fmt.Fprintln(real, got.Msg)
			return 1
		}
	}
	fmt.Fprintln(real, "unknown scenario", v.Scenario)
	return 2
}

// Silence sends everything the code under test prints to /dev/null; the harness keeps the real stdout.
func Silence() (restore *os.File) {
	real := os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	return real
}

// ScratchRoot is the directory all scratch data of this process lives in.
func ScratchRoot() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	return base
}

// MkTemp makes a scratch directory.
func MkTemp(p string) string {
	d, err := os.MkdirTemp(ScratchRoot(), p)
	if err != nil {
		panic(err)
	}
	return d
}
