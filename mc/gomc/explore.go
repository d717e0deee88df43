package gomc

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Opts bounds and configures the exploration of a scenario.
type Opts struct {
	Fixed     bool // explore Choose only; the schedule is the default one
	Dev       int  // 0: no bound on deviations from the default schedule; n: at most n
	Horizon   int  // steps after which an execution is taken not to end
	Mem       bool // track memory accesses (race detection, racy accesses become scheduling points)
	RaceFails bool // a data race is a violation
	MapOrder  bool // iteration order of maps is chosen
	MaxSkips  int  // how often a thread's select may take default although a case is ready
	Shards    int  // split by the first choice
	NoCache   bool // no state caching
	One       bool // with Fixed: the default schedule only, even if the code starts goroutines
}

// Scenario is a closed system: a body run as the first thread.
type Scenario struct {
	Prop  string
	Name  string
	Tier  string // quick or thorough
	Bound string // what is enumerated, in words
	Opts  Opts
	Body  func()
}

var scenarios []*Scenario
var resets []func()

// OnReset registers the re-initialisation of a package's variables.
func OnReset(f func()) { resets = append(resets, f) }

// Register adds a scenario.
func Register(s Scenario) { scenarios = append(scenarios, &s) }

// Result of exploring a scenario.
type Result struct {
	Scenario    string            `json:"scenario"`
	Shard       int               `json:"shard"`
	Executions  int64             `json:"executions"`
	Steps       int64             `json:"steps"`
	States      int64             `json:"states"`
	Pruned      int64             `json:"pruned"`
	Outcomes    int               `json:"outcomes"`
	Samples     []string          `json:"samples"`
	MaxSteps    int               `json:"max_steps"`
	Exhaustive  bool              `json:"exhaustive"`
	Note        string            `json:"note,omitempty"`
	Counts      map[string]int64  `json:"counts,omitempty"`
	Known       map[string]string `json:"known,omitempty"`
	Races       []string          `json:"races,omitempty"`
	Violation   *Violation        `json:"violation,omitempty"`
	Choices     []int32           `json:"choices,omitempty"`
	Policy      int               `json:"policy,omitempty"`
	Racy        []string          `json:"racy,omitempty"`
	Trace       []string          `json:"trace,omitempty"`
	WallS       float64           `json:"wall_s"`
	Unconfirmed string            `json:"unconfirmed,omitempty"`
}

func (s *Scenario) control() *control {
	o := s.Opts
	c := &control{fixed: o.Fixed, maxDev: -1, horizon: o.Horizon, trackMem: o.Mem, mapOrder: o.MapOrder, maxSkips: o.MaxSkips}
	if o.Dev > 0 {
		c.maxDev = o.Dev
	}
	c.crowd = 1000
	if o.Fixed {
		c.crowd = 30000
	}
	if c.horizon == 0 {
		c.horizon = 20000
		if o.Fixed {
			c.horizon = 8000000
		}
	}
	if c.maxSkips == 0 {
		c.maxSkips = 2
	}
	if !o.NoCache && !o.Fixed {
		c.visited = map[uint64]int32{}
	}
	return c
}

func run(s *Scenario, ctl *control, prefix []int32, tracing bool) *Exec {
	initGo = nil
	for _, f := range resets {
		f()
	}
	epochCounter++
	e := &Exec{
		epoch:  epochCounter,
		chans:  map[unsafe.Pointer]*chanState{},
		done:   make(chan struct{}, 1),
		exited: make(chan struct{}),
		prefix: prefix, ctl: ctl, tracing: tracing,
		counts: map[string]int64{},
	}
	if ctl.trackMem {
		e.mem = map[uintptr]*shadow{}
	}
	x = e
	m := e.newThread("main", nil)
	e.start(m, s.Body)
	e.cur = m
	for _, g := range initGo {
		GoDaemon(g.site, g.f)
	}
	m.wake <- struct{}{}
	<-e.done
	e.abort = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if !t.dead {
			t.wake <- struct{}{}
			<-e.exited
		}
	}
	x = nil
	return e
}

// heartbeat
var (
	beatExec  int64
	beatCPU   time.Duration
	curStatus string
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func explore(s *Scenario, shard, shards int, deadline time.Time, out *Result) {
	start := time.Now()
	out.Scenario, out.Shard = s.Name, shard
	racy := map[string]bool{}
restart:
	ctl := s.control()
	ctl.racy = racy
	outcomes := map[uint64]bool{}
	out.Executions, out.Steps, out.States, out.Pruned, out.MaxSteps = 0, 0, 0, 0, 0
	out.Counts = map[string]int64{}
	out.Samples = nil
	out.Exhaustive = true
	var prefix []int32
	races := map[string]bool{}
	if shards > 1 {
		prefix = []int32{int32(shard)}
	}
	for {
		e := run(s, ctl, prefix, false)
		if e.diverge != "" {
			if shards > 1 && len(prefix) == 1 && out.Executions == 0 {
				break // fewer options than shards: nothing here
			}
			out.Exhaustive = false
			out.Note = e.diverge
			break
		}
		if s.Opts.Fixed && e.spawned > 0 && e.viol == nil && !e.pruned {
			out.Executions++
			out.Steps += int64(e.steps - e.prefixSteps)
			for p := 1; p < policies && e.viol == nil && !s.Opts.One; p++ {
				beatExec++
				out.Executions++
				c2 := s.control()
				c2.racy = racy
				c2.policy = p
				e2 := run(s, c2, e.choices, false)
				for k, v := range e2.known {
					if e.known == nil {
						e.known = map[string]string{}
					}
					e.known[k] = v
				}
				if e2.viol != nil {
					e.viol, e.policy = e2.viol, p
					e.vchoices = e2.choices
				} else {
					out.Steps += int64(e2.steps)
				}
			}
			out.Executions--
			out.Steps -= int64(e.steps - e.prefixSteps)
		}
		beatExec++
		out.Executions++
		out.Steps += int64(e.steps - e.prefixSteps)
		if e.steps > out.MaxSteps {
			out.MaxSteps = e.steps
		}
		if ctl.visited == nil {
			// nodes of the tree of choices seen for the first time
			out.States += int64(len(e.choices) - len(prefix) + 1)
		}
		for k, v := range e.counts {
			out.Counts[k] += v
		}
		for k, v := range e.known {
			if out.Known == nil {
				out.Known = map[string]string{}
			}
			if _, ok := out.Known[k]; !ok {
				out.Known[k] = v
			}
		}
		if e.pruned {
			out.Pruned++
		} else if e.outcome != "" {
			h := hashString(e.outcome)
			if !outcomes[h] {
				outcomes[h] = true
				if len(out.Samples) < 4 {
					out.Samples = append(out.Samples, clip(e.outcome, 200))
				}
			}
		}
		if len(e.races) > 0 {
			for r := range e.races {
				races[r] = true
			}
			if s.Opts.RaceFails {
				if e.viol == nil {
					var l []string
					for r := range e.races {
						l = append(l, r)
					}
					sort.Strings(l)
					e.viol = &Violation{Kind: "race", Msg: "data race: " + l[0]}
				}
			}
		}
		if e.viol == nil {
			grew := false
			for r := range e.racySites {
				if !racy[r] && (r == tryLock || !s.Opts.RaceFails) {
					racy[r] = true
					grew = true
				}
			}
			if grew && len(racy) < 64 {
				goto restart
			}
		}
		if e.viol != nil {
			v := *e.viol
			choices := append([]int32(nil), e.choices...)
			if e.policy != 0 {
				choices = append(choices[:0], e.vchoices...)
			}
			ok := confirm(s, ctl, e.policy, choices, &v)
			if ok {
				out.Violation = &v
				out.Choices = choices
				out.Policy = e.policy
				for r := range racy {
					out.Racy = append(out.Racy, r)
				}
				c2 := s.control()
				c2.visited = nil
				c2.racy = racy
				c2.policy = e.policy
				t := run(s, c2, choices, true)
				out.Trace = t.trace
				out.Exhaustive = false
				break
			}
			out.Unconfirmed = v.Msg
			out.Exhaustive = false
		}
		// next prefix
		i := len(e.choices) - 1
		for i >= 0 {
			stepBy := int32(1)
			if shards > 1 && i == 0 {
				stepBy = int32(shards)
			}
			if e.choices[i]+stepBy < e.widths[i] {
				prefix = append(prefix[:0], e.choices[:i]...)
				prefix = append(prefix, e.choices[i]+stepBy)
				break
			}
			i--
		}
		if i < 0 {
			break
		}
		if !deadline.IsZero() && time.Now().After(deadline) {
			out.Exhaustive = false
			out.Note = "time budget reached"
			break
		}
	}
	if ctl.visited != nil {
		out.States = int64(len(ctl.visited))
	}
	out.Outcomes = len(outcomes)
	for r := range races {
		out.Races = append(out.Races, r)
	}
	sort.Strings(out.Races)
	out.WallS = time.Since(start).Seconds()
}

// confirm re-runs a violation five times; every run must fail again.
func confirm(s *Scenario, ctl *control, policy int, choices []int32, v *Violation) bool {
	for i := 0; i < 5; i++ {
		c2 := s.control()
		c2.visited = nil
		c2.racy = ctl.racy
		c2.policy = policy
		e := run(s, c2, choices, false)
		if v.Kind == "race" {
			if len(e.races) == 0 {
				return false
			}
			continue
		}
		if e.viol == nil {
			return false
		}
	}
	return true
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Main is the main function of a harness program.
func Main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	list := flag.Bool("list", false, "list scenarios")
	name := flag.String("scenario", "", "scenario to explore")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	budget := flag.Float64("budget", 0, "seconds")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30) // below what counts as unbounded growth
	debug.SetMaxStack(256 << 20)
	if *list {
		type ent struct {
			Name, Prop, Tier, Bound string
			Shards                  int
			Fixed                   bool
			Dev                     int
		}
		var l []ent
		for _, s := range scenarios {
			if (*prop == "" || s.Prop == *prop) && (s.Tier != "thorough" || *tier == "thorough") {
				sh := s.Opts.Shards
				if sh == 0 {
					sh = 1
				}
				l = append(l, ent{s.Name, s.Prop, s.Tier, s.Bound, sh, s.Opts.Fixed, s.Opts.Dev})
			}
		}
		json.NewEncoder(os.Stdout).Encode(l)
		return
	}
	if *replay != "" {
		replayFile(*replay)
		return
	}
	for _, s := range scenarios {
		if s.Name != *name {
			continue
		}
		var dl time.Time
		if *budget > 0 {
			dl = time.Now().Add(time.Duration(*budget * float64(time.Second)))
		}
		out := &Result{}
		go watchdog(s, out)
		explore(s, *shard, *shards, dl, out)
		json.NewEncoder(os.Stdout).Encode(out)
		return
	}
	fmt.Fprintln(os.Stderr, "no such scenario", *name)
	os.Exit(3)
}

// watchdog reports an execution in which a goroutine computes for ever without
// reaching any visible operation. Progress is measured in CPU time.
func watchdog(s *Scenario, out *Result) {
	last, lastSteps := int64(-1), -1
	var since time.Duration
	for {
		time.Sleep(500 * time.Millisecond)
		e := x
		steps := -1
		if e != nil {
			steps = e.steps + len(e.choices)
		}
		if rss := rssBytes(); rss > 3<<30 {
			v := &Violation{Kind: "memory", Msg: fmt.Sprintf("the execution uses more and more memory (%d MB)", rss>>20)}
			r := snapshot(out)
			if e == nil || len(e.ctl.visited) > 2000000 {
				v = nil // it is the state cache
				r.Note = "memory budget reached"
			} else {
				r.Choices = append([]int32(nil), e.choices...)
			}
			r.Violation = v
			json.NewEncoder(os.Stdout).Encode(r)
			os.Exit(0)
		}
		now := cpuTime()
		if beatExec != last || steps != lastSteps || e == nil || beats.Load() != lastBeat {
			last, lastSteps, since = beatExec, steps, now
			lastBeat = beats.Load()
			continue
		}
		if now-since > 25*time.Second {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			r := snapshot(out)
			r.Violation = &Violation{Kind: "hang", Msg: "a goroutine computes without end (25 s of CPU time without reaching another operation)", Extra: hangStack(string(buf[:n]))}
			r.Choices = append([]int32(nil), e.choices...)
			json.NewEncoder(os.Stdout).Encode(r)
			os.Exit(0)
		}
	}
}

// snapshot is what is certain of the result while the exploration goes on.
func snapshot(r *Result) *Result {
	return &Result{Scenario: r.Scenario, Shard: r.Shard, Executions: r.Executions, Steps: r.Steps, States: r.States, Pruned: r.Pruned, MaxSteps: r.MaxSteps}
}

var (
	lastBeat int64
	beats    atomic.Int64 // signs of life of a long loop
)

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, rss int64
	fmt.Sscan(string(b), &size, &rss)
	return rss * int64(os.Getpagesize())
}

func hangStack(s string) string {
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "[running") || strings.Contains(g, "[runnable") {
			if !strings.Contains(g, "watchdog") {
				return clip(g, 2000)
			}
		}
	}
	return ""
}

type replayDoc struct {
	Property string   `json:"property"`
	Group    string   `json:"group"`
	Scenario string   `json:"scenario"`
	Choices  []int32  `json:"choices"`
	Policy   int      `json:"policy"`
	Racy     []string `json:"racy"`
}

func replayFile(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, s := range scenarios {
		if s.Name != d.Scenario {
			continue
		}
		ctl := s.control()
		ctl.visited = nil
		ctl.policy = d.Policy
		ctl.racy = map[string]bool{}
		for _, r := range d.Racy {
			ctl.racy[r] = true
		}
		go watchdog(s, &Result{Scenario: s.Name})
		e := run(s, ctl, d.Choices, true)
		for _, l := range e.trace {
			fmt.Println(l)
		}
		if s.Opts.RaceFails && e.viol == nil && len(e.races) > 0 {
			var l []string
			for r := range e.races {
				l = append(l, r)
			}
			sort.Strings(l)
			e.viol = &Violation{Kind: "race", Msg: "data race: " + l[0]}
		}
		if e.diverge != "" {
			fmt.Println("DIVERGED:", e.diverge)
		}
		if e.viol != nil {
			fmt.Printf("REPLAY-VIOLATION %s: %s\n%s\n", e.viol.Kind, e.viol.Msg, e.viol.Extra)
		} else {
			fmt.Println("REPLAY-OK: no violation")
		}
		return
	}
	fmt.Fprintln(os.Stderr, "no such scenario", d.Scenario)
	os.Exit(3)
}
