// Package gomc is a stateless model checker for Go code whose channel,
// goroutine, sync, atomic and (optionally) memory operations have been
// redirected to it by cmd/instr.
//
// Exactly one goroutine of the program under test runs at a time. A goroutine
// runs until it reaches a visible operation; when every goroutine has reached
// one, the scheduler enumerates the enabled transitions (a transition is a
// single operation, or a pair of operations that meet on an unbuffered
// channel) and the explorer decides which one is taken.
package gomc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

const (
	opNone = iota
	opSelect
	opClose
	opLen
	opLock    // exclusive lock
	opRLock   // shared lock
	opWait    // wait until pred
	opPoint   // always enabled, chained on obj
	opChoose  // environment nondeterminism
	opIdle    // enabled only when nothing else is (quiescence)
	opLowPrio // enabled only when nothing but opIdle is
)

var opNames = [...]string{"none", "chan", "close", "len", "lock", "rlock", "wait", "point", "choose", "quiesce", "lowprio"}

const (
	stRunnable = iota
	stPending
	stDone
)

// Case is one communication of a select (or of a single send / receive).
type Case struct {
	send bool
	cs   *chanState // nil for a nil channel
	val  any
	ok   bool
}

type item struct {
	val any
	vc  []uint32
}

type chanState struct {
	keep   any
	cap    int
	buf    []item
	closed bool
	hist   uint64
	vc     []uint32 // clock of the close, and of receives for buffered channels
	name   string
	offers []offer // who waits to send, as of the step offered
	when   int
}

type offer struct {
	t  *Thread
	ci int
}

// Obj is the model-checker side of a mutex, wait group, atomic, ...
type Obj struct {
	epoch   uint64
	hist    uint64
	vc      []uint32
	rvc     []uint32 // of RUnlocks
	holder  bool
	readers int
	N       int
}

type op struct {
	kind   int
	cases  []*Case
	hasDef bool
	ch     *chanState
	obj    *Obj
	pred   func() bool
	n      int
	site   string
	noHB   bool
	read   bool // changes nothing (if pred is there, when it is false)
}

// Thread is a goroutine of the program under test.
type Thread struct {
	id     int
	name   string
	wake   chan struct{}
	h      uint64
	vc     []uint32
	op     op
	state  int
	res    int
	resLen int
	pan    string
	age    int
	skips  int
	spin   spin
	spawns uint64
	daemon bool
	timer  bool // waits for time to pass
	dead   bool
	hc     uint64 // contribution to the state hash
}

type transition struct {
	t1, c1 int // c1 == -1: default / not a select
	t2, c2 int // t2 == -1: internal
	key    int
}

// spin is how often in a row a thread has done the same thing with the same
// result: a loop that waits for another thread.
type spin struct {
	on   any // *Obj or *chanState
	hist uint64
	n    int
}

// After this many a thread is not run again until that has changed or nothing
// else can happen (fairness).
const maxSpin = 8

func (t *Thread) spinning(on any, hist uint64) {
	if t.spin.on == on && t.spin.hist == hist {
		t.spin.n++
	} else {
		t.spin = spin{on, hist, 1}
	}
}

func (t *Thread) stalled() bool {
	if t.spin.n < maxSpin {
		return false
	}
	switch o := &t.op; o.kind {
	case opPoint:
		return o.read && t.spin.on == any(o.obj) && t.spin.hist == o.obj.hist && (o.pred == nil || !o.pred())
	case opLen:
		return t.spin.on == any(o.ch) && t.spin.hist == uint64(len(o.ch.buf))
	case opLock:
		return t.spin.n >= 4*maxSpin && t.spin.on == any(o.obj) && t.spin.hist == o.obj.hist
	}
	return false
}

// Violation describes why an execution is wrong.
type Violation struct {
	Kind  string `json:"kind"` // fail, panic, deadlock, horizon, race, hang
	Msg   string `json:"msg"`
	Extra string `json:"extra,omitempty"`
}

// Exec is one execution.
type Exec struct {
	epoch       uint64
	threads     []*Thread
	cur         *Thread
	chans       map[unsafe.Pointer]*chanState
	steps       int
	prefixSteps int
	done        chan struct{}
	abort       bool
	exited      chan struct{}

	choices []int32
	widths  []int32
	prefix  []int32
	costs   int
	ctl     *control

	viol     *Violation
	policy   int     // under which viol was found
	vchoices []int32 // with these choices
	pruned   bool
	diverge  string

	trace   []string
	tracing bool

	mem       map[uintptr]*shadow
	races     map[string]bool
	stHash    uint64
	known     map[string]string
	outcome   string
	racySites map[string]bool
	counts    map[string]int64
	locals    map[any]any
	spawned   int // goroutines started by the code under test
	overtakes int // low-priority threads that went before an older one
}

const maxOvertakes = 3

// control carries the exploration policy for an execution.
type control struct {
	fixed     bool // schedule is not explored, only Choose is
	policy    int  // in fixed mode: which schedule
	noSelectN bool // in fixed mode, also explore nothing about selects
	visited   map[uint64]int32
	maxDev    int // -1: unlimited
	horizon   int
	crowd     int // so many goroutines at once are too many
	trackMem  bool
	racy      map[string]bool // sites that are visible operations
	maxSkips  int
	mapOrder  bool
}

var x *Exec // the execution in progress
var epochCounter uint64

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 30
	a *= 0xbf58476d1ce4e5b9
	a ^= a >> 27
	a *= 0x94d049bb133111eb
	a ^= a >> 31
	return a
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func joinVC(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

func copyVC(a []uint32) []uint32 { return append([]uint32(nil), a...) }

func (e *Exec) newThread(name string, parent *Thread) *Thread {
	t := &Thread{id: len(e.threads), name: name, wake: make(chan struct{}, 1), state: stRunnable}
	if parent != nil {
		parent.spawns++
		t.h = mix(parent.h, 0x5eed+parent.spawns)
		t.vc = copyVC(parent.vc)
		parent.tick()
	} else {
		t.h = 1
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
	e.threads = append(e.threads, t)
	e.rehash(t)
	return t
}

func (t *Thread) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

func (e *Exec) rehash(t *Thread) {
	e.stHash -= t.hc
	s := t.h
	if t.skips != 0 {
		s = mix(s, uint64(t.skips))
	}
	if t.state == stDone {
		s = mix(s, 0xd00e)
	}
	t.hc = mix(s, 77)
	e.stHash += t.hc
}

// Go starts f as a new goroutine of the program under test.
func Go(site string, f func()) {
	e := x
	if e == nil {
		initGo = append(initGo, initThread{site, f}) // started by package initialisation
		return
	}
	if e.abort {
		runtime.Goexit()
	}
	t := e.newThread(site, e.cur)
	if !strings.HasPrefix(site, "harness/") {
		e.spawned++
		if e.ctl.policy != 0 {
			g := f
			f = func() { Point(&Obj{}, "start of "+site); g() }
		}
	}
	e.start(t, f)
}

type initThread struct {
	site string
	f    func()
}

var initGo []initThread

// GoDaemon is Go for harness goroutines that may stay blocked at the end.
func GoDaemon(name string, f func()) {
	e := x
	t := e.newThread(name, e.cur)
	t.daemon = true
	e.start(t, f)
}

func (e *Exec) start(t *Thread, f func()) {
	go func() {
		<-t.wake
		defer func() {
			if !e.abort {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					e.fail("panic", fmt.Sprintf("panic in %s: %v", t.name, r), trimStack(st))
				}
			} else {
				recover()
			}
			t.state = stDone
			t.dead = true
			if e.abort {
				e.exited <- struct{}{}
				return
			}
			e.rehash(t)
			e.next(t)
		}()
		if e.abort {
			return
		}
		f()
	}()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "gomc.") || strings.Contains(lines[i], "runtime") || strings.Contains(lines[i], "debug.Stack") {
			continue
		}
		if strings.HasPrefix(lines[i], "\t") {
			continue
		}
		if i > 0 && strings.Contains(lines[i], "(") {
			loc := strings.TrimSpace(lines[i+1])
			if j := strings.Index(loc, " +0x"); j > 0 {
				loc = loc[:j]
			}
			out = append(out, lines[i]+" at "+loc)
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

func (e *Exec) fail(kind, msg, extra string) {
	if e.viol == nil && !e.abort {
		e.viol = &Violation{Kind: kind, Msg: msg, Extra: extra}
	}
}

// Fail reports a violation of the property by the current execution and ends it.
func Fail(format string, args ...any) {
	if x.abort {
		runtime.Goexit()
	}
	x.fail("fail", fmt.Sprintf(format, args...), "")
	if x.tracing {
		x.trace = append(x.trace, "FAIL "+x.viol.Msg)
	}
	x.stop(x.cur)
}

// stop ends the execution from thread t.
func (e *Exec) stop(t *Thread) {
	e.finish()
	<-t.wake
	runtime.Goexit()
}

func (e *Exec) finish() {
	e.done <- struct{}{}
}

// block is called by the running thread, whose pending operation is set.
func (e *Exec) block(t *Thread) {
	t.state = stPending
	t.age = e.steps
	if !e.next(t) {
		<-t.wake
	}
	if e.abort {
		runtime.Goexit()
	}
	if t.pan != "" {
		p := t.pan
		t.pan = ""
		panic(rtError(p))
	}
}

type rtError string

func (r rtError) Error() string { return string(r) }
func (r rtError) RuntimeError() {}

// next picks what runs next. It returns true if the calling thread itself goes
// on; otherwise control has been handed to another thread (or the execution
// has ended).
func (e *Exec) next(me *Thread) bool {
	for {
		if e.viol != nil {
			e.finish()
			return false
		}
		for _, t := range e.threads {
			if t.state == stRunnable {
				e.cur = t
				if t == me {
					return true
				}
				t.wake <- struct{}{}
				return false
			}
		}
		if !e.step() {
			e.finish()
			return false
		}
	}
}

var trbuf []transition

var offering int // which call of enabled it is

// step takes one transition; it returns false when the execution has ended.
func (e *Exec) step() bool {
	// Environment choices first: they are local to their thread.
	for _, t := range e.threads {
		if t.state == stPending && t.op.kind == opChoose {
			k, ok := e.decide(t.op.n, true)
			if !ok {
				return false
			}
			t.res = k
			t.h = mix(mix(t.h, 0xc4), uint64(k))
			e.resume(t)
			if e.tracing {
				e.trace = append(e.trace, fmt.Sprintf("[%d %s] choose %d of %d (%s)", t.id, t.name, k, t.op.n, t.op.site))
			}
			return true
		}
	}
	trs := e.enabled()
	if len(trs) == 0 {
		return e.quiesce()
	}
	if e.steps >= e.ctl.horizon {
		e.fail("horizon", fmt.Sprintf("no end after %d steps; running: %s", e.steps, e.describe()), "")
		return false
	}
	if n := len(e.threads); n > e.ctl.crowd && e.steps%100 == 0 {
		live := 0
		for _, t := range e.threads {
			if t.state != stDone {
				live++
			}
		}
		if live > e.ctl.crowd {
			e.fail("horizon", fmt.Sprintf("%d goroutines and more and more are started (%s)", live, e.threads[n-1].name), "")
			return false
		}
	}
	if len(trs) > 1 {
		sort.SliceStable(trs, func(i, j int) bool { return trs[i].key < trs[j].key })
	}
	k := 0
	if len(trs) > 1 && e.ctl.policy != 0 {
		k = e.byPolicy(trs)
	}
	if len(trs) > 1 && !e.ctl.fixed {
		var ok bool
		k, ok = e.decide(len(trs), false)
		if !ok {
			return false
		}
	}
	e.steps++
	e.apply(trs[k])
	return true
}

// Policies of the fixed mode: with 0, whatever has been waiting longest goes
// first. When the code under test starts goroutines of its own, inputs are also
// run under the others: last come first served, oldest goroutines first, newest
// goroutines first (all of them fair in the long run).
const policies = 4

func (e *Exec) byPolicy(trs []transition) int {
	best := 0
	val := func(tr transition) int {
		id := tr.t1
		if tr.t2 > id {
			id = tr.t2
		}
		switch e.ctl.policy {
		case 1:
			return tr.key
		case 2:
			return -id
		}
		return id
	}
	for i, tr := range trs {
		if tr.key+1000 < e.steps {
			return i
		}
		if val(tr) > val(trs[best]) {
			best = i
		}
	}
	return best
}

// quiesce wakes a thread waiting for quiescence, or ends the execution.
func (e *Exec) quiesce() bool {
	for _, t := range e.threads {
		if t.state == stPending && t.op.kind == opIdle {
			t.h = mix(t.h, 0x1d1e)
			// whoever observes quiescence is ordered after everything
			for _, o := range e.threads {
				if o != t {
					t.h = mix(t.h, o.h)
				}
			}
			e.steps++
			e.resume(t)
			if e.tracing {
				e.trace = append(e.trace, fmt.Sprintf("[%d %s] quiescent (%s)", t.id, t.name, t.op.site))
			}
			return true
		}
	}
	if m := e.threads[0]; m.state != stDone {
		e.fail("deadlock", "stuck: "+e.describe(), "")
	}
	return false
}

func (e *Exec) describe() string {
	var s []string
	for _, t := range e.threads {
		if t.state == stPending && !(t.daemon) {
			s = append(s, fmt.Sprintf("%s at %s %s", t.name, opNames[t.op.kind], t.op.site))
		}
	}
	return strings.Join(s, "; ")
}

func (e *Exec) decide(n int, env bool) (int, bool) {
	i := len(e.choices)
	k := 0
	if i == len(e.prefix)-1 {
		e.prefixSteps = e.steps
	}
	if i < len(e.prefix) {
		k = int(e.prefix[i])
		if k >= n && e.ctl.policy != 0 {
			k = n - 1 // the same choices, as far as possible
		}
		if k >= n {
			e.diverge = fmt.Sprintf("replay diverged at choice %d: %d of %d", i, k, n)
			return 0, false
		}
	} else if e.ctl.visited != nil && n > 1 {
		rem := int32(1 << 30)
		if e.ctl.maxDev >= 0 {
			rem = int32(e.ctl.maxDev - e.costs)
		}
		key := mix(e.stHash, uint64(n))
		if old, seen := e.ctl.visited[key]; seen && old >= rem {
			e.pruned = true
			return 0, false
		}
		e.ctl.visited[key] = rem
	}
	if n > 1 && !env && k > 0 {
		e.costs++
	}
	e.choices = append(e.choices, int32(k))
	w := int32(n)
	if !env && e.ctl.maxDev >= 0 {
		// width is limited to the default when the budget is used up
		base := e.costs
		if k > 0 {
			base--
		}
		if base >= e.ctl.maxDev {
			w = 1
			if k > 0 {
				w = int32(k + 1)
			}
		}
	}
	e.widths = append(e.widths, w)
	return k, true
}

func (e *Exec) resume(t *Thread) {
	t.state = stRunnable
	t.tick()
	e.rehash(t)
}

func (e *Exec) enabled() []transition {
	trs := trbuf[:0]
	low, stalled := -1, -1
	timers := false
	offering++
	for _, t := range e.threads {
		if t.state == stPending && t.op.kind == opSelect {
			for ci, c := range t.op.cases {
				if c.send && c.cs != nil && c.cs.cap == 0 {
					if c.cs.when != offering {
						c.cs.when, c.cs.offers = offering, c.cs.offers[:0]
					}
					c.cs.offers = append(c.cs.offers, offer{t, ci})
				}
			}
		}
	}
	for _, t := range e.threads {
		if t.state != stPending {
			continue
		}
		if t.spin.n >= maxSpin && t.stalled() {
			if (t.op.kind != opLock || !t.op.obj.holder && t.op.obj.readers == 0) && (stalled < 0 || e.threads[stalled].age > t.age) {
				stalled = t.id
			}
			continue
		}
		switch t.op.kind {
		case opSelect:
			ready := false
			forced := false // a case is ready without any other thread being involved
			for ci, c := range t.op.cases {
				cs := c.cs
				if cs == nil {
					continue
				}
				if c.send {
					if cs.closed {
						trs = append(trs, transition{t.id, ci, -1, 0, t.age})
						ready, forced = true, true
					} else if cs.cap > 0 {
						if len(cs.buf) < cs.cap {
							trs = append(trs, transition{t.id, ci, -1, 0, t.age})
							ready, forced = true, true
						}
					} else if t.op.hasDef || len(t.op.cases) >= 1 {
						// pairs are listed from the receiving side; here only readiness matters
						if t.op.hasDef && e.hasPartner(t, cs, false) {
							ready = true
						}
					}
					continue
				}
				if len(cs.buf) > 0 || cs.closed {
					trs = append(trs, transition{t.id, ci, -1, 0, t.age})
					ready, forced = true, true
					continue
				}
				if cs.cap == 0 && cs.when == offering {
					for _, o := range cs.offers {
						s := o.t
						if s == t || s.op.hasDef && t.op.hasDef {
							continue
						}
						key := t.age
						if s.age > key {
							key = s.age
						}
						trs = append(trs, transition{t.id, ci, s.id, o.ci, key})
						ready = true
					}
				}
			}
			if t.op.hasDef && !forced && !(ready && t.skips >= e.ctl.maxSkips) {
				trs = append(trs, transition{t.id, -1, -1, boolInt(ready), t.age})
			}
		case opLock:
			if !t.op.obj.holder && t.op.obj.readers == 0 {
				trs = append(trs, transition{t.id, -1, -1, 0, t.age})
			}
		case opRLock:
			if !t.op.obj.holder && t.op.obj.N == 0 {
				trs = append(trs, transition{t.id, -1, -1, 0, t.age})
			}
		case opWait:
			if t.op.pred() {
				trs = append(trs, transition{t.id, -1, -1, 0, t.age})
			}
		case opClose, opLen, opPoint:
			trs = append(trs, transition{t.id, -1, -1, 0, t.age})
		case opLowPrio:
			if low < 0 || e.threads[low].age > t.age {
				low = t.id
			}
			timers = timers || t.timer
		}
	}
	if len(trs) == 0 && low >= 0 {
		trs = append(trs, transition{low, -1, -1, 0, 0})
		// the oldest goes first; how long a timer takes is open, but it must
		// not put off the others for ever
		if timers && e.overtakes < maxOvertakes {
			for _, t := range e.threads {
				if t.id != low && t.state == stPending && t.op.kind == opLowPrio && (t.timer || e.threads[low].timer) {
					trs = append(trs, transition{t.id, -1, -1, 1, 1 + t.age})
				}
			}
		}
	}
	if len(trs) == 0 && stalled >= 0 {
		trs = append(trs, transition{stalled, -1, -1, 0, 0})
	}
	trbuf = trs
	return trs
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// hasPartner: is some other thread pending with the opposite direction on cs?
func (e *Exec) hasPartner(t *Thread, cs *chanState, wantSend bool) bool {
	for _, s := range e.threads {
		if s == t || s.state != stPending || s.op.kind != opSelect || s.op.hasDef {
			continue
		}
		for _, sc := range s.op.cases {
			if sc.cs == cs && sc.send == wantSend {
				return true
			}
		}
	}
	return false
}

func (e *Exec) apply(tr transition) {
	t := e.threads[tr.t1]
	if k := t.op.kind; t.spin.n > 0 && !(k == opPoint && t.op.read) && k != opLen && k != opLock {
		t.spin = spin{}
	}
	if e.tracing {
		defer func() { e.trace = append(e.trace, e.traceLine(tr)) }()
	}
	o := &t.op
	switch o.kind {
	case opSelect:
		t.res = tr.c1
		if tr.c1 < 0 {
			if tr.c2 == 1 {
				t.skips++
			}
			t.h = mix(t.h, 0xdef)
			e.resume(t)
			return
		}
		c := o.cases[tr.c1]
		cs := c.cs
		if tr.t2 >= 0 {
			s := e.threads[tr.t2]
			sc := s.op.cases[tr.c2]
			c.val, c.ok = sc.val, true
			s.res = tr.c2
			th, sh := t.h, s.h
			t.h = mix(mix(th, uint64(tr.c1)+11), sh)
			s.h = mix(mix(sh, uint64(tr.c2)+17), th)
			t.vc = joinVC(t.vc, s.vc)
			s.vc = joinVC(s.vc, t.vc)
			e.resume(t)
			e.resume(s)
			return
		}
		if c.send {
			if cs.closed {
				t.pan = "send on closed channel"
				t.h = mix(t.h, 0xbad)
				e.resume(t)
				return
			}
			cs.buf = append(cs.buf, item{c.val, copyVC(t.vc)})
			t.vc = joinVC(t.vc, cs.vc)
			t.h = mix(mix(t.h, uint64(tr.c1)+23), cs.hist)
			cs.hist = t.h
			e.resume(t)
			return
		}
		if len(cs.buf) > 0 {
			it := cs.buf[0]
			cs.buf = cs.buf[1:]
			c.val, c.ok = it.val, true
			t.vc = joinVC(t.vc, it.vc)
			cs.vc = joinVC(cs.vc, t.vc)
			t.h = mix(mix(t.h, uint64(tr.c1)+29), cs.hist)
			cs.hist = t.h
			e.resume(t)
			return
		}
		// closed
		c.val, c.ok = nil, false
		t.vc = joinVC(t.vc, cs.vc)
		t.h = mix(mix(t.h, uint64(tr.c1)+31), cs.hist)
		e.resume(t)
	case opClose:
		cs := o.ch
		if cs.closed {
			t.pan = "close of closed channel"
		} else {
			cs.closed = true
			cs.vc = joinVC(cs.vc, t.vc)
			t.h = mix(mix(t.h, 37), cs.hist)
			cs.hist = t.h
		}
		e.resume(t)
	case opLen:
		t.resLen = len(o.ch.buf)
		t.spinning(o.ch, uint64(t.resLen))
		t.h = mix(mix(t.h, 41), uint64(t.resLen))
		e.resume(t)
	case opLock:
		o.obj.holder = true
		if t.spin.on == any(o.obj) && t.spin.hist == o.obj.hist {
			t.spin.n++ // its hist is noted when it is unlocked
		} else {
			t.spin = spin{on: o.obj, n: 1}
		}
		t.vc = joinVC(t.vc, o.obj.vc)
		t.vc = joinVC(t.vc, o.obj.rvc)
		t.h = mix(mix(t.h, 43), o.obj.hist)
		o.obj.hist = t.h
		e.resume(t)
	case opRLock:
		o.obj.readers++
		t.vc = joinVC(t.vc, o.obj.vc)
		t.h = mix(mix(t.h, 47), o.obj.hist)
		o.obj.hist = t.h
		e.resume(t)
	case opWait:
		if o.obj != nil {
			t.vc = joinVC(t.vc, o.obj.vc)
			t.h = mix(mix(t.h, 53), o.obj.hist)
		} else {
			t.h = mix(t.h, 53)
		}
		e.resume(t)
	case opPoint:
		if o.read && (o.pred == nil || !o.pred()) {
			t.h = mix(mix(t.h, 73), o.obj.hist)
			if !o.noHB {
				t.vc = joinVC(t.vc, o.obj.vc)
			}
			t.spinning(o.obj, o.obj.hist)
			e.resume(t)
			return
		}
		if o.obj != nil {
			t.h = mix(mix(t.h, 59), o.obj.hist)
			o.obj.hist = t.h
			if !o.noHB {
				t.vc = joinVC(t.vc, o.obj.vc)
				o.obj.vc = joinVC(o.obj.vc, t.vc)
			}
		} else {
			t.h = mix(t.h, 61)
		}
		e.resume(t)
	case opLowPrio:
		t.h = mix(t.h, 67)
		if tr.c2 == 1 {
			e.overtakes++
			t.h = mix(t.h, 68)
		}
		e.resume(t)
	}
}

func (e *Exec) traceLine(tr transition) string {
	t := e.threads[tr.t1]
	d := func(t *Thread, ci int) string {
		if t.op.kind != opSelect {
			return opNames[t.op.kind] + " " + t.op.site
		}
		if ci < 0 {
			return "default " + t.op.site
		}
		c := t.op.cases[ci]
		k := "recv"
		if c.send {
			k = "send"
		}
		return fmt.Sprintf("%s #%d %s", k, ci, t.op.site)
	}
	s := fmt.Sprintf("[%d %s] %s", t.id, t.name, d(t, tr.c1))
	if tr.t2 >= 0 {
		o := e.threads[tr.t2]
		s += fmt.Sprintf("  <-  [%d %s] %s", o.id, o.name, d(o, tr.c2))
	}
	return s
}
