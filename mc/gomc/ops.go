package gomc

import (
	"fmt"
	"runtime"
	"unsafe"
)

func chanPtr[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (e *Exec) chanOf(p unsafe.Pointer, keep any, cap int) *chanState {
	if p == nil {
		return nil
	}
	cs := e.chans[p]
	if cs == nil {
		cs = &chanState{keep: keep, cap: cap}
		e.chans[p] = cs
	}
	return cs
}

func enter() (*Exec, *Thread) {
	e := x
	if e == nil {
		panic("gomc: operation outside an execution")
	}
	if e.abort {
		runtime.Goexit()
	}
	return e, e.cur
}

// RecvC is a receive communication.
type RecvC[T any] struct{ Case }

// Val returns what was received.
func (c *RecvC[T]) Val() T {
	if c.val == nil {
		var z T
		return z
	}
	return c.val.(T)
}

// OK tells whether a value was received.
func (c *RecvC[T]) OK() bool { return c.ok }

func (c *RecvC[T]) raw() *Case { return &c.Case }

// SendC is a send communication.
type SendC struct{ Case }

func (c *SendC) raw() *Case { return &c.Case }

// Comm is a communication of a select.
type Comm interface{ raw() *Case }

func RecvCase[T any](ch <-chan T) *RecvC[T] {
	e, _ := enter()
	return &RecvC[T]{Case{cs: e.chanOf(chanPtr(ch), ch, cap(ch))}}
}

func SendCase[T any](ch chan<- T) func(v T) *SendC {
	e, _ := enter()
	return func(v T) *SendC {
		return &SendC{Case{send: true, cs: e.chanOf(chanPtr(ch), ch, cap(ch)), val: v}}
	}
}

// Select performs a select and returns the index of the case taken, -1 for default.
func Select(site string, hasDefault bool, comms ...Comm) int {
	e, t := enter()
	cases := make([]*Case, len(comms))
	for i, c := range comms {
		cases[i] = c.raw()
	}
	t.op = op{kind: opSelect, cases: cases, hasDef: hasDefault, site: site}
	e.block(t)
	return t.res
}

func Recv[T any](site string, ch <-chan T) T {
	c := RecvCase(ch)
	one(site, &c.Case)
	return c.Val()
}

func Recv2[T any](site string, ch <-chan T) (T, bool) {
	c := RecvCase(ch)
	one(site, &c.Case)
	return c.Val(), c.ok
}

func one(site string, c *Case) {
	e, t := enter()
	t.op = op{kind: opSelect, cases: []*Case{c}, site: site}
	e.block(t)
}

func SendTo[T any](site string, ch chan<- T) func(v T) {
	return func(v T) {
		e, _ := enter()
		one(site, &Case{send: true, cs: e.chanOf(chanPtr(ch), ch, cap(ch)), val: v})
	}
}

func Close[T any](site string, ch chan<- T) {
	e, t := enter()
	if ch == nil {
		panic(rtError("close of nil channel"))
	}
	t.op = op{kind: opClose, ch: e.chanOf(chanPtr(ch), ch, cap(ch)), site: site}
	e.block(t)
}

func Len[T any](site string, ch <-chan T) int {
	e, t := enter()
	if ch == nil {
		return 0
	}
	t.op = op{kind: opLen, ch: e.chanOf(chanPtr(ch), ch, cap(ch)), site: site}
	e.block(t)
	return t.resLen
}

// SelfBlock is `select {}`.
func SelfBlock(site string) {
	e, t := enter()
	t.op = op{kind: opWait, pred: func() bool { return false }, site: site}
	e.block(t)
}

func (o *Obj) fresh(e *Exec) {
	if o.epoch != e.epoch {
		*o = Obj{epoch: e.epoch}
	}
}

// InExec tells whether an execution is in progress.
func InExec() bool { return x != nil }

// Aborting tells whether the execution is being torn down.
func Aborting() bool { return x == nil || x.abort }

// Lock acquires o exclusively.
func Lock(o *Obj, site string) {
	if x == nil {
		return
	}
	e, t := enter()
	o.fresh(e)
	t.op = op{kind: opLock, obj: o, site: site}
	e.block(t)
}

// LockRW acquires o exclusively; from the moment it waits, no further shared
// lock is granted (as sync.RWMutex does).
func LockRW(o *Obj, site string) {
	if x == nil {
		return
	}
	PointNoHB(o, site+" (announced)")
	o.N++
	Lock(o, site)
	o.N--
}

// tryLock is the mark of a program that tries locks: the end of a locked
// region matters to it, and Unlock becomes a scheduling point.
const tryLock = "a lock is tried"

func tries() {
	if e := x; !e.ctl.racy[tryLock] {
		e.raceSites(tryLock, tryLock)
	}
}

func unlocking(o *Obj) {
	if e := x; e.ctl.racy[tryLock] && !e.abort {
		PointNoHB(o, "Unlock")
	}
}

func TryLock(o *Obj, site string) bool {
	if x == nil {
		return true
	}
	tries()
	PointIf(o, site, func() bool { return !o.holder && o.readers == 0 })
	if o.holder || o.readers > 0 {
		return false
	}
	o.holder = true
	return true
}

func TryRLock(o *Obj, site string) bool {
	if x == nil {
		return true
	}
	tries()
	PointIf(o, site, func() bool { return !o.holder })
	if o.holder {
		return false
	}
	o.readers++
	return true
}

func Unlock(o *Obj) {
	if x == nil || x.abort {
		return
	}
	unlocking(o)
	e, t := x, x.cur
	o.fresh(e)
	if !o.holder {
		panic(rtError("sync: unlock of unlocked mutex"))
	}
	o.holder = false
	o.vc = joinVC(o.vc, t.vc)
	t.h = mix(mix(t.h, 71), o.hist)
	o.hist = t.h
	if t.spin.on == any(o) {
		t.spin.hist = o.hist
	}
	t.tick()
	e.rehash(t)
}

func RLock(o *Obj, site string) {
	if x == nil {
		return
	}
	e, t := enter()
	o.fresh(e)
	t.op = op{kind: opRLock, obj: o, site: site}
	e.block(t)
}

func RUnlock(o *Obj) {
	if x == nil || x.abort {
		return
	}
	unlocking(o)
	e, t := x, x.cur
	o.fresh(e)
	if o.readers <= 0 {
		panic(rtError("sync: RUnlock of unlocked RWMutex"))
	}
	o.readers--
	// only a later Lock is ordered after this
	o.rvc = joinVC(o.rvc, t.vc)
	t.h = mix(mix(t.h, 73), o.hist)
	o.hist = t.h
	t.tick()
	e.rehash(t)
}

// WaitFor blocks until pred holds; the caller is then ordered after releases of o.
func WaitFor(o *Obj, site string, pred func() bool) {
	if x == nil {
		return
	}
	e, t := enter()
	if o != nil {
		o.fresh(e)
	}
	t.op = op{kind: opWait, obj: o, pred: pred, site: site}
	e.block(t)
}

// Release publishes the running thread's history to o without being a
// scheduling point (commutative when commute is set).
func Release(o *Obj, commute bool) {
	if x == nil || x.abort {
		return
	}
	e, t := x, x.cur
	o.fresh(e)
	o.vc = joinVC(o.vc, t.vc)
	if commute {
		t.h = mix(t.h, 79)
		o.hist += mix(t.h, 83)
	} else {
		t.h = mix(mix(t.h, 79), o.hist)
		o.hist = t.h
	}
	t.tick()
	e.rehash(t)
}

// Point is a visible operation on o (acquire and release).
func Point(o *Obj, site string) {
	if x == nil {
		return
	}
	e, t := enter()
	if o != nil {
		o.fresh(e)
	}
	t.op = op{kind: opPoint, obj: o, site: site}
	e.block(t)
}

// PointNoHB is Point, but creates no happens-before edge for race detection.
func PointNoHB(o *Obj, site string) {
	if x == nil {
		return
	}
	e, t := enter()
	if o != nil {
		o.fresh(e)
	}
	t.op = op{kind: opPoint, obj: o, site: site, noHB: true}
	e.block(t)
}

// PointIf is a Point that changes nothing if changes, looked at when it
// happens, is false (nil: never changes anything): only then does it depend on
// what others read, and a thread that repeats it is waiting for a change.
func PointIf(o *Obj, site string, changes func() bool) {
	if x == nil {
		return
	}
	e, t := enter()
	o.fresh(e)
	t.op = op{kind: opPoint, obj: o, site: site, read: true, pred: changes}
	e.block(t)
}

// PointReadNoHB is PointNoHB for something that changes nothing.
func PointReadNoHB(o *Obj, site string) {
	if x == nil {
		return
	}
	e, t := enter()
	o.fresh(e)
	t.op = op{kind: opPoint, obj: o, site: site, noHB: true, read: true}
	e.block(t)
}

// Step is a visible operation of its own: whatever follows in this thread can
// be delayed arbitrarily.
func Step(site string) { Point(nil, site) }

// Choose lets the explorer pick one of n environment answers.
func Choose(n int, site string) int {
	e, t := enter()
	if n <= 0 {
		panic("gomc: Choose(0)")
	}
	if n == 1 {
		return 0
	}
	t.op = op{kind: opChoose, n: n, site: site}
	e.block(t)
	return t.res
}

// Quiesce waits until nothing else can happen; it returns the goroutines that
// are still alive (blocked), daemons excluded.
func Quiesce() []string {
	e, t := enter()
	t.op = op{kind: opIdle, site: "quiesce"}
	e.block(t)
	// the observer is ordered after everything, also for race detection
	var left []string
	for _, o := range e.threads {
		if o == t {
			continue
		}
		t.vc = joinVC(t.vc, o.vc)
		if o.state != stDone && !o.daemon {
			left = append(left, fmt.Sprintf("%s at %s %s", o.name, opNames[o.op.kind], o.op.site))
		}
	}
	return left
}

// LowPrio is enabled only when nothing else can happen (but goes before Quiesce).
func LowPrio(site string) {
	e, t := enter()
	t.op = op{kind: opLowPrio, site: site}
	e.block(t)
}

// Pass waits for time to pass: it is enabled only when nothing else can happen
// and, unlike LowPrio, may come before or after the others that wait for that.
func Pass(site string) {
	e, t := enter()
	old := t.timer
	t.timer = true
	t.op = op{kind: opLowPrio, site: site}
	e.block(t)
	t.timer = old
}

// Count adds to a named counter reported as evidence.
func Count(name string, n int64) {
	if name == "beat" {
		beats.Add(n)
	} else if x != nil {
		x.counts[name] += n
	}
}

// Outcome records what this execution observed (distinct outcomes are counted).
func Outcome(s string) { x.outcome += s + ";" }

// Known records that the execution showed a listed defect: id names the entry
// of known_findings.json and what describes the failing input.
func Known(id, what string) {
	if x.known == nil {
		x.known = map[string]string{}
	}
	if _, ok := x.known[id]; !ok {
		x.known[id] = what
	}
}

// Trace adds a line to the trace of a replay.
func Trace(format string, args ...any) {
	if x != nil && x.tracing {
		x.trace = append(x.trace, "    "+fmt.Sprintf(format, args...))
	}
}

// Local returns the per-execution value for key, creating it with mk.
func Local(key any, mk func() any) any {
	if x == nil {
		return mk()
	}
	if x.locals == nil {
		x.locals = map[any]any{}
	}
	v, ok := x.locals[key]
	if !ok {
		v = mk()
		x.locals[key] = v
	}
	return v
}

// ThreadID returns the id of the running thread.
func ThreadID() int { return x.cur.id }

// HashValue mixes v into the running thread's history: to be used when the
// thread observed something the scheduler does not know about.
func HashValue(v uint64) {
	t := x.cur
	t.h = mix(t.h, v)
	x.rehash(t)
}

// WaitGroupAdd changes the counter of a wait group.
func WaitGroupAdd(o *Obj, delta int, site string) {
	e, t := enter()
	o.fresh(e)
	if delta > 0 {
		t.op = op{kind: opPoint, obj: nil, site: site}
		e.block(t)
	}
	o.N += delta
	if o.N < 0 {
		panic(rtError("sync: negative WaitGroup counter"))
	}
	if delta > 0 {
		// the history of the counter matters to whoever waits
		o.hist += mix(t.h, 89)
		return
	}
	Release(o, true)
}
