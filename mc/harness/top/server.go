package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strings"

	"github.com/WatchBeam/rtmp"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/server"

	"verif/mc/gomc"
	"verif/mc/hlib"
	"verif/mc/vnet"
)

// listener answers Accept with what the harness has queued.
type listener struct {
	outcomes []outcome
	n        int // accepted or failed so far
	closed   bool
	closes   int
	after    int // calls of Accept that fail because it is closed
	wrap     bool
	obj      gomc.Obj
	conns    []net.Conn
	errs     []error
	addr     net.Addr
}

type outcome struct {
	conn net.Conn
	err  error
}

func (l *listener) closedErr() error {
	if l.wrap {
		return &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	return net.ErrClosed
}

func (l *listener) Accept() (net.Conn, error) {
	gomc.PointNoHB(&l.obj, "accept")
	if l.n == len(l.outcomes) && !l.closed {
		gomc.WaitFor(&l.obj, "accept with nothing to accept", func() bool { return l.closed })
	}
	if l.closed {
		l.after++
		if l.after > 1 {
			gomc.LowPrio("accept on a closed listener")
		}
		if l.after > 3 {
			gomc.Fail("a closed listener was asked %d times", l.after)
		}
		l.errs = append(l.errs, l.closedErr())
		return nil, l.closedErr()
	}
	o := l.outcomes[l.n]
	l.n++
	if o.err != nil {
		l.errs = append(l.errs, o.err)
		return nil, o.err
	}
	l.conns = append(l.conns, o.conn)
	return o.conn, nil
}

var errClose = errors.New("close failure")

func (l *listener) Close() error {
	gomc.PointNoHB(&l.obj, "close listener")
	l.closes++
	l.closed = true
	gomc.Release(&l.obj, false)
	if l.wrap {
		return errClose
	}
	return nil
}

func (l *listener) Addr() net.Addr { return l.addr }

// fakeConn is a connection of which only the identity matters.
type fakeConn struct {
	net.Conn
	n int
}

func (f *fakeConn) Read([]byte) (int, error)    { return 0, io.EOF }
func (f *fakeConn) Write(p []byte) (int, error) { return len(p), nil }

// accepting: a server accepts what the listener has, is closed at any moment.
func accepting(n int, split, wrap bool) func() {
	return func() {
		var what []int
		for i := 0; i < n; i++ {
			what = append(what, gomc.Choose(3, "outcome"))
		}
		accept(what, split, wrap, false)
	}
}

// acceptHistory: many connections and errors.
func acceptHistory() {
	n := pick("outcomes", 1, 2, 9, 17, 33, 70, 140, 300)
	slow = gomc.Choose(2, "slow application") == 1
	defer func() { slow = false }()
	split, wrap, late := gomc.Choose(2, "split") == 1, gomc.Choose(2, "wrapped") == 1, gomc.Choose(2, "closed when idle") == 1
	mode := gomc.Choose(4, "order")
	var what []int
	for i := 0; i < n; i++ {
		what = append(what, []int{0, i % 3, (i / 10) % 3, 1 + i%2}[mode])
	}
	if n > 140 && (split || wrap || slow) {
		return
	}
	accept(what, split, wrap, late)
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

// acceptKinds: failures of every kind, also the same again and again.
func acceptKinds() {
	errs := hlib.Accepting()
	e := 10 + gomc.Choose(len(errs), "error")
	split, late := gomc.Choose(2, "split") == 1, gomc.Choose(2, "closed when idle") == 1
	what := pick("outcomes", []int{e, 0, e, e, 0, 0, e}, []int{0, e, 1, e, 0}, []int{e, e, e, e, e, e, e, e, e, e, e, e, 0}, []int{e, 2, e})
	accept(what, split, false, late)
	gomc.Count("evaluations", 1)
}

// goroutinesOfAClient are what a new client leaves waiting for its streams.
func goroutinesOfAClient() map[string]int {
	client.New(&fakeConn{})
	n := map[string]int{}
	for _, t := range gomc.Quiesce() {
		n[t]++
	}
	return n
}

func accept(what []int, split, wrap, late bool) {
	{
		perClient := goroutinesOfAClient()
		l := &listener{wrap: wrap}
		for i, o := range what {
			switch o {
			case 0:
				l.outcomes = append(l.outcomes, outcome{conn: &fakeConn{n: i + 1}})
			case 1:
				l.outcomes = append(l.outcomes, outcome{err: fmt.Errorf("e%d", i+1)})
			case 2: // an error that looks temporary
				l.outcomes = append(l.outcomes, outcome{err: &net.OpError{Op: "accept", Net: fmt.Sprint("e", i+1), Err: errors.New("too many open files")}})
			default: // one of any kind, perhaps not the only one like it
				l.outcomes = append(l.outcomes, outcome{err: hlib.Accepting()[o-10]})
			}
		}
		var addr string
		vnet.SetBackend(func(network, address string) (vnet.Listener, error) {
			addr = network + " " + address
			return l, nil
		})
		s, err := server.New(":1935")
		if err != nil || s == nil || addr != "tcp :1935" {
			gomc.Fail("listening on %s: %v", addr, err)
		}
		var clients []*client.Client
		var errs []error
		returned, closed := false, false
		var closeErr error
		gomc.Go("harness/accept", func() {
			s.Accept()
			if !l.closed {
				gomc.Fail("Accept ended before the server was closed, after %d accept outcomes of %d, the last errors being %q", l.n, len(what), l.errs)
			}
			returned = true
		})
		if split {
			gomc.GoDaemon("clients", func() {
				for {
					if slow {
						hlib.Slow("slow application")
					}
					c, ok := <-s.Clients()
					if !ok {
						return
					}
					clients = append(clients, c)
				}
			})
			gomc.GoDaemon("errors", func() {
				for {
					if slow {
						hlib.Slow("slow application")
					}
					e, ok := <-s.Errs()
					if !ok {
						return
					}
					errs = append(errs, e)
				}
			})
		} else {
			gomc.GoDaemon("application", func() {
				cc, ec := s.Clients(), s.Errs()
				for cc != nil || ec != nil {
					if slow {
						hlib.Slow("slow application")
					}
					select {
					case c, ok := <-cc:
						if !ok {
							cc = nil
							continue
						}
						clients = append(clients, c)
					case e, ok := <-ec:
						if !ok {
							ec = nil
							continue
						}
						errs = append(errs, e)
					}
				}
			})
		}
		gomc.Go("harness/close", func() {
			gomc.Step("decide to close")
			if late {
				gomc.LowPrio("decide to close")
			}
			closeErr = s.Close()
			closed = true
		})
		var left []string
		have := map[string]int{}
		for _, t := range gomc.Quiesce() {
			// what belongs to the clients handed out, and to the one made above
			if have[t]++; have[t] > perClient[t]*(len(clients)+1) {
				left = append(left, t)
			}
		}
		if !returned || !closed || len(left) > 0 {
			gomc.Fail("after Close (returned: %v) Accept has not ended (%v): %s", closed, returned, strings.Join(left, "; "))
		}
		if late && !slow && l.n < len(what) {
			gomc.Fail("nothing can happen any more, and %d of %d connections and errors were accepted", l.n, len(what))
		}
		if wrap != (closeErr != nil) || wrap && closeErr != errClose {
			gomc.Fail("Close returned %v", closeErr)
		}
		if l.closes < 1 || l.after > 1 {
			gomc.Fail("the listener was closed %d times and asked %d times afterwards", l.closes, l.after)
		}
		if len(clients) != len(l.conns) {
			gomc.Fail("%d connections accepted, %d clients handed out", len(l.conns), len(clients))
		}
		twice := map[*client.Client]bool{}
		for i, c := range clients {
			if c == nil || c.Conn != io.ReadWriter(l.conns[i]) {
				gomc.Fail("client %d is not bound to the connection accepted as number %d", i+1, i+1)
			}
			if twice[c] {
				gomc.Fail("a client was handed out twice")
			}
			twice[c] = true
		}
		want := l.errs
		if n := len(want); n > 0 && errors.Is(want[n-1], net.ErrClosed) && len(errs) == n-1 {
			want = want[:n-1] // the closing itself may be reported or not
		}
		same := len(errs) == len(want)
		for i := 0; same && i < len(want); i++ {
			same = errs[i] != nil && (errors.Is(errs[i], want[i]) || errors.Is(want[i], net.ErrClosed) && errors.Is(errs[i], net.ErrClosed) || strings.Contains(errs[i].Error(), want[i].Error()) && want[i].Error() != "")
		}
		if !same {
			gomc.Fail("accepting failed with %q, reported was %q", want, errs)
		}
		gomc.Outcome(fmt.Sprint(len(clients), errs))
	}
}

// listening: what asking for a server gives.
func listening() {
	addr := pick("address", "", ":1935", "127.0.0.1:0", "256.256.256.256:1234", "[::1]:80", "nonsense")
	fail := gomc.Choose(2, "listening fails") == 1
	calls := 0
	l := &listener{}
	vnet.SetBackend(func(network, address string) (vnet.Listener, error) {
		calls++
		if network != "tcp" || address != addr {
			gomc.Fail("listening on %s %q instead of tcp %q", network, address, addr)
		}
		if fail {
			return nil, errClose
		}
		return l, nil
	})
	mk := pick("constructor", server.New, rtmp.NewServer)
	s, err := mk(addr)
	if calls != 1 {
		gomc.Fail("%d calls of Listen", calls)
	}
	if fail {
		if s != nil || err != errClose {
			gomc.Fail("listening failed; server %v, error %v", s, err)
		}
		return
	}
	if s == nil || err != nil {
		gomc.Fail("listening succeeded; server %v, error %v", s, err)
	}
	if err := s.Close(); err != nil || l.closes != 1 || !l.closed {
		gomc.Fail("closing a server that does not accept: %v", err)
	}
	gomc.Count("evaluations", 1)
}

func init() {
	R := gomc.Register
	R(gomc.Scenario{Prop: "C23", Name: "c23-listen", Tier: "quick", Opts: gomc.Opts{Fixed: true}, Body: listening,
		Bound: "6 addresses, listening succeeds or fails, server.New and rtmp.NewServer"})
	R(gomc.Scenario{Prop: "C23", Name: "c23-history", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 8}, Body: acceptHistory,
		Bound: "1-300 accept outcomes in 4 orders, taken in 4 ways, closed at once or when idle; default schedule"})
	R(gomc.Scenario{Prop: "C23", Name: "c23-kinds", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: len(hlib.Accepting())}, Body: acceptKinds,
		Bound: fmt.Sprintf("%d kinds of failure (timeouts, temporary, wrapped, of the system...), 4 orders of it and connections, the same failure up to 12 times; taken in 2 ways, closed at once or when idle; default schedule", len(hlib.Accepting()))})
	R(gomc.Scenario{Prop: "C23", Name: "c23-slow-one", Tier: "quick", Opts: gomc.Opts{Mem: true}, Body: lazily(accepting(3, false, false)),
		Bound: "all sequences of 3 accept outcomes, a slow application, closed at any moment; all schedules"})
	R(gomc.Scenario{Prop: "C23", Name: "c23-slow-two", Tier: "quick", Opts: gomc.Opts{Mem: true}, Body: lazily(accepting(3, true, true)),
		Bound: "all sequences of 3 accept outcomes, taken by two slow goroutines, closed at any moment; all schedules"})
	for _, split := range []bool{false, true} {
		for _, wrap := range []bool{false, true} {
			n := fmt.Sprintf("%v-%v", map[bool]string{false: "one", true: "two"}[split], map[bool]string{false: "plain", true: "wrapped"}[wrap])
			b := "all sequences of %d accept outcomes (connection, error, temporary error), clients and errors taken by " +
				map[bool]string{false: "one goroutine", true: "two goroutines"}[split] + ", closed at any moment; all schedules"
			R(gomc.Scenario{Prop: "C23", Name: "c23-accept-" + n, Tier: "quick", Opts: gomc.Opts{Mem: true}, Body: accepting(3, split, wrap), Bound: fmt.Sprintf(b, 3)})
			R(gomc.Scenario{Prop: "C23", Name: "c23-accept5-" + n, Tier: "quick", Opts: gomc.Opts{Mem: true}, Body: accepting(5, split, wrap), Bound: fmt.Sprintf(b, 5)})
		}
	}
}
