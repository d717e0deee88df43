package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"iter"
	"sync"
	"sync/atomic"
	"time"

	"verif/mc/gomc"
)

// Language constructs: each program must behave as Go prescribes after the
// instrumentation.

type list[T any] struct {
	mu    sync.Mutex
	items []T
	next  *list[T]
}

func (l *list[T]) add(v T) { l.mu.Lock(); defer l.mu.Unlock(); l.items = append(l.items, v) }
func (l *list[T]) all() iter.Seq2[int, T] {
	return func(yield func(int, T) bool) {
		for i, v := range l.items {
			if !yield(i, v) {
				return
			}
		}
	}
}

func mapped[K comparable, V any, R any](m map[K]V, f func(K, V) R) []R {
	var out []R
	for k, v := range m {
		out = append(out, f(k, v))
	}
	return out
}

func chanOf[T any, C ~chan T](c C, vs ...T) C {
	go func() {
		defer close(c)
		for _, v := range vs {
			c <- v
		}
	}()
	return c
}

type embedded struct {
	sync.RWMutex
	*bytes.Buffer
	arr  [4]int
	m    map[string][]int
	fn   func(int) int
	sub  struct{ a, b int }
	ptrs []*int
}

type signal chan struct{}

type shape interface{ area() int }
type square struct{ s int }
type rect struct{ w, h int }

func (s square) area() int { return s.s * s.s }
func (r *rect) area() int  { return r.w * r.h }

var (
	pkgMap   = map[string]int{"a": 1}
	pkgPair  = func() (x, y int) { return 1, 2 }
	pa, pb   = pkgPair()
	pkgArr   = [...]int{2: 5, 1: 4}
	pkgOnce  sync.Once
	pkgAtom  atomic.Int32
	pkgLater = pa + len(pkgMap)
)

func named() (n int, err error) {
	defer func() {
		if r := recover(); r != nil {
			n, err = n+1, fmt.Errorf("recovered: %v", r)
		}
	}()
	n = 41
	var m map[string]int
	m["x"] = 1
	return 0, nil
}

func expect(what string, got, want any) {
	if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
		gomc.Fail("%s: got %s, want %s", what, g, w)
	}
}

func init() {
	mem := gomc.Opts{Mem: true}
	race := gomc.Opts{Mem: true, RaceFails: true}

	reg("ok", "go-values", "1", race, func() {
		l := &list[string]{next: &list[string]{}}
		for i := range 3 {
			l.add(fmt.Sprint(i))
		}
		l.next.add("z")
		s := ""
		for i, v := range l.all() {
			if i == 2 {
				break
			}
			s += v
		}
		expect("range over func", s, "01")
		e := &embedded{Buffer: new(bytes.Buffer), m: map[string][]int{}}
		e.Lock()
		e.arr[1]++
		e.arr[e.arr[1]] += 5
		e.m["a"] = append(e.m["a"], 1, 2)
		e.m["a"][0]++
		e.sub.a, e.sub.b = 1, 2
		e.sub.a, e.sub.b = e.sub.b, e.sub.a
		p := &e.sub.a
		*p <<= 3
		e.fn = func(n int) int {
			if n == 0 {
				return 1
			}
			return n * e.fn(n-1)
		}
		e.WriteString("abc")
		e.Unlock()
		e.RLock()
		expect("struct", fmt.Sprint(e.arr, e.m, e.sub, e.fn(4), e.String()), "[0 6 0 0] map[a:[2 2]] {16 1} 24abc")
		e.RUnlock()
		for i, v := range e.arr {
			e.ptrs = append(e.ptrs, &v)
			*e.ptrs[i] += i
		}
		expect("per-iteration variables", *e.ptrs[0]**e.ptrs[1]+*e.ptrs[3], 3)
		a := [3]int{1, 2, 3}
		b := a
		for i, v := range a {
			a[2] = 10
			b[i] = v
		}
		expect("range copies arrays", b, [3]int{1, 2, 3})
		sl := a[:2:2]
		sl = append(sl, 7)
		expect("append", fmt.Sprint(a, sl, min(3, 1, 2), max(1, 2)), "[1 2 10] [1 2 7] 1 2")
		sl2 := append([]int(nil), sl...)
		clear(sl)
		expect("clear", fmt.Sprint(sl, sl2), "[0 0 0] [1 2 7]")
		by := append([]byte("x"), "yz"...)
		expect("append string", string(by), "xyz")
		arr := [4]byte(append(by, 'q'))
		expect("to array", string(arr[:]), "xyzq")
		n, err := named()
		expect("named results", fmt.Sprint(n, err != nil), "42 true")
		var shapes []shape = []shape{square{3}, &rect{2, 3}, nil}
		t := 0
		for _, sh := range shapes {
			switch sh := sh.(type) {
			case square:
				t += sh.area()
			case *rect:
				sh.w++
				t += sh.area()
			case nil:
				t *= 2
			}
		}
		expect("type switch", t, 36)
		f := (*rect).area
		g := shapes[0].area
		expect("method values", f(&rect{1, 2})+g(), 11)
		expect("package variables", fmt.Sprint(pa, pb, pkgArr, pkgLater), "1 2 [0 4 5] 2")
		pkgMap["b"]++
		delete(pkgMap, "a")
		pkgOnce.Do(func() { pkgAtom.Add(3) })
		expect("package map", fmt.Sprint(len(pkgMap), pkgAtom.Load()), "1 3")
		x := struct {
			io.Reader
			n int
		}{bytes.NewReader([]byte("hello")), 2}
		buf := make([]byte, 4)
		k, _ := io.ReadFull(x, buf[:x.n])
		expect("read", string(buf[:k]), "he")
		binary.BigEndian.PutUint16(buf[1:], 0x6162)
		expect("put", string(buf[1:3]), "ab")
		w := bufio.NewWriter(e)
		fmt.Fprintf(w, "%s", "def")
		w.Flush()
		expect("bufio", e.Buffer.String(), "abcdef")
		expect("goto", gotoLoop(5), 15)
		expect("mapped", len(mapped(map[int]string{1: "a"}, func(k int, v string) string { return v })), 1)
		const big = 1 << 40
		var u8 uint8 = 250
		u8 += 10
		expect("wrap", fmt.Sprint(u8, uint32(big>>20), -7/2, -7%3, 1<<u8&0xff), "4 1048576 -3 -1 16")
		var iface any = e.sub
		_, ok := iface.(fmt.Stringer)
		expect("assert", ok, false)
		fnv := map[string]func(...int) int{"sum": func(v ...int) int {
			s := 0
			for _, n := range v {
				s += n
			}
			return s
		}}
		expect("variadic", fnv["sum"](append([]int{1}, 2, 3)...), 6)
		if v, ok := pkgMap["b"]; ok && v == 1 {
			pkgMap["b"] |= 6
		} else if v > 3 {
			gomc.Fail("else")
		}
		expect("op assign", pkgMap["b"], 7)
		gomc.Outcome("x")
	})
	// two executions must both see fresh package variables
	reg("ok", "go-package-reset", "2", gomc.Opts{}, func() {
		expect("fresh", fmt.Sprint(len(pkgMap), pkgAtom.Load()), "1 0")
		pkgMap["c"] = 1
		pkgOnce.Do(func() { pkgAtom.Add(1) })
		c := make(chan int)
		go func() { c <- 1 }()
		go func() { c <- 2 }()
		gomc.Outcome(fmt.Sprint(<-c))
		<-c
	})
	reg("ok", "go-channels", "", gomc.Opts{}, func() {
		s := 0
		for v := range chanOf(make(chan int), 1, 2, 3, 4, 5) {
			if v == 2 {
				continue
			}
			if v == 5 {
				break
			}
			s += v
		}
		expect("range over channel", s, 8)
		done := make(signal)
		in, out := make(chan int, 1), make(chan string, 1)
		var null chan int
		go func() {
			defer close(done)
			n := 0
		loop:
			for {
				select {
				case v, ok := <-in:
					if !ok {
						break loop
					}
					if v < 0 {
						continue loop
					}
					n += v
				case <-null:
					gomc.Fail("nil channel")
				}
			}
			out <- fmt.Sprint(n)
		}()
		for _, v := range []int{1, -5, 2} {
			in <- v
		}
		close(in)
		<-done
		var got string
		select {
		case got = <-out:
		default:
			gomc.Fail("not ready")
		}
		expect("select loop", got, 3)
		m := map[string]int{}
		arr := [2]int{}
		c := make(chan int, 2)
		c <- 4
		c <- 5
		select {
		case m["x"] = <-c:
		}
		select {
		case arr[1], _ = <-c:
		}
		expect("select into places", fmt.Sprint(m, arr, len(c), cap(c)), "map[x:4] [0 5] 0 2")
		if v, ok := <-done; ok || v != (struct{}{}) {
			gomc.Fail("closed channel")
		}
		var ro <-chan int = c
		var so chan<- int = c
		so <- 9
		expect("directions", <-ro, 9)
		x, y := <-chanOf(make(chan string), "a"), <-chanOf(make(chan string), "b")
		expect("two receives", x+y, "ab")
	})
	reg("ok", "go-sync", "1", race, func() {
		var mp sync.Map
		var wg sync.WaitGroup
		var n atomic.Pointer[list[int]]
		once := sync.OnceValue(func() int { return 7 })
		pool := sync.Pool{New: func() any { return new(bytes.Buffer) }}
		for i := range 2 {
			wg.Go(func() {
				mp.LoadOrStore(i, once())
				n.CompareAndSwap(nil, &list[int]{})
				b := pool.Get().(*bytes.Buffer)
				b.Reset()
				b.WriteByte('x')
				pool.Put(b)
			})
		}
		wg.Wait()
		t := 0
		mp.Range(func(k, v any) bool { t += v.(int); return true })
		expect("sync", fmt.Sprint(t, n.Load() != nil), "14 true")
		gomc.Outcome("x")
	})
	reg("ok", "go-context", "1", gomc.Opts{}, func() {
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), "k", 5))
		sub, stop := context.WithTimeout(ctx, time.Second)
		defer stop()
		res := make(chan string, 2)
		go func() {
			select {
			case <-sub.Done():
				res <- fmt.Sprint("done ", errors.Is(sub.Err(), context.Canceled), sub.Value("k"))
			case <-time.After(time.Minute):
				res <- "time"
			}
		}()
		go cancel()
		gomc.Outcome(<-res)
		<-ctx.Done()
		expect("err", ctx.Err(), context.Canceled)
		if sub.Err() == nil {
			gomc.Fail("sub not cancelled")
		}
		gomc.Outcome("x")
	})
	reg("ok", "go-timeout", "1", gomc.Opts{}, func() {
		c := make(chan int)
		start := time.Now()
		t := time.NewTimer(3 * time.Second)
		select {
		case <-c:
		case <-t.C:
		}
		expect("time passed", time.Since(start) >= 3*time.Second, true)
		expect("stop", t.Stop(), false)
		n := 0
		tk := time.NewTicker(time.Second)
		for range tk.C {
			if n++; n == 2 {
				tk.Stop()
				break
			}
		}
		fired := make(chan bool)
		time.AfterFunc(time.Second, func() { fired <- true })
		<-fired
		time.Sleep(time.Second)
		gomc.Outcome("x")
	})
	// a timer may fire before or after a slow partner is ready
	reg("ok", "timer-or-slow", "2", gomc.Opts{}, func() {
		c := make(chan int)
		gomc.GoDaemon("slow", func() { gomc.LowPrio("slow"); <-c })
		select {
		case c <- 1:
			gomc.Outcome("sent")
		case <-time.After(time.Second):
			gomc.Outcome("late")
		}
	})
	reg("ok", "recover-order", "", gomc.Opts{}, func() {
		var s []string
		func() {
			defer func() { s = append(s, fmt.Sprint(recover())) }()
			for i := range 3 {
				defer func() { s = append(s, fmt.Sprint(i)) }()
			}
			panic("p")
		}()
		expect("defers", s, []string{"2", "1", "0", "p"})
	})

	// memory that the standard library reads and writes
	reg("race", "append-spare-race", "", race, func() {
		b := make([]byte, 0, 8)
		c := make(chan []byte)
		go func() { c <- append(b, 1) }()
		d := append(b, 2)
		e := <-c
		_, _ = d, e
	})
	reg("ok", "append-grows", "1", race, func() {
		b := make([]byte, 0)
		c := make(chan []byte)
		go func() { c <- append(b, 1) }()
		d := append(b, 2)
		e := <-c
		expect("own", fmt.Sprint(d, e), "[2] [1]")
		gomc.Outcome("x")
	})
	reg("race", "append-slice-race", "", race, func() {
		b := make([]byte, 0, 8)
		s := []byte{1, 2}
		c := make(chan []byte)
		go func() { c <- append(b, s...) }()
		_ = append(b, s...)
		<-c
	})
	reg("race", "readfull-race", "", race, func() {
		b := make([]byte, 4)
		c := make(chan bool)
		go func() { io.ReadFull(bytes.NewReader([]byte("abcd")), b); c <- true }()
		_ = b[0]
		<-c
	})
	reg("race", "put-race", "", race, func() {
		b := make([]byte, 4)
		c := make(chan bool)
		go func() { binary.BigEndian.PutUint32(b, 1); c <- true }()
		_ = binary.BigEndian.Uint32(b)
		<-c
	})
	reg("race", "buffer-race", "", race, func() {
		var w io.Writer = new(bytes.Buffer)
		c := make(chan bool)
		go func() { w.Write([]byte{1}); c <- true }()
		w.Write([]byte{2})
		<-c
	})
	reg("race", "buffer-arg-race", "", race, func() {
		b := bytes.NewBufferString("abc")
		c := make(chan bool)
		go func() { io.ReadFull(b, make([]byte, 1)); c <- true }()
		binary.Write(b, binary.BigEndian, uint16(1))
		<-c
	})
	reg("ok", "buffer-handed-over", "1", race, func() {
		b := bytes.NewBufferString("abc")
		c := make(chan bool)
		go func() { io.ReadFull(b, make([]byte, 1)); c <- true }()
		<-c
		expect("rest", b.String(), "bc")
		gomc.Outcome("x")
	})
	_ = mem
}

func gotoLoop(n int) int {
	s := 0
again:
	if n > 0 {
		s += n
		n--
		goto again
	}
	return s
}
