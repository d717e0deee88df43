// Package main holds small programs with a known answer: the answer (the kind
// of violation, or ok) is given as the property, and the number of distinct
// outcomes, where known, as the bound.
package main

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"

	"verif/mc/gomc"
)

func main() { gomc.Main() }

func reg(want, name, outcomes string, o gomc.Opts, f func()) {
	gomc.Register(gomc.Scenario{Prop: want, Name: name, Bound: outcomes, Opts: o, Body: f})
}

var global int

func init() {
	mem := gomc.Opts{Mem: true}
	race := gomc.Opts{Mem: true, RaceFails: true}

	reg("deadlock", "abba", "", gomc.Opts{}, func() {
		var a, b sync.Mutex
		done := make(chan bool)
		go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); done <- true }()
		go func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); done <- true }()
		<-done
		<-done
	})
	reg("ok", "abab", "1", gomc.Opts{}, func() {
		var a, b sync.Mutex
		done := make(chan bool)
		for i := 0; i < 2; i++ {
			go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); done <- true }()
		}
		<-done
		<-done
		gomc.Outcome("x")
	})
	reg("race", "counter-race", "", race, func() {
		n := 0
		var wg sync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() { n++; wg.Done() }()
		}
		wg.Wait()
	})
	reg("ok", "counter-lost-update", "2", mem, func() {
		n := 0
		var wg sync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() { n++; wg.Done() }()
		}
		wg.Wait()
		gomc.Outcome(fmt.Sprint(n))
	})
	reg("ok", "counter-locked", "1", race, func() {
		n := 0
		var mu sync.Mutex
		var wg sync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() { mu.Lock(); n++; mu.Unlock(); wg.Done() }()
		}
		wg.Wait()
		gomc.Outcome(fmt.Sprint(n))
	})
	reg("ok", "counter-atomic", "1", race, func() {
		var n atomic.Int64
		var wg sync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() { n.Add(1); wg.Done() }()
		}
		wg.Wait()
		gomc.Outcome(fmt.Sprint(n.Load()))
	})
	reg("race", "global-race", "", race, func() {
		global = 0
		c := make(chan bool, 1)
		go func() { global = 1; c <- true }()
		global = 2
		<-c
	})
	reg("race", "slice-race", "", race, func() {
		b := make([]byte, 4)
		c := make(chan bool)
		go func() { copy(b, "abcd"); c <- true }()
		_ = b[2]
		<-c
	})
	reg("race", "map-race", "", race, func() {
		m := map[int]int{}
		c := make(chan bool)
		go func() { m[1] = 1; c <- true }()
		_ = m[2]
		<-c
	})
	reg("race", "read-lock-race", "", race, func() {
		n := 0
		var mu sync.RWMutex
		c := make(chan bool)
		for i := 0; i < 2; i++ {
			go func() { mu.RLock(); n++; mu.RUnlock(); c <- true }()
		}
		<-c
		<-c
	})
	reg("deadlock", "recursive-read-lock", "", gomc.Opts{}, func() {
		var mu sync.RWMutex
		c := make(chan bool)
		go func() { mu.Lock(); mu.Unlock(); c <- true }()
		mu.RLock()
		mu.RLock()
		mu.RUnlock()
		mu.RUnlock()
		<-c
	})
	// n senders on one channel: n! orders of arrival
	reg("ok", "orders-3", "6", gomc.Opts{}, orders(3))
	reg("ok", "orders-4", "24", gomc.Opts{}, orders(4))
	// two threads of two steps each: 4!/(2!2!) interleavings
	reg("ok", "interleavings-2x2", "6", gomc.Opts{}, func() {
		var s []string
		var wg sync.WaitGroup
		wg.Add(2)
		for _, n := range []string{"a", "b"} {
			go func() {
				for i := 0; i < 2; i++ {
					gomc.Step("x")
					s = append(s, n)
					gomc.HashValue(uint64(len(fmt.Sprint(s))))
				}
				wg.Done()
			}()
		}
		wg.Wait()
		gomc.Outcome(fmt.Sprint(s))
	})
	reg("ok", "select-both", "2", gomc.Opts{}, func() {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case v := <-a:
			gomc.Outcome(fmt.Sprint(v))
		case v := <-b:
			gomc.Outcome(fmt.Sprint(v))
		}
	})
	reg("ok", "select-default", "2", gomc.Opts{}, func() {
		a := make(chan int)
		go func() {
			select {
			case a <- 1:
			default:
			}
		}()
		select {
		case v := <-a:
			gomc.Outcome(fmt.Sprint(v))
		case <-func() chan int { c := make(chan int, 1); c <- 2; return c }():
			gomc.Outcome("2")
		}
	})
	reg("deadlock", "nobody-receives", "", gomc.Opts{}, func() {
		c := make(chan int)
		c <- 1
	})
	reg("deadlock", "wait-for-ever", "", gomc.Opts{}, func() {
		var wg sync.WaitGroup
		wg.Add(1)
		wg.Wait()
	})
	reg("panic", "send-on-closed", "", gomc.Opts{}, func() {
		c := make(chan int, 1)
		go close(c)
		c <- 1
	})
	reg("panic", "close-twice", "", gomc.Opts{}, func() {
		c := make(chan int)
		go close(c)
		close(c)
	})
	reg("panic", "index", "", gomc.Opts{}, func() {
		var b []int
		_ = b[len(b)]
	})
	reg("horizon", "endless", "", gomc.Opts{Horizon: 2000}, func() {
		c := make(chan int, 1)
		for {
			c <- 1
			<-c
		}
	})
	reg("fail", "rare-order", "", gomc.Opts{}, func() {
		var l []int
		c := make(chan int)
		for i := 0; i < 4; i++ {
			go func() { c <- i }()
		}
		for i := 0; i < 4; i++ {
			l = append(l, <-c)
		}
		if sort.IsSorted(sort.Reverse(sort.IntSlice(l))) {
			gomc.Fail("reversed")
		}
	})
	reg("ok", "once", "1", race, func() {
		var o sync.Once
		n := 0
		var wg sync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() { o.Do(func() { n++ }); _ = n; wg.Done() }()
		}
		wg.Wait()
		gomc.Outcome(fmt.Sprint(n))
	})
	reg("ok", "choices", "6", gomc.Opts{Fixed: true}, func() {
		gomc.Outcome(fmt.Sprint(gomc.Choose(2, "a"), gomc.Choose(3, "b")))
	})
	reg("ok", "map-order", "6", gomc.Opts{MapOrder: true}, func() {
		s := ""
		for k := range map[string]int{"a": 1, "b": 2, "c": 3} {
			s += k
		}
		gomc.Outcome(s)
	})
	reg("fail", "leftover", "", gomc.Opts{}, func() {
		c := make(chan int)
		go func() { c <- 1 }()
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("left: %v", l)
		}
	})
	reg("ok", "cond", "1", race, func() {
		var mu sync.Mutex
		cd := sync.NewCond(&mu)
		ready := false
		go func() { mu.Lock(); ready = true; mu.Unlock(); cd.Broadcast() }()
		mu.Lock()
		for !ready {
			cd.Wait()
		}
		mu.Unlock()
		gomc.Outcome("x")
	})
}

func orders(n int) func() {
	return func() {
		c := make(chan int)
		for i := 0; i < n; i++ {
			go func() { c <- i }()
		}
		s := ""
		for i := 0; i < n; i++ {
			s += fmt.Sprint(<-c)
		}
		gomc.Outcome(s)
	}
}
