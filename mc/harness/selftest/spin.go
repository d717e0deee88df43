package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verif/mc/gomc"
)

// Loops that wait for another goroutine by looking again and again: they end
// under every fair schedule.
func init() {
	o := gomc.Opts{Mem: true}
	reg("ok", "spin-load", "1", o, func() {
		var f atomic.Bool
		go func() { f.Store(true) }()
		for !f.Load() {
		}
		gomc.Outcome("x")
	})
	reg("ok", "spin-gosched", "1", o, func() {
		var f atomic.Int32
		go func() { f.Add(1); f.Add(1) }()
		for f.Load() != 2 {
			runtime.Gosched()
		}
		gomc.Outcome("x")
	})
	reg("ok", "spin-cas", "1", o, func() {
		var l int32
		n := 0
		done := make(chan bool)
		for i := 0; i < 2; i++ {
			go func() {
				for !atomic.CompareAndSwapInt32(&l, 0, 1) {
					runtime.Gosched()
				}
				n++
				atomic.StoreInt32(&l, 0)
				done <- true
			}()
		}
		<-done
		<-done
		if n != 2 {
			gomc.Fail("n is %d", n)
		}
		gomc.Outcome("x")
	})
	reg("ok", "spin-trylock", "1", o, func() {
		var mu sync.Mutex
		done := make(chan bool)
		for i := 0; i < 2; i++ {
			go func() {
				for !mu.TryLock() {
				}
				mu.Unlock()
				done <- true
			}()
		}
		<-done
		<-done
		gomc.Outcome("x")
	})
	try := func(o gomc.Opts, name, outcomes string, lock, unlock func(*sync.RWMutex), try func(*sync.RWMutex) bool, untry func(*sync.RWMutex)) {
		reg("ok", "try-"+name, outcomes, o, func() {
			var mu sync.RWMutex
			done := make(chan bool)
			go func() {
				lock(&mu)
				unlock(&mu)
				done <- true
			}()
			got := try(&mu)
			if got {
				untry(&mu)
			}
			<-done
			gomc.Outcome(fmt.Sprint(got))
		})
	}
	wl, wu := (*sync.RWMutex).Lock, (*sync.RWMutex).Unlock
	rl, ru := (*sync.RWMutex).RLock, (*sync.RWMutex).RUnlock
	for i, o := range []gomc.Opts{o, {}, {Mem: true, RaceFails: true}} {
		n := fmt.Sprint(i)
		try(o, "lock-lock"+n, "2", wl, wu, (*sync.RWMutex).TryLock, wu)
		try(o, "rlock-lock"+n, "2", rl, ru, (*sync.RWMutex).TryLock, wu)
		try(o, "lock-rlock"+n, "2", wl, wu, (*sync.RWMutex).TryRLock, ru)
		try(o, "rlock-rlock"+n, "1", rl, ru, (*sync.RWMutex).TryRLock, ru)
	}
	reg("ok", "try-skips", "2", o, func() {
		var mu sync.Mutex
		n := 0
		done := make(chan bool)
		for i := 0; i < 2; i++ {
			go func() {
				if mu.TryLock() {
					n++
					mu.Unlock()
				}
				done <- true
			}()
		}
		<-done
		<-done
		gomc.Outcome(fmt.Sprint(n))
	})
	reg("ok", "spin-default", "1", o, func() {
		c := make(chan bool)
		go func() { c <- true }()
		for ok := false; !ok; {
			select {
			case ok = <-c:
			default:
				runtime.Gosched()
			}
		}
		gomc.Outcome("x")
	})
	reg("ok", "spin-sleep", "1", o, func() {
		var f atomic.Bool
		go func() { f.Store(true) }()
		for !f.Load() {
			time.Sleep(time.Millisecond)
		}
		gomc.Outcome("x")
	})
	reg("ok", "spin-locked", "1", o, func() {
		var mu sync.Mutex
		ready := false
		go func() { mu.Lock(); ready = true; mu.Unlock() }()
		for {
			mu.Lock()
			r := ready
			mu.Unlock()
			if r {
				break
			}
			time.Sleep(time.Millisecond)
		}
		gomc.Outcome("x")
	})
	reg("ok", "spin-len", "1", o, func() {
		c := make(chan int, 1)
		go func() { c <- 1 }()
		for len(c) == 0 {
			runtime.Gosched()
		}
		gomc.Outcome("x")
	})
	reg("horizon", "spin-endless", "", gomc.Opts{Horizon: 2000}, func() {
		var f atomic.Bool
		for !f.Load() {
		}
	})
	reg("horizon", "spin-goroutines", "", gomc.Opts{}, func() {
		c := make(chan int)
		for {
			go func() { <-c }()
			gomc.Step("again")
		}
	})
}
