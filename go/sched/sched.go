// Package sched drives goroutines through the library's yield points one step at a time.  It never judges anything: a
// schedule that cannot be forced (a goroutine blocks, a yield point is not reached) degrades to some other schedule.
package sched

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/smart-core-os/sc-golang/internal/verifyield"
)

// Goid of the calling goroutine.
func Goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	if len(f) < 2 {
		return -1
	}
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

// BlockedAfter is how long a released goroutine may take to reach its next gate before it counts as blocked.
var BlockedAfter = 6 * time.Millisecond

type proc struct {
	name    string
	release chan struct{}
	parked  chan string // receives the gate the goroutine parked at, "" when it finished
	where   string
	done    bool
}

// Ctl controls a set of goroutines.
type Ctl struct {
	mu    sync.Mutex
	byG   map[int64]*proc
	procs map[string]*proc
	gates map[string]bool
	open  bool
	wg    sync.WaitGroup
	// OnPoint, if set, is called at every yield point by whichever goroutine reaches it
	OnPoint func(g int64, point string)
}

// Jitter makes goroutines give way, or sleep for a while, at some of the points they pass.
func Jitter(seed int64) func(g int64, point string) {
	var n atomic.Uint64
	return func(g int64, point string) {
		x := (uint64(seed)*0x9E3779B97F4A7C15 + n.Add(1)) * 0xBF58476D1CE4E5B9
		x ^= x >> 31
		x *= 0x94D049BB133111EB
		x ^= x >> 29
		switch {
		case x%5 == 0:
			runtime.Gosched()
		case x%61 == 1:
			time.Sleep(time.Duration(x>>32%60) * time.Microsecond)
		}
	}
}

// New installs a controller stopping its goroutines at the given yield points.
func New(gates ...string) *Ctl {
	c := &Ctl{byG: map[int64]*proc{}, procs: map[string]*proc{}, gates: map[string]bool{}}
	for _, g := range gates {
		c.gates[g] = true
	}
	verifyield.Set(c.Point)
	return c
}

// Point is a yield point; harness callbacks may call it too.
func (c *Ctl) Point(point string) {
	g := Goid()
	if c.OnPoint != nil {
		c.OnPoint(g, point)
	}
	c.mu.Lock()
	p := c.byG[g]
	stop := p != nil && c.gates[point] && !c.open
	c.mu.Unlock()
	if stop {
		p.parked <- point
		<-p.release
	}
}

// Go starts f, stopped before its first instruction.
func (c *Ctl) Go(name string, f func()) {
	p := &proc{name: name, release: make(chan struct{}, 1), parked: make(chan string, 64), where: "start"}
	c.mu.Lock()
	c.procs[name] = p
	c.mu.Unlock()
	c.wg.Add(1)
	ready := make(chan struct{})
	go func() {
		defer c.wg.Done()
		g := Goid()
		c.mu.Lock()
		c.byG[g] = p
		c.mu.Unlock()
		close(ready)
		<-p.release
		defer func() {
			c.mu.Lock()
			delete(c.byG, g)
			c.mu.Unlock()
			p.parked <- ""
		}()
		f()
	}()
	<-ready
}

// Step lets name run to its next gate. It returns the gate, "" if it finished, "blocked" if it did not get there in time.
func (c *Ctl) Step(name string) string {
	p := c.procs[name]
	if p == nil || p.done {
		return ""
	}
	if p.where == "running" { // was blocked when last released
		select {
		case w := <-p.parked:
			return c.note(p, w)
		default:
		}
		// still blocked: give it a moment
		return c.await(p)
	}
	p.where = "running"
	p.release <- struct{}{}
	return c.await(p)
}

func (c *Ctl) await(p *proc) string {
	t := time.NewTimer(BlockedAfter)
	defer t.Stop()
	select {
	case w := <-p.parked:
		return c.note(p, w)
	case <-t.C:
		return "blocked"
	}
}

func (c *Ctl) note(p *proc, w string) string {
	if w == "" {
		p.done = true
	}
	p.where = w
	return w
}

// Where name is: "start", a gate, "running" (blocked), "" (finished).
func (c *Ctl) Where(name string) string {
	p := c.procs[name]
	if p.where == "running" {
		select {
		case w := <-p.parked:
			c.note(p, w)
		default:
		}
	}
	return p.where
}

// Finish opens all gates and waits for everything to finish; false if something hangs.
func (c *Ctl) Finish(d time.Duration) bool {
	c.mu.Lock()
	c.open = true
	ps := make([]*proc, 0, len(c.procs))
	for _, p := range c.procs {
		ps = append(ps, p)
	}
	c.mu.Unlock()
	for _, p := range ps {
		select {
		case p.release <- struct{}{}:
		default:
		}
	}
	done := make(chan struct{})
	go func() { c.wg.Wait(); close(done) }()
	end := time.Now().Add(d)
	for {
		select {
		case <-done:
			verifyield.Set(nil)
			return true
		case <-time.After(2 * time.Millisecond):
			// a goroutine may have parked between open and release
			for _, p := range ps {
				select {
				case w := <-p.parked:
					if w != "" {
						select {
						case p.release <- struct{}{}:
						default:
						}
					}
				default:
				}
			}
			if time.Now().After(end) {
				verifyield.Set(nil)
				return false
			}
		}
	}
}
