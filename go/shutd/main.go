// shutd records subscriptions, listeners and streams that are cancelled at some moment (C10).
package main

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/smart-core-os/sc-golang/internal/verif/sched"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
)

type M = vlib.M

// limit is how long anything that must happen may take
const limit = 8 * time.Second

var bad atomic.Int32

func tooMany() bool { return bad.Load() > 3 }

type log struct {
	mu sync.Mutex
	ev []M
	// panics caught anywhere
	panics []string
}

func (l *log) add(e M) { l.mu.Lock(); l.ev = append(l.ev, e); l.mu.Unlock() }

// call runs f, keeping its panic
func (l *log) call(f func()) {
	if p := vlib.Catch(f); p != "" {
		l.mu.Lock()
		l.panics = append(l.panics, p)
		l.mu.Unlock()
		bad.Add(1)
	}
}

// end waits for the library's goroutines to be gone
func (l *log) end(out *vlib.Out, id string) {
	left := vlib.LibGoroutinesAfter(0, limit)
	e := M{"e": "end", "leaked": len(left), "panics": append([]string{}, l.panics...)}
	if len(left) > 0 {
		e["stack"] = left[0]
		bad.Add(1)
	}
	l.mu.Lock()
	ev := append([]M{}, append(l.ev, e)...)
	l.mu.Unlock()
	out.Write(&vlib.Session{ID: id, Cfg: M{}, Ev: ev})
	if len(left) > 0 {
		// nothing that follows could be told apart from what was left here
		out.Close()
		os.Exit(0)
	}
}

// wait for f to be done
func wait(ch <-chan struct{}, d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		return false
	}
}

func group(wg *sync.WaitGroup) <-chan struct{} {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	return done
}

// at the k-th yield point anybody reaches, do something
type inject struct {
	k    int64
	n    atomic.Int64
	hold int // 0: go on, 1: then let the others run for a while, 2: before that
	f    func()
	c    *sched.Ctl
	jit  func(int64, string)
}

func newInject(k int, hold int, f func()) *inject {
	in := &inject{k: int64(k), hold: hold, f: f, c: sched.New()}
	in.c.OnPoint = in.point
	return in
}

const pause = 250 * time.Microsecond

func (in *inject) point(g int64, p string) {
	if in.jit != nil {
		in.jit(g, p)
	}
	if in.n.Add(1) != in.k {
		return
	}
	if in.hold == 2 {
		time.Sleep(pause)
	}
	in.f()
	if in.hold == 1 {
		time.Sleep(pause)
	}
}

// passed reports whether the point was reached
func (in *inject) passed() bool { return in.n.Load() >= in.k }

// sweep calls f for every k until a run has fewer points, or most are done
func sweep(r *rand.Rand, most int, f func(k, hold int) bool) {
	for k := 1; k <= most && !tooMany(); k++ {
		if !f(k, r.Intn(3)) {
			return
		}
	}
}

func main() {
	out := vlib.NewOut()
	defer out.Close()
	seed := vlib.Seed()
	switch os.Args[1] {
	case "bus":
		busWindows(out, seed, vlib.N(110, 900))
	case "busstress":
		busStress(out, seed, vlib.N(500, 6000))
	case "resource":
		resWindows(out, seed, vlib.N(90, 900))
	case "resstress":
		resStress(out, seed, vlib.N(300, 4000))
	case "models":
		models(out, seed, vlib.N(2, 14))
	case "streams":
		streams(out, seed, vlib.N(2, 14))
	default:
		fmt.Fprintln(os.Stderr, "verif: unknown mode")
		os.Exit(3)
	}
}
