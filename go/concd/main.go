// concd records histories of overlapping calls on resource.Value and resource.Collection (C02).
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/verif/ops"
	"github.com/smart-core-os/sc-golang/internal/verif/sched"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
)

type M = vlib.M

// windows: run the interfering calls inside the k-th arrival of a yield point or callback of the first call
func windows(out *vlib.Out, rnd *rand.Rand, keep float64) {
	points := []string{"resource.change", "resource.save", "resource.publish", "resource.delete", "check", "before", "after"}
	// nth >= 0: at the nth point or callback whatever it is
	run := func(kind string, init map[string]ops.Pair, a ops.Op, point string, nth int, bs []ops.Op) (hit bool) {
		h := ops.NewHistory(fmt.Sprintf("window-%s-%s-%s", kind, a.Mode, point), kind, init, nil)
		c := sched.New()
		var ga int64
		var mu sync.Mutex
		k := 0
		var wg sync.WaitGroup
		interfere := func(p string) {
			mu.Lock()
			nth--
			if nth != -1 && p != point || k >= len(bs) {
				mu.Unlock()
				return
			}
			b := bs[k]
			k++
			mu.Unlock()
			hit = true
			done := make(chan struct{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer close(done)
				h.Do("b", b, ops.None)
			}()
			select {
			case <-done:
			case <-time.After(2 * time.Millisecond): // the window is inside a lock
			}
		}
		c.OnPoint = func(g int64, p string) {
			if g == ga {
				interfere(p)
			}
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			ga = sched.Goid()
			h.Do("a", a, interfere)
		}()
		ok := true
		select {
		case <-done:
			wgDone := make(chan struct{})
			go func() { wg.Wait(); close(wgDone) }()
			select {
			case <-wgDone:
			case <-time.After(10 * time.Second):
				ok = false
			}
		case <-time.After(20 * time.Second):
			ok = false
		}
		c.Finish(time.Second)
		if hit || !ok {
			h.End(out, ok)
		}
		return hit
	}
	each := func(kind string, all []ops.Op, ins []map[string]ops.Pair) {
		for _, init := range ins {
			for _, a := range all {
				if a.Op == "get" {
					continue
				}
				for _, b := range all {
					for nth := 0; nth < 40; nth++ {
						if rnd.Float64() < keep/3 && !run(kind, init, a, "any", nth, []ops.Op{b}) {
							break
						}
					}
				}
				for _, point := range points {
					if (point == "check") != (len(a.Chk) > 0) && point == "check" {
						continue
					}
					if point == "before" && a.Mode != "inc" && a.Mode != "incf" || point == "after" && a.Mode != "aft" {
						continue
					}
					if (point == "resource.delete") != (a.Op == "delete") && (point == "resource.delete" || point != "check" && point != "resource.publish") {
						continue
					}
					for _, b := range all {
						if b.Op == "get" && point != "resource.publish" {
							continue
						}
						if rnd.Float64() < keep {
							run(kind, init, a, point, -1, []ops.Op{b})
						}
						// several interfering calls in successive arrivals (the retry loop of Delete)
						if a.Op == "delete" && rnd.Float64() < keep/2 {
							n := 2 + rnd.Intn(5)
							bs := []ops.Op{b}
							for len(bs) < n {
								bs = append(bs, all[rnd.Intn(len(all))])
							}
							run(kind, init, a, point, -1, bs)
						}
					}
				}
			}
		}
	}
	each("coll", ops.Alphabet("x"), ops.Inits[:3])
	each("value", ops.ValueOps(), ops.ValueInits)
}

// schedules: behaviours of the protocol model, one {init, ops, sched} per line, forced on the real code
func schedules(out *vlib.Out, file string) {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	n := 0
	for sc.Scan() {
		var x struct {
			Init  json.RawMessage
			Ops   []ops.Op
			Sched []int
		}
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			fmt.Fprintln(os.Stderr, "bad schedule", err, sc.Text())
			os.Exit(3)
		}
		init := map[string]ops.Pair{}
		json.Unmarshal(x.Init, &init) // TLC writes the empty function as []
		kind := "coll"
		if n%4 == 3 {
			kind = "value"
			vi := map[string]ops.Pair{}
			if p, ok := init["x"]; ok {
				vi["v"] = p
			}
			init = vi
			bad := false
			for i := range x.Ops {
				x.Ops[i].ID = "v"
				x.Ops[i].Create = true
				bad = bad || x.Ops[i].Op == "delete" || x.Ops[i].Absent
			}
			if bad {
				n++
				continue
			}
		}
		h := ops.NewHistory(fmt.Sprintf("sched-%d", n), kind, init, nil)
		n++
		c := sched.New("resource.save", "resource.delete")
		for i, o := range x.Ops {
			i, o := i, o
			c.Go(fmt.Sprint(i+1), func() { h.Do(fmt.Sprint(i+1), o, ops.None) })
		}
		for _, p := range x.Sched {
			c.Step(fmt.Sprint(p))
		}
		h.End(out, c.Finish(20*time.Second))
	}
}

// stress: goroutines running random programs, yielding at random
func stress(out *vlib.Out, seed int64, n int) {
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(seed*7919 + int64(i)))
		kind := "coll"
		init := ops.Inits[r.Intn(len(ops.Inits))]
		if r.Intn(3) == 0 {
			kind, init = "value", ops.ValueInits[r.Intn(len(ops.ValueInits))]
		}
		h := ops.NewHistory(fmt.Sprintf("stress-%d", i), kind, init, &ops.BadRng{R: rand.New(rand.NewSource(r.Int63()))})
		c := sched.New()
		// some subscribers, so publication is exercised too
		ctx, cancel := context.WithCancel(context.Background())
		c.OnPoint = sched.Jitter(r.Int63())
		var wg sync.WaitGroup
		procs := 2 + r.Intn(3)
		start := make(chan struct{})
		for p := 0; p < procs; p++ {
			pr := rand.New(rand.NewSource(r.Int63()))
			prog := []ops.Op{}
			for k := 0; k < 3+pr.Intn(3); k++ {
				prog = append(prog, ops.RandOp(pr, kind))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, o := range prog {
					y := pr.Intn(3)
					h.Do(fmt.Sprint(p), o, func(string) {
						if y > 0 {
							runtime.Gosched()
						}
						if y > 1 {
							time.Sleep(time.Duration(50) * time.Microsecond)
						}
					})
				}
			}()
		}
		close(start)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		ok := true
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			ok = false
		}
		cancel()
		_ = ctx
		c.Finish(time.Second)
		h.End(out, ok)
	}
}

// totals: many increments, only their sum is judged
func totals(out *vlib.Out, n int) {
	for _, kind := range []string{"value", "coll"} {
		id := map[string]string{"value": "v", "coll": "x"}[kind]
		for round := 0; round < n; round++ {
			init := map[string]ops.Pair{}
			if round%2 == 0 {
				init[id] = ops.Pair{5, 5}
			}
			st := ops.NewStore(kind, init, nil)
			var wg sync.WaitGroup
			var mu sync.Mutex
			sum := 0
			for p := 0; p < 6; p++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 60; k++ {
						o := ops.Op{Op: "write", ID: id, Create: true, Mode: "inc", V: ops.Pair{1, 0}}
						if (p+k)%5 == 0 {
							o = ops.Op{Op: "write", ID: id, Create: true, Mode: "putb", V: ops.Pair{7, int32(k)}}
						}
						code, _, _, _ := st.Exec(o, func(string) { runtime.Gosched() })
						if code == "OK" && o.Mode == "inc" {
							mu.Lock()
							sum++
							mu.Unlock()
						}
					}
				}()
			}
			wg.Wait()
			h := &ops.History{S: &vlib.Session{ID: fmt.Sprintf("total-%s-%d", kind, round), Cfg: M{"init": init}}, St: st}
			final := h.Contents()
			i0 := 0
			if round%2 == 0 {
				i0 = 5
			}
			h.S.Add(M{"e": "total", "init": i0, "sum": sum, "final": final[id][0]})
			out.Write(h.S)
		}
	}
}

func main() {
	out := vlib.NewOut()
	defer out.Close()
	seed := vlib.Seed()
	switch strings.Join(os.Args[1:2], "") {
	case "windows":
		keep := 0.5
		if vlib.Thorough() {
			keep = 1
		}
		windows(out, rand.New(rand.NewSource(seed)), keep)
	case "schedules":
		schedules(out, os.Args[2])
	case "stress":
		stress(out, seed, vlib.N(1500, 20000))
		totals(out, vlib.N(10, 100))
	}
}
