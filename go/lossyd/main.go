// lossyd records slow subscribers (C09).
package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/verif/ops"
	"github.com/smart-core-os/sc-golang/internal/verif/sched"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
)

type M = vlib.M

func opt(m proto.Message) []int32 {
	if t, ok := ops.IsT(m); ok {
		return []int32{t.DefaultInt32}
	}
	return []int32{}
}

type sub struct {
	k, id    string // id: "" for all
	bp, only bool
	vch      <-chan *resource.ValueChange
	cch      <-chan *resource.CollectionChange
	cancel   func()
	ended    bool
	lastNew  []int32
}

// recv one event within d
func (s *sub) recv(d time.Duration) (M, bool) {
	if s.ended {
		return nil, false
	}
	e := M{"e": "recv", "k": s.k, "bp": s.bp}
	var vc <-chan *resource.ValueChange = s.vch
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case c, ok := <-vc:
		if !ok {
			s.ended = true
			return M{"e": "ended", "k": s.k, "id": s.id}, true
		}
		e["plain"], e["id"], e["kind"], e["old"], e["new"], e["seed"], e["time"] = true, s.id, "VALUE", []int32{}, opt(c.Value), c.SeedValue, c.ChangeTime.Unix()
		s.lastNew = opt(c.Value)
		return e, true
	case c, ok := <-s.cch:
		if !ok {
			s.ended = true
			return M{"e": "ended", "k": s.k, "id": ""}, true
		}
		e["plain"], e["id"], e["kind"], e["old"], e["new"], e["seed"], e["time"] = false, c.Id, c.ChangeType.String(), opt(c.OldValue), opt(c.NewValue), c.SeedValue, c.ChangeTime.Unix()
		s.lastNew = opt(c.NewValue)
		return e, true
	case <-t.C:
		return nil, false
	}
}

type world struct {
	st    *ops.Store
	kind  string
	s     *vlib.Session
	mu    sync.Mutex
	n     int32
	cont  map[string]int32
	wrote map[string]bool
	subs  []*sub
}

func (w *world) add(e M) { w.mu.Lock(); w.s.Ev = append(w.s.Ev, e); w.mu.Unlock() }

func newWorld(id, kind string, init map[string]ops.Pair) *world {
	w := &world{st: ops.NewStore(kind, init, nil), kind: kind, n: 100, cont: map[string]int32{}, wrote: map[string]bool{}}
	ji := M{}
	for id, p := range init {
		ji[id] = p[0]
		w.cont[id] = p[0]
	}
	ids := []string{"x", "y", "~"}
	if kind == "value" {
		ids = []string{"v"}
	}
	w.s = &vlib.Session{ID: id, Cfg: M{"init": ji, "kind": kind, "ids": ids}}
	return w
}

func (w *world) sub(id string, bp, only bool) *sub {
	s := &sub{k: fmt.Sprint(len(w.subs)), id: id, bp: bp, only: only}
	var ctx context.Context
	ctx, s.cancel = context.WithCancel(context.Background())
	o := []resource.ReadOption{resource.WithBackpressure(bp), resource.WithUpdatesOnly(only)}
	switch {
	case w.st.Val != nil:
		s.id = "v"
		s.vch = w.st.Val.Pull(ctx, o...)
	case id != "":
		s.vch = w.st.Coll.PullID(ctx, id, o...)
	default:
		s.cch = w.st.Coll.Pull(ctx, o...)
	}
	w.subs = append(w.subs, s)
	w.add(M{"e": "sub", "k": s.k, "id": s.id, "only": only})
	return s
}

const limit = 3 * time.Second

// write: a fresh value, or nothing; false if it did not return
func (w *world) write(id string, rm bool, rec bool) bool {
	w.mu.Lock()
	w.n++
	n := w.n
	w.wrote[id] = true
	e := M{"e": "write", "id": id, "new": []int32{n}, "time": n}
	if rm {
		e["new"] = []int32{}
		delete(w.cont, id)
	} else {
		w.cont[id] = n
	}
	w.s.Ev = append(w.s.Ev, e)
	w.mu.Unlock()
	o := ops.Op{Op: "write", ID: id, Create: true, Mode: "put", V: ops.Pair{n, 0}}
	if rm {
		o = ops.Op{Op: "delete", ID: id, AllowMissing: true}
	}
	at := time.Unix(int64(n), 0)
	st := &ops.Store{Val: w.st.Val, Coll: w.st.Coll, Extra: []resource.WriteOption{resource.WithWriteTime(at)}}
	code := "hang"
	t0 := time.Now()
	p := vlib.CatchTimeout(12*time.Second, func() {
		c, _, _, _ := st.Exec(o, ops.None)
		w.mu.Lock()
		code = c
		w.mu.Unlock()
	})
	w.mu.Lock()
	defer w.mu.Unlock()
	if p != "" {
		code = p
	}
	slow := time.Since(t0) > limit
	if rec || slow || code != "OK" {
		w.s.Ev = append(w.s.Ev, M{"e": "ret", "code": code, "slow": slow})
	}
	if slow || code != "OK" {
		bad++
	}
	return !slow && code == "OK"
}

var bad int

// drain reads until the subscriber has everything
func (w *world) drain(s *sub) {
	stuck := false
	end := time.Now().Add(limit)
	last := ""
	if s.id == "" {
		// a sentinel: whatever is on its way was sent before it
		w.write("~", false, false)
		last = "~"
	}
	w.mu.Lock()
	sent := w.n
	val, has := w.cont[s.id]
	quiet := s.only && has && !w.wrote[s.id] // nothing will come
	w.mu.Unlock()
	for !s.ended {
		if s.id != "" && (quiet || len(s.lastNew) > 0 && has && s.lastNew[0] == val || !has) {
			break
		}
		e, ok := s.recv(200 * time.Millisecond)
		if ok {
			w.add(e)
			if last != "" && e["id"] == last && len(s.lastNew) > 0 && s.lastNew[0] == sent {
				break
			}
			continue
		}
		if time.Now().After(end) {
			stuck = true
			bad++
			break
		}
	}
	// stragglers
	for !stuck {
		wait := 50 * time.Microsecond
		if s.id != "" && !has {
			wait = 3 * time.Millisecond
		}
		e, ok := s.recv(wait)
		if !ok {
			break
		}
		w.add(e)
		if s.ended {
			break
		}
	}
	if s.ended {
		return
	}
	if s.id != "" && !has {
		return // the end of the stream may still be on its way
	}
	w.add(M{"e": "drained", "k": s.k, "id": s.id, "stuck": stuck})
}

func (w *world) end(out *vlib.Out) {
	for _, s := range w.subs {
		s.cancel()
	}
	w.mu.Lock()
	w.s.Ev = append([]M{}, w.s.Ev...)
	w.mu.Unlock()
	out.Write(w.s)
}

// patterns: every sequence of writes and receives up to a length
func patterns(out *vlib.Out, seed int64, length int, keep float64) {
	r := rand.New(rand.NewSource(seed))
	for _, kind := range []string{"coll", "value"} {
		alpha := []string{"x", "-x", "y", "-y", "R"}
		if kind == "value" {
			alpha = []string{"v", "R"}
		}
		var rec func(p []string)
		rec = func(p []string) {
			if len(p) == length {
				if bad > 6 || kind == "coll" && r.Float64() > keep {
					return
				}
				pattern(out, kind, r.Intn(12), p)
				return
			}
			for _, a := range alpha {
				rec(append(append([]string{}, p...), a))
			}
		}
		rec(nil)
	}
}

func pattern(out *vlib.Out, kind string, q int, p []string) {
	var init map[string]ops.Pair
	if kind == "value" {
		init = []map[string]ops.Pair{{}, {"v": {1, 0}}}[q%2]
	} else {
		init = []map[string]ops.Pair{{}, {"x": {1, 0}}, {"x": {1, 0}, "y": {2, 0}}}[q%3]
	}
	w := newWorld(fmt.Sprintf("pattern-%s", kind), kind, init)
	only := q/2%2 == 0
	main := w.sub("", false, only)
	var id *sub
	if kind == "coll" && q/4 == 0 {
		id = w.sub("x", false, only)
	}
	if q%5 == 0 {
		w.sub("", false, true) // never receives
	}
	for _, a := range p {
		if a == "R" {
			if e, ok := main.recv(100 * time.Microsecond); ok {
				w.add(e)
			}
			if id != nil {
				if e, ok := id.recv(100 * time.Microsecond); ok {
					w.add(e)
				}
			}
			continue
		}
		if !w.write(trim(a), a[0] == '-', true) {
			break
		}
	}
	w.drain(main)
	if id != nil {
		w.drain(id)
	}
	w.end(out)
}

func trim(a string) string {
	if a[0] == '-' {
		return a[1:]
	}
	return a
}

// stress: a writer and readers of different pace, at the same time
func stress(out *vlib.Out, seed int64, n int) {
	for i := 0; i < n && bad < 6; i++ {
		r := rand.New(rand.NewSource(seed*49979687 + int64(i)))
		kind, init := "coll", map[string]ops.Pair{"x": {1, 0}}
		if r.Intn(4) == 0 {
			kind, init = "value", map[string]ops.Pair{"v": {1, 0}}
		}
		w := newWorld(fmt.Sprintf("stress-%s-%d", kind, i), kind, init)
		c := sched.New()
		c.OnPoint = sched.Jitter(r.Int63())
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for j := 0; j < 1+r.Intn(3); j++ {
			id := ""
			if kind == "coll" && r.Intn(4) == 0 {
				id = "y"
			}
			s := w.sub(id, r.Intn(3) == 0, r.Intn(3) == 0)
			pace := time.Duration([]int{0, 20, 150, 600}[r.Intn(4)]) * time.Microsecond
			if s.bp && pace > 150*time.Microsecond {
				pace = 150 * time.Microsecond
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					e, ok := s.recv(time.Millisecond)
					if ok {
						w.add(e)
						if s.ended {
							return
						}
						time.Sleep(pace)
						continue
					}
					select {
					case <-stop:
						return
					default:
					}
				}
			}()
		}
		total := 8 + r.Intn(25)
		for j := 0; j < total; j++ {
			id, rm := []string{"x", "y"}[r.Intn(2)], r.Intn(3) == 0
			if kind == "value" {
				id, rm = "v", false
			}
			if !w.write(id, rm, true) {
				break
			}
			if r.Intn(4) == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			}
		}
		close(stop)
		wg.Wait()
		c.Finish(time.Second)
		drainAll(w)
		w.end(out)
	}
}

// drainAll drains every subscriber; sentinels need all the backpressured ones to receive
func drainAll(w *world) {
	if w.kind == "coll" {
		wrote := make(chan struct{})
		go func() { w.write("~", false, false); close(wrote) }()
		for done := false; !done; {
			select {
			case <-wrote:
				done = true
			default:
				for _, s := range w.subs {
					if s.bp {
						if e, ok := s.recv(50 * time.Microsecond); ok {
							w.add(e)
						}
					}
				}
			}
		}
	}
	for _, s := range w.subs {
		w.settle(s)
	}
}

// settle is drain after the sentinel was written
func (w *world) settle(s *sub) {
	want := s.id
	if s.id == "" {
		want = "~"
	}
	w.mu.Lock()
	val, has := w.cont[want]
	quiet := s.only && has && !w.wrote[want]
	w.mu.Unlock()
	stuck := false
	end := time.Now().Add(limit)
	got := func() bool { return quiet || len(s.lastNew) > 0 && s.lastNew[0] == val }
	for has && !s.ended && !got() {
		if e, ok := s.recv(100 * time.Millisecond); ok {
			w.add(e)
		} else if time.Now().After(end) {
			stuck = true
			bad++
			break
		}
	}
	for !stuck && !s.ended {
		e, ok := s.recv(50 * time.Microsecond)
		if !ok {
			break
		}
		w.add(e)
	}
	if s.ended || !has {
		return
	}
	w.add(M{"e": "drained", "k": s.k, "id": s.id, "stuck": stuck})
}

// blocking: subscribers with backpressure that do not receive
func blocking(out *vlib.Out, n int) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			kind, id := "coll", "x"
			if i%2 == 0 {
				kind, id = "value", "v"
			}
			w := newWorld(fmt.Sprintf("blocking-%s-%d", kind, i), kind, map[string]ops.Pair{})
			pid := ""
			if kind == "coll" && i%4 == 1 {
				pid = "x"
			}
			w.sub(pid, true, i%8 < 4)
			st := w.st
			// the writer: until one of its writes does not return as usual
			var mu sync.Mutex
			returned := 0
			type res struct {
				code string
				ms   int64
			}
			results := make(chan res, 100)
			writers := 1 + i/2%3
			stop := make(chan struct{})
			var ww sync.WaitGroup
			for k := 0; k < writers; k++ {
				ww.Add(1)
				go func() {
					defer ww.Done()
					for j := 0; j < 12; j++ {
						select {
						case <-stop:
							return
						default:
						}
						t0 := time.Now()
						code, _, _, _ := st.Exec(ops.Op{Op: "write", ID: id, Create: true, Mode: "put", V: ops.Pair{int32(k), int32(j)}}, ops.None)
						d := time.Since(t0)
						if code == "Aborted" && d < time.Second {
							continue // two writers at once: not about subscribers
						}
						if d > time.Second || code != "OK" {
							results <- res{code, d.Milliseconds()}
							return
						}
						mu.Lock()
						returned++
						mu.Unlock()
					}
				}()
			}
			time.Sleep(300 * time.Millisecond)
			mu.Lock()
			w.add(M{"e": "idle", "returned": returned})
			mu.Unlock()
			if kind == "value" {
				for k := 0; k < writers; k++ {
					select {
					case x := <-results:
						w.add(M{"e": "gaveup", "code": x.code, "ms": x.ms, "most": 14000})
					case <-time.After(15 * time.Second):
						w.add(M{"e": "gaveup", "code": "hang", "ms": 15000, "most": 14000})
					}
				}
			}
			close(stop)
			for _, s := range w.subs {
				s.cancel()
			}
			done := make(chan struct{})
			go func() { ww.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				w.add(M{"e": "writers hang after cancel"})
			}
			w.end(out)
		}()
	}
	wg.Wait()
}

func main() {
	out := vlib.NewOut()
	defer out.Close()
	switch os.Args[1] {
	case "patterns":
		keep := 0.35
		n := 6
		if vlib.Thorough() {
			keep, n = 0.8, 7
		}
		patterns(out, vlib.Seed(), n, keep)
		patterns(out, vlib.Seed(), 3, 1)
	case "stress":
		stress(out, vlib.Seed(), vlib.N(700, 10000))
	case "blocking":
		blocking(out, 24)
	}
}
