// pubsubd records concurrent writers with subscribers (C03).
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/ops"
	"github.com/smart-core-os/sc-golang/internal/verif/sched"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type M = vlib.M

const sentinel = 777

type sub struct {
	k     string
	id    string // PullID
	only  bool
	bp    bool
	mask  string
	pace  time.Duration
	mu    sync.Mutex
	evs   []M
	seen  bool
	over  bool // the stream closed by itself
	fin   chan struct{}
	finOK sync.Once
}

func (s *sub) opts() []resource.ReadOption {
	o := []resource.ReadOption{resource.WithUpdatesOnly(s.only), resource.WithBackpressure(s.bp)}
	switch s.mask {
	case "a":
		o = append(o, resource.WithReadPaths(&testproto.TestAllTypes{}, "default_int32"))
	case "b":
		o = append(o, resource.WithReadPaths(&testproto.TestAllTypes{}, "default_int64"))
	}
	return o
}

// add an event; reports whether it is the sentinel
func (s *sub) add(id string, rm bool, p ops.Pair) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.seen {
		return
	}
	if p[0] == sentinel || p[1] == sentinel {
		s.seen = true
		s.finOK.Do(func() { close(s.fin) })
		return
	}
	s.evs = append(s.evs, M{"id": id, "rm": rm, "v": p})
}

func (s *sub) closed(ctx context.Context) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.seen && ctx.Err() == nil {
		s.over = true
	}
	s.finOK.Do(func() { close(s.fin) })
}

func (s *sub) caughtUp(final map[string]ops.Pair, id string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	p, ok := final[id]
	if len(s.evs) == 0 || s.over {
		return !ok || s.over
	}
	switch s.mask {
	case "a":
		p[1] = 0
	case "b":
		p[0] = 0
	}
	return ok && s.evs[len(s.evs)-1]["v"] == p
}

func (s *sub) sleep(n int) {
	if s.pace > 0 && n%2 == 0 {
		time.Sleep(s.pace)
	}
}

// open subscribes and starts reading
func (s *sub) open(ctx context.Context, st *ops.Store) {
	pull := func(ch <-chan *resource.ValueChange, id string) {
		defer s.closed(ctx)
		n := 0
		for c := range ch {
			if t, ok := ops.IsT(c.Value); ok {
				s.add(id, false, ops.ToP(t))
			}
			n++
			s.sleep(n)
		}
	}
	switch {
	case st.Val != nil:
		ch := st.Val.Pull(ctx, s.opts()...)
		go pull(ch, "v")
	case s.id != "":
		ch := st.Coll.PullID(ctx, s.id, s.opts()...)
		go pull(ch, s.id)
	default:
		ch := st.Coll.Pull(ctx, s.opts()...)
		go func() {
			defer s.closed(ctx)
			n := 0
			for c := range ch {
				if c.ChangeType == types.ChangeType_REMOVE {
					s.add(c.Id, true, ops.Pair{})
				} else if t, ok := ops.IsT(c.NewValue); ok {
					s.add(c.Id, false, ops.ToP(t))
				} else {
					s.add("malformed "+c.ChangeType.String()+" "+c.Id, false, ops.Pair{})
				}
				n++
				s.sleep(n)
			}
		}()
	}
}

type run struct {
	h      *ops.History
	ctx    context.Context
	cancel func()
	mu     sync.Mutex
	subs   []*sub
	storm  bool
}

var stucks int

// enough has been seen going wrong
func tooMany() bool { return stucks > 10 }

func newRun(id, kind string, init map[string]ops.Pair) *run {
	r := &run{h: ops.NewHistory(id, kind, init, nil)}
	r.ctx, r.cancel = context.WithCancel(context.Background())
	return r
}

func (r *run) subscribe(s *sub) {
	s.fin = make(chan struct{})
	r.mu.Lock()
	s.k = fmt.Sprintf("k%d", len(r.subs))
	r.subs = append(r.subs, s)
	r.mu.Unlock()
	r.h.Mu.Lock()
	r.h.S.Ev = append(r.h.S.Ev, M{"e": "sub", "k": s.k, "only": s.only})
	r.h.Mu.Unlock()
	s.open(r.ctx, r.h.St)
	r.h.Mu.Lock()
	r.h.S.Ev = append(r.h.S.Ev, M{"e": "subret", "k": s.k})
	r.h.Mu.Unlock()
}

func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// quiet takes the contents, writes the sentinel, waits for every subscriber to get it
func (r *run) quiet(out *vlib.Out, ok bool) {
	defer r.cancel()
	if !ok {
		r.h.S.Add(M{"e": "hang"})
		out.Write(r.h.S)
		return
	}
	final := r.h.Contents()
	ev := M{"e": "quiet", "m": final}
	// a lossy stream may replace what it has not delivered yet with the sentinel: let it deliver first
	stuck := map[*sub]bool{}
	for _, s := range r.subs {
		if s.bp || s.only || s.id == "" && r.h.St.Val == nil {
			continue
		}
		id := s.id
		if r.h.St.Val != nil {
			id = "v"
		}
		// twice: it may look right for a moment before the last events arrive
		for n, t0 := 0, time.Now(); n < 2; {
			if s.caughtUp(final, id) {
				n++
				time.Sleep(300 * time.Microsecond)
			} else {
				n = 0
				time.Sleep(50 * time.Microsecond)
			}
			if time.Since(t0) > 3*time.Second {
				stuck[s] = true
				stucks++
				break
			}
		}
	}
	put := func(id string) {
		r.h.St.Coll.Update(id, ops.ToT(ops.Pair{sentinel, sentinel}), resource.WithCreateIfAbsent())
	}
	wait := func(s *sub) {
		select {
		case <-s.fin:
		case <-time.After(5 * time.Second):
			stucks++
		}
	}
	ok = within(15*time.Second, func() {
		st := r.h.St
		if st.Val != nil {
			st.Val.Set(ops.ToT(ops.Pair{sentinel, sentinel}))
		} else {
			put("~")
		}
	})
	if ok && r.h.St.Val == nil {
		ids := map[string]bool{}
		for _, s := range r.subs {
			if s.id == "" {
				wait(s) // a sentinel for an item may replace the item's last event
			} else {
				ids[s.id] = true
			}
		}
		ok = within(15*time.Second, func() {
			for id := range ids {
				put(id)
			}
		})
	}
	if !ok {
		r.h.S.Add(M{"e": "hang in sentinel"})
		out.Write(r.h.S)
		return
	}
	subs := []M{}
	for _, s := range r.subs {
		wait(s)
		s.mu.Lock()
		evs := append([]M{}, s.evs...)
		subs = append(subs, M{"k": s.k, "only": s.only, "id": s.id, "mask": s.mask, "bp": s.bp, "events": evs, "closed": s.over, "sentinel": s.seen, "stuck": stuck[s]})
		s.mu.Unlock()
	}
	ev["subs"] = subs
	if r.storm {
		ev["e"] = "storm"
		r.h.S.Ev = nil
	}
	r.h.S.Add(ev)
	out.Write(r.h.S)
}

func randSub(r *rand.Rand, kind string) *sub {
	s := &sub{only: r.Intn(3) == 0, bp: r.Intn(2) == 0, mask: []string{"", "", "a", "b"}[r.Intn(4)]}
	if kind == "coll" && r.Intn(3) == 0 {
		s.id = []string{"x", "x", "y"}[r.Intn(3)]
	}
	s.pace = []time.Duration{0, 0, 20 * time.Microsecond, 200 * time.Microsecond}[r.Intn(4)]
	return s
}

// randOp: operations that mostly change something
func randOp(r *rand.Rand, kind string) ops.Op {
	for {
		o := ops.RandOp(r, kind)
		if o.Op == "get" || o.Op == "list" || o.Gen {
			continue
		}
		if len(o.Exp) > 0 && r.Intn(3) > 0 {
			continue
		}
		return o
	}
}

func schedules(out *vlib.Out, file string, seed int64) {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	n := 0
	for sc.Scan() && !tooMany() {
		var tokens []string
		if err := json.Unmarshal(sc.Bytes(), &tokens); err != nil {
			fmt.Fprintln(os.Stderr, "bad schedule", err)
			os.Exit(3)
		}
		n++
		r := rand.New(rand.NewSource(seed*31 + int64(n)))
		kind, init := "coll", ops.Inits[r.Intn(len(ops.Inits))]
		if r.Intn(2) == 0 {
			kind, init = "value", ops.ValueInits[r.Intn(len(ops.ValueInits))]
		}
		x := newRun(fmt.Sprintf("sched-%s-%d", kind, n), kind, init)
		c := sched.New("resource.save", "resource.delete", "resource.publish", "resource.listen", "minibus.listen")
		names := map[string]bool{}
		for _, t := range tokens {
			if names[t] {
				continue
			}
			names[t] = true
			if strings.HasPrefix(t, "s") {
				s := randSub(r, kind)
				if r.Intn(2) == 0 {
					s.id = ""
				}
				c.Go(t, func() { x.subscribe(s) })
				// one that was there all along
				if r.Intn(3) == 0 {
					x.subscribe(randSub(r, kind))
				}
			} else {
				o := randOp(r, kind)
				if kind == "coll" && r.Intn(3) > 0 {
					o.ID = "x"
				}
				c.Go(t, func() { x.h.Do(t, o, ops.None) })
			}
		}
		for _, t := range tokens {
			w := c.Step(t)
			if w == "minibus.listen" { // same window as resource.listen
				c.Step(t)
			}
		}
		x.quiet(out, c.Finish(20*time.Second))
	}
}

func stress(out *vlib.Out, seed int64, n int) {
	for i := 0; i < n && !tooMany(); i++ {
		r := rand.New(rand.NewSource(seed*104729 + int64(i)))
		kind, init := "coll", ops.Inits[r.Intn(len(ops.Inits))]
		if r.Intn(3) == 0 {
			kind, init = "value", ops.ValueInits[r.Intn(len(ops.ValueInits))]
		}
		x := newRun(fmt.Sprintf("stress-%s-%d", kind, i), kind, init)
		c := sched.New()
		c.OnPoint = sched.Jitter(r.Int63())
		var wg sync.WaitGroup
		start := make(chan struct{})
		for p := 0; p < 1+r.Intn(3); p++ {
			pr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 3+pr.Intn(3); k++ {
					x.h.Do(fmt.Sprint(p), randOp(pr, kind), func(string) { runtime.Gosched() })
					if pr.Intn(3) == 0 {
						time.Sleep(time.Duration(pr.Intn(80)) * time.Microsecond)
					}
				}
			}()
		}
		for p := 0; p < 1+r.Intn(3); p++ {
			pr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				time.Sleep(time.Duration(pr.Intn(150)) * time.Microsecond)
				x.subscribe(randSub(pr, kind))
			}()
		}
		close(start)
		ok := within(20*time.Second, wg.Wait)
		c.Finish(time.Second)
		x.quiet(out, ok)
	}
}

// windows: one call interrupted at the k-th point it passes (locks included), for every k, by another call
func windows(out *vlib.Out, seed int64, keep float64) {
	pick := func(kind string) []*ops.Op {
		id := map[string]string{"coll": "x", "value": "v"}[kind]
		l := []*ops.Op{nil, // subscribe
			{Op: "write", ID: id, Create: true, Mode: "put", V: ops.Pair{2, 2}},
			{Op: "write", ID: id, Create: true, Mode: "inc", V: ops.Pair{1, 0}},
		}
		if kind == "value" {
			return append(l, &ops.Op{Op: "write", ID: id, Create: true, Mode: "putb", V: ops.Pair{3, 3}})
		}
		return append(l,
			&ops.Op{Op: "write", ID: id, Absent: true, Create: true, AddCall: true, Mode: "put", V: ops.Pair{1, 3}},
			&ops.Op{Op: "delete", ID: id, Mode: "put"},
			&ops.Op{Op: "write", ID: id, Mode: "puta", V: ops.Pair{4, 4}})
	}
	rnd := rand.New(rand.NewSource(seed))
	n := 0
	run := func(kind string, init map[string]ops.Pair, a, b *ops.Op, k int) (hit bool) {
		n++
		x := newRun(fmt.Sprintf("window-%s-%d", kind, n), kind, init)
		x.subscribe(&sub{bp: rnd.Intn(2) == 0})
		sa, sb := randSub(rnd, kind), randSub(rnd, kind)
		do := func(p string, o *ops.Op, s *sub) {
			if o == nil {
				x.subscribe(s)
			} else {
				x.h.Do(p, *o, ops.None)
			}
		}
		c := sched.New()
		var ga int64
		at := 0
		var wg sync.WaitGroup
		c.OnPoint = func(g int64, p string) {
			if g != ga {
				return
			}
			at++
			if at-1 != k {
				return
			}
			hit = true
			done := make(chan struct{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer close(done)
				do("b", b, sb)
			}()
			select {
			case <-done:
			case <-time.After(time.Millisecond): // needs a to make progress
			}
		}
		fin := make(chan struct{})
		go func() {
			defer close(fin)
			ga = sched.Goid()
			do("a", a, sa)
		}()
		ok := within(20*time.Second, func() { <-fin; wg.Wait() })
		c.Finish(time.Second)
		if hit || !ok {
			x.quiet(out, ok)
		} else {
			x.cancel()
		}
		return hit
	}
	for _, kind := range []string{"coll", "value"} {
		inits := ops.Inits[:3]
		if kind == "value" {
			inits = ops.ValueInits
		}
		for _, init := range inits {
			for _, a := range pick(kind) {
				for _, b := range pick(kind) {
					for k := 0; k < 60 && !tooMany(); k++ {
						if rnd.Float64() < keep && !run(kind, init, a, b, k) {
							break
						}
					}
				}
			}
		}
	}
}

// storm: writers contending for the same items with subscribers reading along; only the end is recorded
func storm(out *vlib.Out, seed int64, n int) {
	for i := 0; i < n && !tooMany(); i++ {
		r := rand.New(rand.NewSource(seed*15485863 + int64(i)))
		kind, init := "coll", ops.Inits[r.Intn(len(ops.Inits))]
		if r.Intn(4) == 0 {
			kind, init = "value", ops.ValueInits[r.Intn(len(ops.ValueInits))]
		}
		x := newRun(fmt.Sprintf("storm-%s-%d", kind, i), kind, init)
		x.storm = true
		c := sched.New()
		c.OnPoint = sched.Jitter(r.Int63())
		sub := func(r *rand.Rand) {
			x.subscribe(&sub{bp: r.Intn(3) > 0, mask: []string{"", "a"}[r.Intn(2)]})
		}
		sub(r)
		var wg sync.WaitGroup
		for p := 0; p < 4; p++ {
			pr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 12; k++ {
					o := ops.Op{Op: "write", ID: "x", Create: true, Mode: "put", V: ops.Pair{int32(1 + p), int32(k)}}
					if kind == "value" {
						o.ID = "v"
					} else if pr.Intn(3) == 0 {
						o = ops.Op{Op: "delete", ID: "x", AllowMissing: true}
					}
					x.h.St.Exec(o, ops.None)
					if p == 3 && k == 6 {
						sub(pr)
					}
				}
			}()
		}
		ok := within(20*time.Second, wg.Wait)
		c.Finish(time.Second)
		x.quiet(out, ok)
	}
}

func main() {
	out := vlib.NewOut()
	defer out.Close()
	seed := vlib.Seed()
	switch os.Args[1] {
	case "schedules":
		schedules(out, os.Args[2], seed)
	case "windows":
		keep := 0.8
		if vlib.Thorough() {
			keep = 1
		}
		windows(out, seed, keep)
	case "storm":
		storm(out, seed, vlib.N(1000, 20000))
	case "stress":
		stress(out, seed, vlib.N(1200, 12000))
	}
}
