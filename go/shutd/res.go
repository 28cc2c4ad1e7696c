package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/verif/ops"
	"github.com/smart-core-os/sc-golang/internal/verif/sched"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type rsub struct {
	k, id  string
	bp     bool
	most   int  // stops receiving after this many, -1: never stops
	left   bool // does not even receive when cancelled
	ctx    context.Context
	cancel context.CancelFunc
	done   chan struct{}
	was    bool
	mu     sync.Mutex
	last   int32 // a of the last value received, of id or of "~"
	over   time.Time
}

type resRun struct {
	log
	st      *ops.Store
	kind    string
	lmu     sync.Mutex
	ss      []*rsub
	shut    bool
	over    bool      // nobody comes any more
	blocked time.Time // when a subscriber that does not receive was last cancelled
	n       int32
	quiet   chan struct{} // nothing of the library is running
}

func newRes(kind string) *resRun {
	init := map[string]ops.Pair{"x": {1, 0}, "y": {1, 1}}
	if kind == "value" {
		init = map[string]ops.Pair{"v": {1, 0}}
	}
	return &resRun{st: ops.NewStore(kind, init, nil), kind: kind, n: 100, quiet: make(chan struct{})}
}

// receive until the channel closes, pausing for good after most
func (s *rsub) receive(rr *resRun, next func() (int32, bool, bool)) {
	n := 0
	for {
		if s.most >= 0 && n >= s.most {
			<-s.ctx.Done()
			if s.left {
				<-rr.quiet
			}
		}
		v, mark, ok := next()
		if !ok {
			break
		}
		n++
		if mark {
			s.mu.Lock()
			s.last = v
			s.mu.Unlock()
		}
	}
	s.mu.Lock()
	s.over = time.Now()
	s.mu.Unlock()
	rr.add(M{"e": "closed", "k": s.k, "intime": true})
	close(s.done)
}

func (rr *resRun) sub(id string, bp, only bool, most int) *rsub {
	s := &rsub{id: id, bp: bp, most: most % 10, left: most >= 10, done: make(chan struct{})}
	most = s.most
	s.ctx, s.cancel = context.WithCancel(context.Background())
	rr.lmu.Lock()
	if rr.over {
		rr.lmu.Unlock()
		return nil
	}
	if rr.shut && s.most >= 0 {
		s.most, s.left, most = -1, false, -1
	}
	s.k = fmt.Sprint("k", len(rr.ss))
	rr.ss = append(rr.ss, s)
	rr.add(M{"e": "sub", "k": s.k, "id": id, "bp": bp, "reads": most < 0})
	rr.lmu.Unlock()
	o := []resource.ReadOption{resource.WithBackpressure(bp), resource.WithUpdatesOnly(only)}
	var vc <-chan *resource.ValueChange
	var cc <-chan *resource.CollectionChange
	rr.call(func() {
		switch {
		case rr.st.Val != nil:
			vc = rr.st.Val.Pull(s.ctx, o...)
		case id != "":
			vc = rr.st.Coll.PullID(s.ctx, id, o...)
		default:
			cc = rr.st.Coll.Pull(s.ctx, o...)
		}
	})
	rr.add(M{"e": "subbed", "k": s.k})
	go s.receive(rr, func() (int32, bool, bool) {
		if vc != nil {
			c, ok := <-vc
			if !ok {
				return 0, false, false
			}
			t, _ := ops.IsT(c.Value)
			return t.GetDefaultInt32(), true, true
		}
		c, ok := <-cc
		if !ok {
			return 0, false, false
		}
		t, _ := ops.IsT(c.NewValue)
		return t.GetDefaultInt32(), c.Id == "~", true
	})
	return s
}

func (rr *resRun) stop(s *rsub) {
	rr.lmu.Lock()
	was := s.was
	s.was = true
	if s.most >= 0 {
		rr.blocked = time.Now()
	}
	rr.lmu.Unlock()
	if was {
		return
	}
	rr.add(M{"e": "cancel", "k": s.k})
	s.cancel()
}

// since when a writer is not waiting for somebody who does not receive
func (rr *resRun) waiting(t0 time.Time) time.Duration {
	rr.lmu.Lock()
	defer rr.lmu.Unlock()
	if rr.blocked.After(t0) {
		t0 = rr.blocked
	}
	return time.Since(t0)
}

func (rr *resRun) write(w int, id string, rm bool) {
	rr.lmu.Lock()
	rr.n++
	n := rr.n
	rr.lmu.Unlock()
	rr.put(w, id, rm, n)
}

func (rr *resRun) put(w int, id string, rm bool, n int32) {
	o := ops.Op{Op: "write", ID: id, Create: true, Mode: "put", V: ops.Pair{n, int32(w)}}
	if rm {
		o = ops.Op{Op: "delete", ID: id}
		rr.add(M{"e": "remove", "w": w, "id": id})
	}
	t0 := time.Now()
	code := ""
	rr.call(func() { code, _, _, _ = rr.st.Exec(o, ops.None) })
	if rm {
		rr.add(M{"e": "removed", "w": w, "ok": code == "OK"})
	}
	if len(code) > 5 && code[:5] == "panic" {
		rr.call(func() { panic(code) })
	}
	rr.add(M{"e": "wrote", "slow": rr.waiting(t0) > limit*2/3})
}

func (rr *resRun) finish(out *vlib.Out, id string, writers <-chan struct{}) {
	all := func() []*rsub {
		rr.lmu.Lock()
		defer rr.lmu.Unlock()
		rr.shut = true // whoever comes now must not hold up anybody
		return append([]*rsub{}, rr.ss...)
	}
	if !wait(writers, 3*time.Millisecond) {
		for _, s := range all() {
			if s.most >= 0 {
				rr.stop(s)
			}
		}
		if !wait(writers, limit) {
			rr.add(M{"e": "writers stuck"})
			bad.Add(1)
		}
	} else {
		for _, s := range all() {
			if s.most >= 0 {
				rr.stop(s)
			}
		}
	}
	rr.lmu.Lock()
	rr.over = true
	ss := append([]*rsub{}, rr.ss...)
	rr.lmu.Unlock()
	// those that still receive get what is written last
	final := int32(999)
	fin := make(chan struct{})
	go func() {
		switch {
		case rr.kind == "value":
			rr.put(9, "v", false, final)
		default:
			rr.put(9, "x", false, final)
			rr.put(9, "~", false, final)
		}
		close(fin)
	}()
	if !wait(fin, limit) {
		rr.add(M{"e": "last write stuck"})
		bad.Add(1)
	}
	for _, s := range ss {
		rr.lmu.Lock()
		was := s.was
		rr.lmu.Unlock()
		if was {
			continue
		}
		end := time.Now().Add(limit)
		ok, open := false, false
		for !ok && time.Now().Before(end) {
			s.mu.Lock()
			ok, open = s.last == final || !s.over.IsZero(), s.over.IsZero()
			s.mu.Unlock()
			if !ok {
				time.Sleep(20 * time.Microsecond)
			}
		}
		rr.add(M{"e": "caught", "k": s.k, "intime": ok, "open": open})
		if !ok {
			bad.Add(1)
		}
	}
	for _, s := range ss {
		rr.stop(s)
	}
	for _, s := range ss {
		if !s.left && !wait(s.done, limit) {
			bad.Add(1)
		}
	}
	if len(vlib.LibGoroutinesAfter(0, limit)) == 0 {
		close(rr.quiet)
	}
	for _, s := range ss {
		if !wait(s.done, limit) {
			bad.Add(1)
		}
	}
	rr.end(out, id)
}

func (rr *resRun) random(r *rand.Rand) (id string, bp, only bool, most int) {
	if rr.kind == "coll" && r.Intn(3) == 0 {
		id = "x"
	}
	return id, r.Intn(4) > 0, r.Intn(2) == 0, []int{-1, -1, -1, 0, 1, 2, 10, 11}[r.Intn(8)]
}

func resWindows(out *vlib.Out, seed int64, scenarios int) {
	for i := 0; i < scenarios && !tooMany(); i++ {
		kind := []string{"coll", "value"}[i%2]
		ns := 1 + i/2%3
		script := rand.New(rand.NewSource(seed*86028121 + int64(i))).Int63()
		r := rand.New(rand.NewSource(script))
		sweep(rand.New(rand.NewSource(script)), 160, func(k, hold int) bool {
			r.Seed(script)
			rr := newRes(kind)
			what := r.Intn(6)
			in := newInject(k, hold, func() {
				rr.lmu.Lock()
				var s *rsub
				if len(rr.ss) > 0 {
					s = rr.ss[0]
				}
				rr.lmu.Unlock()
				if s != nil && what != 5 {
					rr.stop(s)
				}
				if what == 5 { // somebody comes, and leaves
					if s = rr.sub("", true, true, 0); s != nil {
						rr.stop(s)
					}
				}
			})
			var wg sync.WaitGroup
			late := r.Intn(2) // subscribe while writing
			for j := 0; j < ns; j++ {
				id, bp, only, most := rr.random(r)
				if j == ns-1 && late == 1 {
					wg.Add(1)
					go func() { defer wg.Done(); rr.sub(id, bp, only, most) }()
					continue
				}
				rr.sub(id, bp, only, most)
			}
			for w := 0; w < 1+r.Intn(2); w++ {
				type wr struct {
					id string
					rm bool
				}
				var ws []wr
				for n := 1 + r.Intn(3); n > 0; n-- {
					x := wr{"v", false}
					if kind == "coll" {
						x = wr{[]string{"x", "x", "y"}[r.Intn(3)], r.Intn(3) == 0}
					}
					ws = append(ws, x)
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, x := range ws {
						rr.write(w, x.id, x.rm)
					}
				}()
			}
			rr.finish(out, fmt.Sprintf("resource-%s-%d", kind, i), group(&wg))
			p := in.passed()
			in.c.Finish(time.Second)
			return p
		})
	}
}

func resStress(out *vlib.Out, seed int64, n int) {
	for i := 0; i < n && !tooMany(); i++ {
		r := rand.New(rand.NewSource(seed*122949823 + int64(i)))
		kind := []string{"coll", "value"}[i%2]
		rr := newRes(kind)
		c := sched.New()
		c.OnPoint = sched.Jitter(r.Int63())
		var wg, sg sync.WaitGroup
		for w := 0; w < 1+r.Intn(4); w++ {
			wr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 3 + wr.Intn(8); n > 0; n-- {
					id, rm := "v", false
					if kind == "coll" {
						id, rm = []string{"x", "x", "y"}[wr.Intn(3)], wr.Intn(4) == 0
					}
					rr.write(w, id, rm)
				}
			}()
		}
		for j := r.Intn(9); j > 0; j-- {
			id, bp, only, most := rr.random(r)
			before, during := time.Duration(r.Intn(150))*time.Microsecond, time.Duration(r.Intn(300))*time.Microsecond
			stay := most < 0 && r.Intn(2) == 0
			sg.Add(1)
			go func() {
				defer sg.Done()
				time.Sleep(before)
				s := rr.sub(id, bp, only, most)
				time.Sleep(during)
				if s != nil && !stay {
					rr.stop(s)
				}
			}()
		}
		if !wait(group(&sg), limit) {
			rr.add(M{"e": "subscribing stuck"})
			bad.Add(1)
		}
		rr.finish(out, fmt.Sprintf("resstress-%s-%d", kind, i), group(&wg))
		c.Finish(time.Second)
	}
}
