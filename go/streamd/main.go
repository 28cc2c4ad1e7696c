// streamd records one writer and its subscribers (C04, C08).
package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/ops"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
)

type M = vlib.M

const sentinel = 777

// clk advances on every reading in ticking mode
type clk struct {
	mu   sync.Mutex
	n    int64
	tick bool
}

func (c *clk) Now() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.tick {
		c.n++
	}
	return time.Unix(c.n, 0)
}
func (c *clk) at() int64 { c.mu.Lock(); defer c.mu.Unlock(); return c.n }
func (c *clk) advance()  { c.mu.Lock(); defer c.mu.Unlock(); c.n++ }
func unix(t time.Time) int64 {
	if t.IsZero() {
		return -7
	}
	return t.Unix()
}

type pred struct {
	All    bool
	Acc    [][2]any
	absent bool // what it says about absent values
}

func (p pred) m() M { return M{"all": p.All, "acc": append([][2]any{}, p.Acc...)} }
func (p pred) opt() []resource.ReadOption {
	if p.All {
		return nil
	}
	return []resource.ReadOption{resource.WithInclude(func(id string, m proto.Message) bool {
		t, ok := ops.IsT(m)
		if !ok {
			return p.absent
		}
		if id == "~" {
			return true
		}
		for _, x := range p.Acc {
			if x[0] == id && x[1] == t.DefaultInt32 {
				return true
			}
		}
		return false
	})}
}

type sub struct {
	k, pid, mask string
	only, bp     bool
	tokens       chan struct{} // if set, every receive takes one
	inc          pred
	cancel       func()
	mu           sync.Mutex
	evs          []M
	seen, over   bool
	fin          chan struct{}
	once         sync.Once
}

func maskOpt(mask string) []resource.ReadOption {
	switch mask {
	case "a":
		return []resource.ReadOption{resource.WithReadPaths(&testproto.TestAllTypes{}, "default_int32")}
	case "b":
		return []resource.ReadOption{resource.WithReadPaths(&testproto.TestAllTypes{}, "default_int64")}
	}
	return nil
}

func opt(m proto.Message) []ops.Pair {
	if t, ok := ops.IsT(m); ok {
		return []ops.Pair{ops.ToP(t)}
	}
	return []ops.Pair{}
}

func (s *sub) add(e M) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.seen {
		return
	}
	if p := e["new"].([]ops.Pair); len(p) > 0 && (p[0][0] == sentinel || p[0][1] == sentinel) {
		s.seen = true
		s.once.Do(func() { close(s.fin) })
		return
	}
	s.evs = append(s.evs, e)
}

func (s *sub) open(st *ops.Store, raw string) {
	s.fin = make(chan struct{})
	var ctx context.Context
	ctx, s.cancel = context.WithCancel(context.Background())
	o := append(maskOpt(s.mask), resource.WithUpdatesOnly(s.only), resource.WithBackpressure(s.bp))
	o = append(o, s.inc.opt()...)
	end := func() {
		s.mu.Lock()
		defer s.mu.Unlock()
		if !s.seen && ctx.Err() == nil {
			s.over = true
		}
		s.once.Do(func() { close(s.fin) })
	}
	if st.Val != nil || s.pid != "" {
		var ch <-chan *resource.ValueChange
		if st.Val != nil {
			ch = st.Val.Pull(ctx, o...)
		} else {
			ch = st.Coll.PullID(ctx, raw, o...)
		}
		go func() {
			defer end()
			for c := range ch {
				s.add(M{"id": "", "kind": "VALUE", "old": []ops.Pair{}, "new": opt(c.Value), "time": unix(c.ChangeTime), "seed": c.SeedValue, "last": c.LastSeedValue})
			}
		}()
		return
	}
	ch := st.Coll.Pull(ctx, o...)
	go func() {
		defer end()
		for {
			if s.tokens != nil {
				<-s.tokens
			}
			c, ok := <-ch
			if !ok {
				return
			}
			s.add(M{"id": c.Id, "kind": c.ChangeType.String(), "old": opt(c.OldValue), "new": opt(c.NewValue), "time": unix(c.ChangeTime), "seed": c.SeedValue, "last": c.LastSeedValue})
		}
	}()
}

func (s *sub) m() M {
	s.mu.Lock()
	defer s.mu.Unlock()
	return M{"e": "stream", "k": s.k, "pid": s.pid, "mask": s.mask, "only": s.only, "bp": s.bp, "inc": s.inc.m(),
		"events": append([]M{}, s.evs...), "closed": s.over, "done": s.seen || s.over}
}

// wait until the sentinel (or the end) got through
func (s *sub) wait() bool {
	select {
	case <-s.fin:
		return true
	case <-time.After(5 * time.Second):
		failed++
		return false
	}
}

var failed int

type plan struct {
	id, kind, eq string
	init         map[string]ops.Pair
	lower, tick  bool
	ops          []ops.Op
	wts          []int64
	subs         []*sub
	at           []int // sub i opens before op at[i]
	preds        []pred
	r            *rand.Rand
}

func run(out *vlib.Out, pl plan) {
	c := &clk{n: 10, tick: pl.tick}
	o := []resource.Option{resource.WithClock(c)}
	switch pl.eq {
	case "equal":
		o = append(o, resource.WithNoDuplicates())
	case "a":
		o = append(o, resource.WithEquivalence(resource.ComparerFunc(func(x, y proto.Message) bool {
			a, ok1 := ops.IsT(x)
			b, ok2 := ops.IsT(y)
			return ok1 == ok2 && (!ok1 || a.DefaultInt32 == b.DefaultInt32)
		})))
	}
	raw := func(id string) string { return id }
	if pl.lower {
		o = append(o, resource.WithIDInterceptor(strings.ToLower))
		raw = strings.ToUpper
	}
	for _, x := range pl.subs {
		if pl.eq == "a" && x.mask == "b" { // all the same to it
			x.mask = ""
		}
	}
	t0 := c.at()
	st := ops.NewStore(pl.kind, pl.init, nil, o...)
	st.RawID = raw
	s := &vlib.Session{ID: pl.id}
	cfg := M{"init": pl.init, "kind": pl.kind, "eq": pl.eq, "t0lo": t0, "t0hi": c.at(), "tick": pl.tick}
	s.Cfg = cfg
	ids := map[string]bool{}
	for id := range pl.init {
		ids[id] = true
	}
	ok := vlib.CatchTimeout(20*time.Second, func() {
		for i := 0; i <= len(pl.ops); i++ {
			for j, x := range pl.subs {
				if pl.at[j] == i {
					x.k = fmt.Sprint(j)
					x.open(st, raw(x.pid))
					s.Add(M{"e": "sub", "k": x.k})
				}
			}
			if i == len(pl.ops) {
				break
			}
			op := pl.ops[i]
			c.advance()
			wt := pl.wts[i]
			st.Extra = nil
			if wt >= 0 {
				st.Extra = []resource.WriteOption{resource.WithWriteTime(time.Unix(wt, 0))}
			}
			lo := c.at()
			code, ret, _, id := st.Exec(op, ops.None)
			op.ID = id
			ids[id] = true
			if op.Exp == nil {
				op.Exp = []ops.Pair{}
			}
			if op.Chk == nil {
				op.Chk = []int32{}
			}
			ev := M{"e": "write", "op": op, "code": code, "ret": []any{}, "wt": wt, "lo": lo, "hi": c.at()}
			if len(ret) > 0 {
				ev["ret"] = ret[0]
			}
			s.Add(ev)
			for _, x := range pl.subs {
				if x.tokens != nil {
					for n := pl.r.Intn(3); n > 0; n-- {
						select {
						case x.tokens <- struct{}{}:
						default:
						}
					}
				}
			}
			if st.Coll != nil {
				for _, p := range pl.preds {
					mask := []string{"", "", "a"}[i%3]
					r := []ops.Pair{}
					for _, m := range st.Coll.List(append(maskOpt(mask), p.opt()...)...) {
						r = append(r, opt(m)...)
					}
					s.Add(M{"e": "list", "inc": p.m(), "mask": mask, "r": r})
				}
			}
		}
		st.Extra, st.RawID = nil, nil
		for _, x := range pl.subs {
			if x.tokens != nil {
				close(x.tokens)
			}
		}
		if st.Val != nil {
			st.Val.Set(ops.ToT(ops.Pair{sentinel, sentinel}))
		} else {
			st.Coll.Update("~", ops.ToT(ops.Pair{sentinel, sentinel}), resource.WithCreateIfAbsent())
		}
		for _, x := range pl.subs {
			if x.pid == "" {
				x.wait()
			}
		}
		for _, x := range pl.subs {
			if x.pid != "" {
				st.Coll.Update(x.pid, ops.ToT(ops.Pair{sentinel, sentinel}), resource.WithCreateIfAbsent())
				x.wait()
			}
		}
	})
	if ok != "" {
		s.Add(M{"e": ok})
	}
	var order []string
	for id := range ids {
		order = append(order, id)
	}
	sort.Strings(order)
	cfg["ids"] = append([]string{}, order...)
	all := []M{}
	for _, x := range pl.subs {
		if x.cancel != nil {
			x.cancel()
			m := x.m()
			s.Add(m)
			if x.bp {
				all = append(all, m)
			}
		}
	}
	if pl.eq == "none" {
		s.Add(M{"e": "times", "subs": all})
	}
	out.Write(s)
}

func randOps(r *rand.Rand, kind string, n int, gen bool) (l []ops.Op, wts []int64) {
	for len(l) < n {
		o := ops.RandOp(r, kind)
		if o.Op == "get" || o.Op == "list" || o.Gen && !gen {
			continue
		}
		l = append(l, o)
		wt := int64(-1)
		if r.Intn(3) == 0 {
			wt = int64(r.Intn(40))
		}
		wts = append(wts, wt)
	}
	return
}

var everything = pred{All: true}

func randPred(r *rand.Rand) pred {
	p := pred{absent: r.Intn(2) == 0}
	for _, id := range []string{"x", "y"} {
		for a := int32(0); a < 6; a++ {
			if r.Intn(2) == 0 {
				p.Acc = append(p.Acc, [2]any{id, a})
			}
		}
	}
	return p
}

func script(out *vlib.Out, seed int64, n int) {
	masks := []string{"", "", "a", "b"}
	// every pair of operations, with every kind of subscriber from the start
	for _, kind := range []string{"coll", "value"} {
		alpha, inits := ops.Alphabet("x"), ops.Inits
		if kind == "value" {
			alpha, inits = ops.ValueOps(), ops.ValueInits
		}
		for ii, init := range inits {
			for ai, a := range alpha {
				for bi, b := range alpha {
					if a.Op == "get" || b.Op == "get" {
						continue
					}
					q := ai + bi + ii + int(seed)
					var subs []*sub
					var at []int
					for i := 0; i < 3; i++ {
						x := &sub{bp: true, only: (q+i)%3 == 0, mask: masks[(q/3+i)%4], inc: everything}
						if kind == "coll" && i == 2 {
							x.pid = "x"
						}
						subs = append(subs, x)
						at = append(at, []int{0, 0, 1, 2}[(q+i)%4])
					}
					run(out, plan{id: fmt.Sprintf("pair-%s-%d", kind, q), kind: kind, eq: []string{"none", "none", "equal", "a"}[(ai*7+bi)%4],
						init: init, tick: q%5 == 0, ops: []ops.Op{a, b}, wts: []int64{int64(q%4)*7 - 1, int64(bi%2)*3 - 1}, subs: subs, at: at})
					if failed > 8 {
						return
					}
				}
			}
		}
	}
	for i := 0; i < n && failed < 8; i++ {
		r := rand.New(rand.NewSource(seed*6700417 + int64(i)))
		kind, init := "coll", ops.Inits[r.Intn(len(ops.Inits))]
		if r.Intn(3) == 0 {
			kind, init = "value", ops.ValueInits[r.Intn(len(ops.ValueInits))]
		}
		if kind == "coll" && r.Intn(5) == 0 { // many items
			init = map[string]ops.Pair{}
			for j := 0; j < 5+r.Intn(20); j++ {
				init[fmt.Sprintf("i%02d", r.Intn(50))] = ops.Pair{int32(r.Intn(3)), int32(r.Intn(3))}
			}
		}
		lower := kind == "coll" && r.Intn(4) == 0
		pl := plan{id: fmt.Sprintf("rand-%s-%d", kind, i), kind: kind, init: init, eq: []string{"none", "none", "equal", "a"}[r.Intn(4)],
			lower: lower, tick: r.Intn(2) == 0}
		pl.ops, pl.wts = randOps(r, kind, 3+r.Intn(14), !lower)
		for j := 0; j < 1+r.Intn(4); j++ {
			x := &sub{bp: true, only: r.Intn(3) == 0, mask: masks[r.Intn(4)], inc: everything}
			if kind == "coll" && r.Intn(3) == 0 {
				x.pid = []string{"x", "y"}[r.Intn(2)]
			}
			pl.subs = append(pl.subs, x)
			pl.at = append(pl.at, []int{0, 0, r.Intn(len(pl.ops) + 1)}[r.Intn(3)])
		}
		run(out, pl)
	}
}

func include(out *vlib.Out, seed int64, n int) {
	for i := 0; i < n && failed < 8; i++ {
		r := rand.New(rand.NewSource(seed*179424673 + int64(i)))
		pl := plan{id: fmt.Sprintf("inc-%d", i), kind: "coll", init: ops.Inits[r.Intn(len(ops.Inits))], eq: []string{"none", "none", "none", "equal"}[r.Intn(4)], r: r}
		pl.ops, pl.wts = randOps(r, "coll", 2+r.Intn(10), false)
		for j := range pl.ops {
			pl.ops[j].Exp = nil
		}
		for j := 0; j < 1+r.Intn(3); j++ {
			x := &sub{bp: r.Intn(2) == 0, only: r.Intn(5) == 0, mask: []string{"", "", "a", "b"}[r.Intn(4)], inc: randPred(r)}
			if x.only || pl.eq != "none" {
				x.bp = true
			}
			if !x.bp && r.Intn(3) > 0 {
				x.tokens = make(chan struct{}, 100)
			}
			pl.preds = append(pl.preds, x.inc)
			pl.subs = append(pl.subs, x)
			pl.at = append(pl.at, []int{0, 0, r.Intn(len(pl.ops) + 1)}[r.Intn(3)])
		}
		run(out, pl)
	}
}

func main() {
	out := vlib.NewOut()
	defer out.Close()
	switch os.Args[1] {
	case "script":
		script(out, vlib.Seed(), vlib.N(2000, 30000))
	case "booking":
		bookings(out, vlib.Seed(), vlib.N(800, 10000))
	case "include":
		include(out, vlib.Seed(), vlib.N(2500, 40000))
	}
}
