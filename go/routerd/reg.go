package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/smart-core-os/sc-golang/internal/verif/rtab"
	"github.com/smart-core-os/sc-golang/internal/verif/sched"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/router"
)

// rt is one router under test and the clients it may hold.
type rt struct {
	s      *vlib.Session
	r      router.Router
	e      *rtab.Entry // nil: the untyped router
	mu     sync.Mutex
	ids    map[any]string
	byID   map[string]any
	mk     func(id string) any
	point  func(string)
	n      atomic.Int64
	made   int
	hasFb  bool
	hasFac bool
}

func (t *rt) id(c any) string {
	if c == nil || reflect.ValueOf(c).Kind() == reflect.Ptr && reflect.ValueOf(c).IsNil() {
		return ""
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if id, ok := t.ids[c]; ok {
		return id
	}
	return "unknown client"
}

func (t *rt) client(id string) any {
	t.mu.Lock()
	defer t.mu.Unlock()
	if c, ok := t.byID[id]; ok {
		return c
	}
	c := t.mk(id)
	t.ids[c], t.byID[id] = id, c
	return c
}

type plain struct{ id string }

// newRT makes a router. Names: "f..." the fallback knows them, "g..." the factory makes them; "e" in the name: they
// answer with an error, "x": with a client and an error.
func newRT(id string, e *rtab.Entry, mk func(string) any, fb, fac bool) *rt {
	t := &rt{s: &vlib.Session{ID: id, Cfg: M{"fb": fb, "fac": fac}}, e: e, mk: mk, ids: map[any]string{}, byID: map[string]any{},
		point: func(string) {}, hasFb: fb, hasFac: fac}
	if mk == nil {
		t.mk = func(id string) any { return &plain{id} }
	}
	answer := func(kind, n, own string) (any, error) {
		t.point(kind)
		defer t.point(kind)
		var c any
		var err error
		cid := ""
		switch {
		case strings.HasPrefix(n, own) && strings.Contains(n, "x"):
			c, err = t.client("other"), errors.New("no")
		case strings.HasPrefix(n, own) && strings.Contains(n, "e"):
			err = errors.New("no")
		case strings.HasPrefix(n, own) && kind == "fb":
			cid = "fb-" + n
		case strings.HasPrefix(n, own):
			t.mu.Lock()
			t.made++
			cid = fmt.Sprintf("made-%d", t.made)
			t.mu.Unlock()
		case len(n)%2 == 0:
			err = errors.New("never heard of it")
		}
		if cid != "" {
			c = t.client(cid)
		}
		t.s.Add(M{"e": kind, "n": n, "c": cid})
		return c, err
	}
	opts := []router.Option{router.WithOnChange(func(c router.Change) {
		t.point("cb")
		t.s.Add(M{"e": "cb", "n": c.Name, "old": t.id(c.Old), "new": t.id(c.New), "auto": c.Auto})
	})}
	if fb {
		opts = append(opts, router.WithFallback(func(n string) (any, error) { return answer("fb", n, "f") }))
	}
	if fac {
		f := func(n string) (any, error) { return answer("fac", n, "g") }
		if e != nil {
			opts = append(opts, e.Factory(f))
		} else {
			opts = append(opts, router.WithFactory(f))
		}
	}
	if e != nil {
		t.r = e.Router(opts...)
	} else {
		t.r = router.NewRouter(opts...)
	}
	return t
}

// svcName is "OnOffApi" for the service smartcore.traits.OnOffApi.
func (t *rt) svcName() string {
	n := t.e.Desc.ServiceName
	return n[strings.LastIndexByte(n, '.')+1:]
}

// typed calls one of the router's typed methods (prefix + ServiceName + "Client").
func (t *rt) typed(prefix string, args ...any) []reflect.Value {
	m := reflect.ValueOf(t.r).MethodByName(prefix + t.svcName() + "Client")
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	return m.Call(in)
}

type op struct {
	k, n, c string
	typed   bool
}

func (t *rt) do(p op) {
	o := int(t.n.Add(1))
	t.s.Add(M{"e": "inv", "o": o, "k": p.k, "n": p.n, "c": p.c})
	var ret M
	pn := vlib.Catch(func() {
		switch p.k {
		case "add":
			c := t.client(p.c)
			if p.typed {
				ret = M{"v": t.id(t.typed("Add", p.n, c)[0].Interface())}
			} else {
				ret = M{"v": t.id(t.r.Add(p.n, c))}
			}
		case "remove":
			if p.typed {
				ret = M{"v": t.id(t.typed("Remove", p.n)[0].Interface())}
			} else {
				ret = M{"v": t.id(t.r.Remove(p.n))}
			}
		case "has":
			ret = M{"e": "rethas", "v": t.r.Has(p.n)}
		case "get":
			var c any
			var err error
			if p.typed {
				vs := t.typed("Get", p.n)
				c = vs[0].Interface()
				err, _ = vs[1].Interface().(error)
			} else {
				c, err = t.r.Get(p.n)
			}
			ret = M{"v": t.id(c), "code": vlib.Code(err)}
		}
	})
	if pn != "" {
		t.s.Add(M{"e": "panic", "o": o, "p": pn})
		return
	}
	ret["o"] = o
	if _, ok := ret["e"]; !ok {
		ret["e"] = "ret"
	}
	if _, ok := ret["code"]; !ok {
		ret["code"] = "OK"
	}
	t.s.Add(ret)
}

var regNames = []string{"a", "b", "", "f1", "fe", "fx2", "g1", "g2", "ge", "gx3", "zz"}

func randOp(rnd *rand.Rand, names []string, typed bool) op {
	p := op{n: names[rnd.Intn(len(names))], typed: typed && rnd.Intn(2) == 0}
	switch x := rnd.Intn(10); {
	case x < 3:
		p.k, p.c = "add", fmt.Sprintf("c%d", rnd.Intn(4))
	case x < 5:
		p.k = "remove"
	case x < 6:
		p.k, p.typed = "has", false
	default:
		p.k = "get"
	}
	return p
}

func sequential(out *vlib.Out, rnd *rand.Rand) {
	for i := 0; i < vlib.N(120, 800); i++ {
		t := newRT(fmt.Sprintf("seq-%d", i), nil, nil, i&1 == 0, i&2 == 0)
		names := regNames
		if rnd.Intn(2) == 0 {
			names = []string{regNames[rnd.Intn(len(regNames))], regNames[rnd.Intn(len(regNames))]}
		}
		for k := 0; k < 60; k++ {
			t.do(randOp(rnd, names, false))
		}
		out.Write(t.s)
	}
	for i := range rtab.All {
		e := &rtab.All[i]
		for k := 0; k < vlib.N(3, 12); k++ {
			t := newRT(fmt.Sprintf("typed-%s-%d", e.Desc.ServiceName, k), e, func(id string) any { return e.Client(nil) }, k&1 == 0, k&2 == 0)
			for k := 0; k < 40; k++ {
				t.do(randOp(rnd, regNames, true))
				if rnd.Intn(8) == 0 {
					t.holds(rnd)
				}
			}
			out.Write(t.s)
		}
	}
}

// holds: what the router says of, and does with, clients of its own and of other types
func (t *rt) holds(rnd *rand.Rand) {
	t.s.Add(M{"e": "holds", "holds": t.r.HoldsType(t.client("c0"))})
	n := regNames[rnd.Intn(len(regNames))]
	var c any = &plain{}
	other := rtab.All[rnd.Intn(len(rtab.All))]
	if rnd.Intn(2) == 0 && other.Desc.ServiceName != t.e.Desc.ServiceName {
		c = other.Client(nil)
	}
	// another type may happen to have all the methods; some services have none
	if reflect.TypeOf(c).AssignableTo(reflect.ValueOf(t.r).MethodByName("Add" + t.svcName() + "Client").Type().In(1)) {
		return
	}
	held := t.r.HoldsType(c)
	p := vlib.Catch(func() { t.r.Add(n, c) })
	t.s.Add(M{"e": "badadd", "n": n, "holds": held, "panicked": p != "", "has": t.r.Has(n)})
}

// schedules runs overlapping calls, one goroutine each, stopping them wherever they pass a lock or a callback: all
// interleavings of two, many of three.
func schedules(out *vlib.Out, rnd *rand.Rand, part string) {
	var pi, pn int
	fmt.Sscanf(part, "%d/%d", &pi, &pn)
	type scen struct {
		fb, fac bool
		init    []op
		ops     [][]op
		max     int
	}
	var scens []scen
	ks := []op{{k: "add", c: "c1"}, {k: "remove"}, {k: "get"}, {k: "has"}}
	for _, n := range []string{"a", "g1", "f1", "ge"} {
		for _, init := range [][]op{nil, {{k: "add", n: n, c: "c0"}}} {
			for i, a := range ks {
				for _, b := range ks[i:] {
					a.n, b.n = n, n
					if b.k == "add" {
						b.c = "c2"
					}
					scens = append(scens, scen{n[0] == 'f' || n == "ge", n[0] != 'f', init, [][]op{{a}, {b}}, 400})
				}
			}
		}
	}
	for i := 0; i < vlib.N(60, 600); i++ {
		n := []string{"a", "g1", "g1", "f1"}[rnd.Intn(4)]
		sc := scen{fb: n[0] == 'f' || rnd.Intn(3) == 0, fac: n[0] != 'f' || rnd.Intn(2) == 0, max: vlib.N(12, 40)}
		if rnd.Intn(3) == 0 {
			sc.init = []op{{k: "add", n: n, c: "c0"}}
		}
		for k := 2 + rnd.Intn(3); k > 0; k-- {
			var os []op
			for m := 1 + rnd.Intn(2); m > 0; m-- {
				p := randOp(rnd, []string{n, n, n, "b"}, false)
				os = append(os, p)
			}
			sc.ops = append(sc.ops, os)
		}
		scens = append(scens, sc)
	}
	for i, sc := range scens {
		if i%pn != pi {
			continue
		}
		// depth first over the choices of who goes next
		var path, width []int
		runs, exhaustive := 0, len(sc.ops) == 2 && len(sc.ops[0]) == 1 && len(sc.ops[1]) == 1
		for {
			t := newRT(fmt.Sprintf("sched-%d-%d", i, runs), nil, nil, sc.fb, sc.fac)
			for _, p := range sc.init {
				t.do(p)
			}
			c := sched.New("lock", "unlock", "rlock", "runlock", "fb", "fac", "cb")
			t.point = c.Point
			var live []string
			for k, os := range sc.ops {
				name := fmt.Sprint(k)
				live = append(live, name)
				c.Go(name, func() {
					for _, p := range os {
						t.do(p)
					}
				})
			}
			depth := 0
			for len(live) > 0 {
				ch := 0
				if exhaustive {
					if depth == len(path) {
						path, width = append(path, 0), append(width, len(live))
					}
					width[depth] = len(live)
					ch = path[depth]
				} else {
					ch = rnd.Intn(len(live))
				}
				depth++
				if ch >= len(live) {
					ch = 0
				}
				if c.Step(live[ch]) == "" {
					live = append(live[:ch:ch], live[ch+1:]...)
				}
				if depth > 200 {
					break
				}
			}
			if !c.Finish(5 * time.Second) {
				t.s.Add(M{"e": "hang"})
			}
			for _, n := range []string{"a", "g1", "f1"} {
				t.point = func(string) {}
				t.do(op{k: "has", n: n})
				t.do(op{k: "remove", n: n})
			}
			out.Write(t.s)
			runs++
			if runs >= sc.max {
				break
			}
			if exhaustive {
				path, width = path[:min(depth, len(path))], width[:min(depth, len(width))]
				k := len(path) - 1
				for k >= 0 && path[k]+1 >= width[k] {
					k--
				}
				if k < 0 {
					break
				}
				path, width = path[:k+1], width[:k+1]
				path[k]++
			}
		}
	}
}
