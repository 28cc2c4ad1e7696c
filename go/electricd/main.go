// electricd operates the modes of electric models, through the model and through its servers, one operation after
// another and several at once, and records what comes of it.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/verif/sched"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
)

type M = vlib.M
type A = []any

// mode as the specification has it.
type mode struct {
	N  bool  `json:"n"`
	V  int   `json:"v"`
	St []int `json:"st"`
}

// op as the specification has it.
type op struct {
	Op     string     `json:"op"`
	ID     string     `json:"id"`
	X      mode       `json:"x"`
	Mask   [][]string `json:"mask"`
	Create bool       `json:"create"`
	Allow  bool       `json:"allow"`
	Door   string     `json:"door"`
}

func (o op) norm() op {
	if o.X.St == nil {
		o.X.St = []int{}
	}
	if o.Mask == nil {
		o.Mask = [][]string{}
	}
	return o
}

// ticks is a clock that shows a number; if it runs, it shows the next one every time one looks.
type ticks struct {
	clock.Clock
	n    atomic.Int64
	runs bool
}

var epoch = time.Unix(1_700_000_000, 0)

func (t *ticks) Now() time.Time {
	if t.runs {
		return epoch.Add(time.Duration(t.n.Add(1)) * time.Second)
	}
	return epoch.Add(time.Duration(t.n.Load()) * time.Second)
}

func toMode(id string, x mode) *traits.ElectricMode {
	m := &traits.ElectricMode{Id: id, Normal: x.N}
	if x.V != 0 {
		m.Title = fmt.Sprint(x.V)
		m.Segments = []*traits.ElectricMode_Segment{{Magnitude: float32(x.V)}}
	}
	if len(x.St) > 0 {
		m.StartTime = timestamppb.New(epoch.Add(time.Duration(x.St[0]) * time.Second))
	}
	return m
}

func fromMode(m *traits.ElectricMode) mode {
	x := mode{N: m.GetNormal(), St: []int{}}
	if m.GetTitle() != "" {
		x.V = -1
		fmt.Sscan(m.GetTitle(), &x.V)
	}
	if t := m.GetStartTime(); t != nil {
		d := t.AsTime().Sub(epoch)
		if d%time.Second != 0 || d < 0 || d > 1e15 {
			x.St = []int{-1}
		} else {
			x.St = []int{int(d / time.Second)}
		}
	}
	return x
}

type device struct {
	*vlib.Session
	m     *electricpb.Model
	srv   *electricpb.ModelServer
	clk   *ticks
	made  map[string]string // names of scripts -> the ids modes got
	mu    sync.Mutex
	fold  map[string]mode
	act   *traits.ElectricMode
	stop  func()
	done  chan struct{}
	calls int
}

func (d *device) id(n string) string {
	if i, ok := d.made[n]; ok {
		return i
	}
	return n
}

func newDevice(id string, rnd *rand.Rand, init map[string]mode, active string, seq bool) *device {
	d := &device{Session: &vlib.Session{ID: id}, clk: &ticks{Clock: clock.Real(), runs: !seq}, made: map[string]string{}, fold: map[string]mode{}}
	d.clk.n.Store(100)
	o := []resource.Option{electricpb.WithClock(d.clk), electricpb.WithRNG(rand.New(rand.NewSource(rnd.Int63())))}
	modes := M{}
	for i, x := range init {
		o = append(o, electricpb.WithInitialMode(toMode(i, x)))
		if x.St == nil {
			x.St = []int{}
		}
		modes[i] = x
	}
	act := mode{St: []int{}}
	if active != "" {
		act = init[active]
		if act.St == nil {
			act.St = []int{}
		}
		o = append(o, electricpb.WithInitialActiveMode(toMode(active, act)))
	}
	d.m = electricpb.NewModel(o...)
	d.srv = electricpb.NewModelServer(d.m)
	d.Cfg = M{"modes": modes, "aid": active, "act": act, "seq": seq}
	return d
}

// subscribe to everything, through the model or through the server.
func (d *device) subscribe(server bool) {
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	pm := func(typ types.ChangeType, oldV, newV *traits.ElectricMode) {
		d.mu.Lock()
		defer d.mu.Unlock()
		e := M{"e": "pm", "id": oldV.GetId(), "new": A{}}
		if newV != nil {
			e["id"], e["new"] = newV.Id, A{fromMode(newV)}
			d.fold[newV.Id] = fromMode(newV)
		} else {
			delete(d.fold, oldV.GetId())
		}
		d.Add(e)
	}
	pa := func(m *traits.ElectricMode) {
		d.mu.Lock()
		defer d.mu.Unlock()
		d.act = m
		d.Add(M{"e": "pa", "id": m.GetId(), "x": fromMode(m)})
	}
	wg.Add(2)
	if server {
		api := electricpb.WrapApi(d.srv)
		s1, err1 := api.PullModes(ctx, &traits.PullModesRequest{Name: "n"})
		s2, err2 := api.PullActiveMode(ctx, &traits.PullActiveModeRequest{Name: "n"})
		if err1 != nil || err2 != nil {
			d.Add(M{"e": "nostream", "msg": fmt.Sprint(err1, err2)})
		}
		go func() {
			defer wg.Done()
			for {
				r, err := s1.Recv()
				if err != nil {
					return
				}
				for _, c := range r.Changes {
					pm(c.Type, c.OldValue, c.NewValue)
				}
			}
		}()
		go func() {
			defer wg.Done()
			for {
				r, err := s2.Recv()
				if err != nil {
					return
				}
				for _, c := range r.Changes {
					pa(c.ActiveMode)
				}
			}
		}()
	} else {
		c1 := d.m.PullModes(ctx)
		c2 := d.m.PullActiveMode(ctx)
		go func() {
			defer wg.Done()
			for c := range c1 {
				pm(c.Type, c.OldValue, c.NewValue)
			}
		}()
		go func() {
			defer wg.Done()
			for c := range c2 {
				pa(c.ActiveMode)
			}
		}()
	}
	d.stop = func() { cancel(); wg.Wait() }
	d.settle()
}

func (d *device) modes() M {
	r := M{}
	for _, m := range d.m.Modes() {
		x := fromMode(m)
		if _, ok := r[m.Id]; ok {
			r[m.Id+" again"] = x
		} else {
			r[m.Id] = x
		}
	}
	return r
}

// settle waits until the subscribers know what the model says.
func (d *device) settle() {
	if d.stop == nil {
		return
	}
	end := time.Now().Add(vlib.Patience(2 * time.Second))
	for i := 0; ; i++ {
		ms, act := d.modes(), d.m.ActiveMode()
		d.mu.Lock()
		same := len(ms) == len(d.fold) && d.act != nil && d.act.Id == act.Id && reflect.DeepEqual(fromMode(d.act), fromMode(act))
		for i, x := range d.fold {
			same = same && reflect.DeepEqual(ms[i], x)
		}
		if same {
			d.Add(M{"e": "quiet"})
			d.mu.Unlock()
			return
		}
		d.mu.Unlock()
		if time.Now().After(end) {
			vlib.Expired()
			d.Add(M{"e": "quiet"})
			return
		}
		if i < 50 {
			time.Sleep(20 * time.Microsecond)
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

func one(m *traits.ElectricMode) A {
	if m == nil {
		return A{}
	}
	return A{fromMode(m)}
}

func (d *device) normal() A {
	if m, ok := d.m.NormalMode(); ok {
		return A{m.GetId()}
	}
	return A{}
}

// call does o and returns what the specification's result is.
func (d *device) call(o op) M {
	var m *traits.ElectricMode
	var err error
	r := M{"t0": int(d.clk.n.Load())}
	ctx := context.Background()
	server := o.Door == "server"
	p := vlib.Catch(func() {
		switch o.Op {
		case "create":
			if server {
				m, err = d.srv.CreateMode(ctx, &electricpb.CreateModeRequest{Name: "n", Mode: toMode(o.ID, o.X)})
			} else {
				m, err = d.m.CreateMode(toMode("", o.X))
			}
		case "add":
			err = d.m.AddMode(toMode(o.ID, o.X))
		case "update":
			var mask *fieldmaskpb.FieldMask
			if len(o.Mask) > 0 {
				mask = &fieldmaskpb.FieldMask{}
				for _, f := range o.Mask[0] {
					mask.Paths = append(mask.Paths, f)
					if f == "title" {
						mask.Paths = append(mask.Paths, "segments")
					}
				}
			}
			if server {
				m, err = d.srv.UpdateMode(ctx, &electricpb.UpdateModeRequest{Name: "n", Mode: toMode(o.ID, o.X), UpdateMask: mask})
			} else {
				var w []resource.WriteOption
				if mask != nil {
					w = append(w, resource.WithUpdateMask(mask))
				}
				if o.Create {
					w = append(w, resource.WithCreateIfAbsent())
					if mask != nil {
						w = append(w, resource.WithMoreUpdatePaths("id")) // or it would not say its own
					}
				}
				m, err = d.m.UpdateMode(toMode(o.ID, o.X), w...)
			}
		case "delete":
			if server {
				_, err = d.srv.DeleteMode(ctx, &electricpb.DeleteModeRequest{Name: "n", Id: o.ID, AllowMissing: o.Allow})
			} else {
				var w []resource.WriteOption
				if o.Allow {
					w = append(w, resource.WithAllowMissing(true))
				}
				err = d.m.DeleteMode(o.ID, w...)
			}
		case "set":
			err = d.m.SetActiveMode(toMode(o.ID, o.X))
		case "change":
			if server {
				m, err = d.srv.UpdateActiveMode(ctx, &traits.UpdateActiveModeRequest{Name: "n", ActiveMode: toMode(o.ID, o.X)})
			} else {
				m, err = d.m.ChangeActiveMode(o.ID)
			}
		case "clear":
			if server {
				m, err = d.srv.ClearActiveMode(ctx, &traits.ClearActiveModeRequest{Name: "n"})
			} else {
				m, err = d.m.ChangeToNormalMode()
			}
		case "modes":
			r["modes"] = d.modes()
		case "active":
			var a *traits.ElectricMode
			if server {
				a, err = d.srv.GetActiveMode(ctx, &traits.GetActiveModeRequest{Name: "n"})
			} else {
				a = d.m.ActiveMode()
			}
			r["aid"], r["act"] = a.GetId(), fromMode(a)
		case "normal":
			r["normal"] = d.normal()
		case "find":
			_, ok := d.m.FindMode(o.ID)
			r["found"] = ok
		}
	})
	if p != "" {
		return M{"panic": p}
	}
	r["t1"] = int(d.clk.n.Load())
	r["code"] = status.Code(err).String()
	r["id"], r["ret"] = "", A{}
	switch {
	case err != nil:
	case o.Op == "add" || o.Op == "set":
		r["id"] = o.ID
	case o.Op == "create" || o.Op == "update" || o.Op == "change" || o.Op == "clear":
		r["id"], r["ret"] = m.GetId(), one(m)
		if m == nil {
			r["id"], r["ret"] = "nothing", A{mode{V: -2, St: []int{}}}
		}
	}
	return r
}

func (d *device) read() {
	p := vlib.Catch(func() {
		a := d.m.ActiveMode()
		d.Add(M{"e": "read", "modes": d.modes(), "aid": a.GetId(), "act": fromMode(a), "normal": d.normal()})
	})
	if p != "" {
		d.Add(M{"e": "panic", "msg": p})
	}
}

// do o, then have a look.
func (d *device) do(o op) bool {
	o = o.norm()
	name := o.ID
	o.ID = d.id(o.ID)
	r := d.call(o)
	if x, ok := r["panic"]; ok {
		d.Add(M{"e": "panic", "o": o, "msg": x})
		return false
	}
	d.Add(M{"e": "op", "o": o, "r": r})
	if o.Op == "create" && r["code"] == "OK" && name != "" {
		d.made[name] = r["id"].(string)
	}
	d.settle()
	d.read()
	if d.calls++; true {
		d.clk.n.Add(1)
	}
	return true
}

func (d *device) end(out *vlib.Out) {
	if d.stop != nil {
		d.stop()
	}
	out.Write(d.Session)
}

// scripts: the paths of the specification.
func scripts(out *vlib.Out, file string, w, of int, rnd *rand.Rand) {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for n := 0; sc.Scan(); n++ {
		if n%of != w {
			continue
		}
		var ops []op
		if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
			fmt.Fprintln(os.Stderr, "bad script", err, sc.Text())
			os.Exit(3)
		}
		door := []string{"model", "server"}[n/of%2]
		d := newDevice(fmt.Sprintf("script-%s-%d", door, n), rnd, nil, "", true)
		if n/of%3 == 0 {
			d.subscribe(n/of%2 == 0)
		}
		for i, o := range ops {
			o.Door = door
			if o.Op == "add" && (n+i)%3 == 0 {
				if _, ok := d.made[o.ID]; !ok && !has(d.m, o.ID) {
					if c := (op{Op: "create", ID: o.ID, X: o.X, Door: "model"}); !d.do(c) {
						break
					}
					continue
				}
			}
			if o.Op == "set" || o.Op == "add" || o.Create {
				o.Door = "model"
			}
			if !d.do(o) {
				break
			}
		}
		d.end(out)
	}
}

func has(m *electricpb.Model, id string) bool { _, ok := m.FindMode(id); return ok }

var names = []string{"a", "b", "c", "d"}

func randomOp(r *rand.Rand, ids []string) op {
	o := op{ID: ids[r.Intn(len(ids))], X: mode{N: r.Intn(3) == 0, V: r.Intn(4)}, Door: []string{"model", "server"}[r.Intn(2)]}
	if r.Intn(4) == 0 {
		o.X.St = []int{r.Intn(50)}
	}
	switch k := r.Intn(20); {
	case k < 2:
		o.Op, o.ID = "create", ""
		if o.Door == "server" && r.Intn(4) == 0 {
			o.ID = "x"
		}
	case k < 5:
		o.Op, o.Door = "add", "model"
		if o.ID == "" {
			o.ID = "a"
		}
	case k < 9:
		o.Op = "update"
		switch r.Intn(5) {
		case 0:
			o.Mask = [][]string{{"normal"}}
		case 1:
			o.Mask = [][]string{{"title"}}
		case 2:
			o.Mask = [][]string{{"title", "normal", "start_time"}}
		}
		if r.Intn(5) == 0 && o.ID != "" {
			o.Create, o.Door = true, "model"
		}
	case k < 12:
		o.Op, o.Allow = "delete", r.Intn(2) == 0
	case k < 14:
		o.Op, o.Door = "set", "model"
	case k < 17:
		o.Op = "change"
	default:
		o.Op = "clear"
	}
	return o
}

func (d *device) ids(r *rand.Rand) []string {
	l := append([]string{}, names...)
	for _, m := range d.m.Modes() {
		l = append(l, m.Id)
	}
	if r.Intn(3) == 0 {
		l = append(l, "")
	}
	return l
}

var inits = []struct {
	modes  map[string]mode
	active string
}{
	{nil, ""},
	{map[string]mode{"a": {N: true}, "b": {V: 1}}, ""},
	{map[string]mode{"a": {N: true}, "b": {V: 1}}, "b"},
	{map[string]mode{"a": {N: true, St: []int{7}}, "b": {V: 1, St: []int{9}}, "c": {V: 2}}, "a"},
	{map[string]mode{"a": {V: 3}, "b": {V: 1}}, "a"},
}

func random(out *vlib.Out, id string, r *rand.Rand) {
	in := inits[r.Intn(len(inits))]
	d := newDevice(id, r, in.modes, in.active, true)
	if r.Intn(2) == 0 {
		d.subscribe(r.Intn(2) == 0)
	}
	d.read()
	for i := 0; i < 30; i++ {
		if !d.do(randomOp(r, d.ids(r))) {
			break
		}
	}
	d.end(out)
}

// ---- at once

type conc struct {
	*device
	hm sync.Mutex
}

func (c *conc) run(p string, o op) {
	o = o.norm()
	inv := M{"e": "inv", "p": p, "o": o, "ret": 0}
	c.hm.Lock()
	c.Add(inv)
	c.hm.Unlock()
	r := c.call(o)
	c.hm.Lock()
	defer c.hm.Unlock()
	if x, ok := r["panic"]; ok {
		c.Add(M{"e": "panic", "o": o, "msg": x})
		return
	}
	c.mu.Lock() // (subscribers add events too)
	c.Add(M{"e": "ret", "p": p, "r": r})
	inv["ret"] = len(c.Ev)
	c.mu.Unlock()
}

func (c *conc) finish(out *vlib.Out, ok bool) {
	if !ok {
		c.Add(M{"e": "hang"})
	} else {
		c.settle()
		c.read()
	}
	c.end(out)
}

func alphabet() []op {
	var l []op
	for _, id := range []string{"a", "b"} {
		l = append(l, op{Op: "delete", ID: id}, op{Op: "set", ID: id, X: mode{V: 3}}, op{Op: "change", ID: id},
			op{Op: "update", ID: id, X: mode{N: true, V: 2}}, op{Op: "update", ID: id, X: mode{V: 2}}, op{Op: "update", ID: id, X: mode{N: true}, Mask: [][]string{{"normal"}}})
	}
	return append(l, op{Op: "clear"}, op{Op: "create", X: mode{N: true, V: 1}}, op{Op: "add", ID: "c", X: mode{N: true}}, op{Op: "add", ID: "a", X: mode{V: 1}},
		op{Op: "modes"}, op{Op: "active"}, op{Op: "normal"}, op{Op: "find", ID: "a"})
}

func windows(out *vlib.Out, r *rand.Rand, w, of int, keep float64) {
	n := 0
	for ii, in := range inits {
		for _, a := range alphabet() {
			if a.Op == "modes" || a.Op == "active" || a.Op == "find" {
				continue
			}
			for _, b := range alphabet() {
				n++
				if n%of != w {
					continue
				}
				for nth := 0; nth < 30; nth++ {
					if r.Float64() > keep {
						continue
					}
					a, b := a, b
					if r.Intn(2) == 0 && a.Op != "set" && a.Op != "add" && a.Op != "normal" {
						a.Door = "server"
					}
					if !window(out, fmt.Sprintf("window-%s-%s-%d-%d", a.Op, b.Op, ii, nth), r, in.modes, in.active, a, b, nth) {
						break
					}
				}
			}
		}
	}
}

// window does b while a is at the nth point it passes.
func window(out *vlib.Out, id string, r *rand.Rand, modes map[string]mode, active string, a, b op, nth int) bool {
	c := &conc{device: newDevice(id, r, modes, active, false)}
	ctl := sched.New()
	var ga int64
	var mu sync.Mutex
	var wg sync.WaitGroup
	hit := false
	ctl.OnPoint = func(g int64, p string) {
		if g != ga {
			return
		}
		mu.Lock()
		nth--
		if nth != -1 {
			mu.Unlock()
			return
		}
		hit = true
		mu.Unlock()
		done := make(chan struct{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(done)
			c.run("b", b)
		}()
		select {
		case <-done:
		case <-time.After(1500 * time.Microsecond): // the window is inside a lock
		}
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		ga = sched.Goid()
		c.run("a", a)
		wg.Wait()
	}()
	ok := true
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		ok = false
	}
	ctl.Finish(time.Second)
	if hit || !ok {
		c.finish(out, ok)
	}
	return hit
}

func stress(out *vlib.Out, id string, r *rand.Rand) {
	in := inits[r.Intn(len(inits))]
	c := &conc{device: newDevice(id, r, in.modes, in.active, false)}
	if r.Intn(3) == 0 {
		c.subscribe(r.Intn(2) == 0)
	}
	ctl := sched.New()
	ctl.OnPoint = sched.Jitter(r.Int63())
	var wg sync.WaitGroup
	procs := 2 + r.Intn(3)
	for p := 0; p < procs; p++ {
		name := fmt.Sprint("p", p)
		var l []op
		for i := 0; i < 6-procs; i++ {
			if r.Intn(4) == 0 {
				l = append(l, op{Op: []string{"modes", "active", "normal", "find"}[r.Intn(4)], ID: "a"})
			} else {
				o := randomOp(r, []string{"a", "b", "a", "b", "c"})
				l = append(l, o)
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range l {
				c.run(name, o)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	ok := true
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		ok = false
	}
	ctl.Finish(time.Second)
	c.finish(out, ok)
}

func main() {
	out := vlib.NewOut()
	defer out.Close()
	var w, of int
	fmt.Sscanf(os.Args[1], "%d/%d", &w, &of)
	r := rand.New(rand.NewSource(vlib.Seed()*1000 + int64(w)))
	for _, what := range strings.Split(os.Args[2], ",") {
		switch what {
		case "scripts":
			scripts(out, os.Args[3], w, of, r)
		case "random":
			for i := 0; i < vlib.N(60, 600); i++ {
				random(out, fmt.Sprintf("random-%d-%d", w, i), r)
			}
		case "windows":
			windows(out, r, w, of, map[bool]float64{true: 1, false: 0.5}[vlib.Thorough()])
		case "stress":
			for i := 0; i < vlib.N(150, 3000); i++ {
				stress(out, fmt.Sprintf("stress-%d-%d", w, i), r)
			}
		}
	}
}
