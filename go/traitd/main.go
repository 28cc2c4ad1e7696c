// traitd operates trait models that keep derived state (parents, vending machines, fans, modes, enter/leave sensors,
// meters, publications) and records what they answer and what they say of themselves afterwards.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb/unitpb"
)

type M = vlib.M
type A = []any

var ctx = context.Background()

// ticks is a clock that shows the next number every time one looks.
type ticks struct {
	clock.Clock
	n atomic.Int64
}

var epoch = time.Unix(1_700_000_000, 0)

func (t *ticks) Now() time.Time { return epoch.Add(time.Duration(t.n.Add(1)) * time.Second) }
func (t *ticks) at() int        { return int(t.n.Load()) }

func fromTime(t *timestamppb.Timestamp) A {
	if t == nil {
		return A{}
	}
	d := t.AsTime().Sub(epoch)
	if d%time.Second != 0 || d < -1e15 || d > 1e15 {
		return A{-999999}
	}
	return A{int(d / time.Second)}
}

func toTime(n int) *timestamppb.Timestamp {
	return timestamppb.New(epoch.Add(time.Duration(n) * time.Second))
}

// num says x times scale as an integer; what is not one is far off.
func num(x float64, scale float64) int {
	y := x * scale
	if math.IsNaN(y) || math.Abs(y) > 2e9 {
		return -2000000001
	}
	return int(math.Round(y))
}

// model is what a kind of session operates. do performs an operation and adds what it returned to r.
type model interface {
	kind() string
	do(o M, r M) error
	now() any
}

type run struct {
	*vlib.Session
	m   model
	bad bool
}

func start(id string, cfg M, mk func() (model, M)) *run {
	d := &run{Session: &vlib.Session{ID: id, Cfg: cfg}}
	p := vlib.Catch(func() {
		m, more := mk()
		d.m = m
		cfg["kind"] = m.kind()
		ev := M{"e": "start", "now": m.now()}
		for k, v := range more {
			ev[k] = v
		}
		d.Add(ev)
	})
	if p != "" {
		cfg["kind"] = "panic"
		d.Add(M{"e": "panic", "o": M{"op": "new"}, "msg": p})
		d.bad = true
	}
	return d
}

func (d *run) op(o M) {
	if d.bad {
		return
	}
	r := M{}
	p := vlib.CatchTimeout(10*time.Second, func() {
		err := d.m.do(o, r)
		r["code"] = status.Code(err).String()
		d.Add(M{"e": "op", "o": o, "r": r, "now": d.m.now()})
	})
	if p != "" {
		d.Add(M{"e": "panic", "o": o, "msg": p})
		d.bad = true
	}
}

func str(o M, k string) string { s, _ := o[k].(string); return s }
func flag(o M, k string) bool  { b, _ := o[k].(bool); return b }
func mapOf(o M, k string) M {
	switch x := o[k].(type) {
	case M:
		return x
	}
	return M{}
}
func list(o M, k string) A { l, _ := o[k].(A); return l }
func integer(x any) int {
	switch n := x.(type) {
	case int:
		return n
	case float64:
		return int(n)
	}
	return 0
}

func mask(o M) *fieldmaskpb.FieldMask {
	l := list(o, "mask")
	if len(l) == 0 {
		return nil
	}
	m := &fieldmaskpb.FieldMask{}
	for _, p := range l[0].(A) {
		m.Paths = append(m.Paths, p.(string))
	}
	return m
}

// ---- parent

var traitNames = []string{"a.B", "a.BC", "a.c", "b", "b.x", "z"}

type parent struct {
	m *parentpb.Model
}

func (p parent) kind() string { return "parent" }

func traitList(ts []*traits.Trait) []int {
	l := []int{}
	for _, t := range ts {
		i := sort.SearchStrings(traitNames, t.GetName())
		if i == len(traitNames) || traitNames[i] != t.GetName() {
			i = -1
		}
		l = append(l, i)
	}
	return l
}

func (p parent) now() any {
	m := M{}
	for _, c := range p.m.ListChildren() {
		m[c.Name] = traitList(c.Traits)
	}
	return m
}

func toChild(name string, ts A) *traits.Child {
	c := &traits.Child{Name: name}
	for _, t := range ts {
		c.Traits = append(c.Traits, &traits.Trait{Name: traitNames[integer(t)]})
	}
	return c
}

func (p parent) do(o M, r M) error {
	id := str(o, "id")
	var names []trait.Name
	for _, t := range list(o, "t") {
		names = append(names, trait.Name(traitNames[integer(t)]))
	}
	r["child"], r["created"] = A{}, false
	switch o["op"] {
	case "add":
		p.m.AddChild(toChild(id, list(o, "t")))
	case "union":
		c, created := p.m.AddChildTrait(id, names...)
		r["child"], r["created"] = A{traitList(c.GetTraits())}, created
	case "minus":
		if c := p.m.RemoveChildTrait(id, names...); c != nil {
			r["child"] = A{traitList(c.Traits)}
		}
	case "remove":
		var w []resource.WriteOption
		if flag(o, "allow") {
			w = append(w, resource.WithAllowMissing(true))
		}
		c, err := p.m.RemoveChildByName(id, w...)
		if c != nil {
			r["child"] = A{traitList(c.Traits)}
		}
		return err
	}
	return nil
}

func newParent(id string, init M) *run {
	return start(id, M{"init": init}, func() (model, M) {
		var cs []*traits.Child
		for n, l := range init {
			cs = append(cs, toChild(n, l.(A)))
		}
		return parent{parentpb.NewModel(parentpb.WithInitialChildren(cs...))}, nil
	})
}

// concParents has goroutines change the same children at once, each adding and removing a trait of its own.
func concParents(id string, r *rand.Rand) *run {
	d := newParent(id, M{"c": someTraits(r, true)})
	p, ok := d.m.(parent)
	if !ok {
		return d
	}
	ops := make([]A, len(traitNames))
	for g := range ops {
		for i := 0; i < 12; i++ {
			ops[g] = append(ops[g], M{"op": []string{"union", "minus"}[r.Intn(2)], "id": []string{"c", "d"}[r.Intn(2)], "t": A{g}})
		}
		for _, n := range []string{"c", "d"} {
			ops[g] = append(ops[g], M{"op": "union", "id": n, "t": A{g}})
		}
		if r.Intn(2) == 0 {
			ops[g] = append(ops[g], M{"op": "minus", "id": "c", "t": A{g}})
		}
	}
	var wg sync.WaitGroup
	pn := make([]string, len(ops))
	begin := make(chan struct{})
	for g := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for _, o := range ops[g] {
				if x := vlib.Catch(func() { p.do(o.(M), M{}) }); x != "" {
					pn[g] = x
					return
				}
			}
		}()
	}
	close(begin)
	wg.Wait()
	all := A{}
	for _, q := range ops {
		all = append(all, q...)
	}
	d.Add(M{"e": "atonce", "ops": all, "panic": strings.Join(pn, ""), "now": d.m.now()})
	return d
}

func someTraits(r *rand.Rand, sorted bool) A {
	l := A{}
	if sorted {
		for i := range traitNames {
			if r.Intn(3) == 0 {
				l = append(l, i)
			}
		}
		return l
	}
	for n := r.Intn(5); n > 0; n-- {
		l = append(l, r.Intn(len(traitNames)))
	}
	return l
}

func randParent(id string, r *rand.Rand) *run {
	init := M{}
	for _, n := range []string{"c", "d", "e"} {
		if r.Intn(3) == 0 {
			init[n] = someTraits(r, true)
		}
	}
	d := newParent(id, init)
	for i := 0; i < 25; i++ {
		n := []string{"c", "d", "e"}[r.Intn(3)]
		switch k := r.Intn(10); {
		case k < 1:
			d.op(M{"op": "add", "id": n, "t": someTraits(r, true)})
		case k < 5:
			d.op(M{"op": "union", "id": n, "t": someTraits(r, false)})
		case k < 9:
			d.op(M{"op": "minus", "id": n, "t": someTraits(r, false)})
		default:
			d.op(M{"op": "remove", "id": n, "allow": r.Intn(2) == 0})
		}
	}
	return d
}

// ---- vending

type vending struct {
	m      *vendingpb.Model
	srv    *vendingpb.ModelServer
	server bool
}

func (v vending) kind() string { return "vend" }

func quantity(q *traits.Consumable_Quantity) A {
	if q == nil {
		return A{}
	}
	return A{q.Unit.String(), num(float64(q.Amount), 1000)}
}

func toQuantity(l A) *traits.Consumable_Quantity {
	if len(l) == 0 {
		return nil
	}
	return &traits.Consumable_Quantity{Unit: traits.Consumable_Unit(traits.Consumable_Unit_value[l[0].(string)]), Amount: float32(integer(l[1])) / 1000}
}

func stock(s *traits.Consumable_Stock) M {
	return M{"used": quantity(s.Used), "rem": quantity(s.Remaining), "last": quantity(s.LastDispensed), "busy": s.Dispensing}
}

func toStock(id string, x M) *traits.Consumable_Stock {
	return &traits.Consumable_Stock{Consumable: id, Used: toQuantity(list(x, "used")), Remaining: toQuantity(list(x, "rem")),
		LastDispensed: toQuantity(list(x, "last")), Dispensing: flag(x, "busy")}
}

func (v vending) now() any {
	m := M{}
	for _, s := range v.m.ListInventory() {
		m[s.Consumable] = stock(s)
	}
	return m
}

func (v vending) do(o M, r M) (err error) {
	id := str(o, "id")
	var s *traits.Consumable_Stock
	switch o["op"] {
	case "dispense":
		q := toQuantity(list(o, "q"))
		if v.server {
			s, err = v.srv.Dispense(ctx, &traits.DispenseRequest{Consumable: id, Quantity: q})
		} else {
			s, err = v.m.DispenseInstantly(id, q)
		}
	case "create":
		s, err = v.m.CreateStock(toStock(id, mapOf(o, "x")))
	case "refill":
		s, err = v.m.UpdateStock(toStock(id, mapOf(o, "x")))
	case "delete":
		s, err = v.m.DeleteStock(id)
	}
	r["ret"] = A{}
	if s != nil {
		r["ret"] = A{stock(s)}
	}
	return err
}

var units = []string{"LITER", "CUBIC_METER", "CUP", "METER", "KILOGRAM", "NO_UNIT", "UNIT_UNSPECIFIED"}

// amounts for which rounding to thousandths does not hide anything
func amount(r *rand.Rand, unit string) A {
	switch unit {
	case "LITER":
		return A{unit, 500 * r.Intn(401)}
	case "CUBIC_METER":
		return A{unit, 125 * r.Intn(17)}
	case "CUP":
		return A{unit, 250 * r.Intn(300)}
	}
	return A{unit, 250 * r.Intn(100)}
}

func randStock(r *rand.Rand) M {
	q := func() A {
		if r.Intn(3) == 0 {
			return A{}
		}
		if r.Intn(4) > 0 {
			return amount(r, units[r.Intn(3)])
		}
		return amount(r, units[r.Intn(len(units))])
	}
	x := M{"used": q(), "rem": q(), "last": A{}, "busy": r.Intn(3) == 0}
	if r.Intn(3) == 0 {
		x["last"] = amount(r, "CUP")
	}
	return x
}

func newVending(id string, init M, server bool) *run {
	return start(id, M{"init": init, "server": server}, func() (model, M) {
		var l []*traits.Consumable_Stock
		for n, x := range init {
			l = append(l, toStock(n, x.(M)))
		}
		m := vendingpb.NewModel(vendingpb.WithInitialStock(l...))
		return vending{m, vendingpb.NewModelServer(m), server}, nil
	})
}

func randVending(id string, r *rand.Rand) *run {
	init := M{}
	for _, n := range []string{"c", "d"} {
		if r.Intn(4) > 0 {
			init[n] = randStock(r)
		}
	}
	d := newVending(id, init, r.Intn(2) == 0)
	for i := 0; i < 16; i++ {
		n := []string{"c", "d"}[r.Intn(2)]
		switch k := r.Intn(10); {
		case k < 7:
			u := units[r.Intn(3)]
			if r.Intn(5) == 0 {
				u = units[r.Intn(len(units))]
			}
			q := amount(r, u)
			if r.Intn(12) == 0 {
				q[1] = -integer(q[1]) / 4
			}
			d.op(M{"op": "dispense", "id": n, "q": q})
		case k < 8:
			d.op(M{"op": "create", "id": n, "x": randStock(r)})
		case k < 9:
			d.op(M{"op": "refill", "id": n, "x": randStock(r)})
		default:
			d.op(M{"op": "delete", "id": n})
		}
	}
	return d
}

// ---- conversions

func conversions(id string, r *rand.Rand) *run {
	d := &run{Session: &vlib.Session{ID: id, Cfg: M{"kind": "unit"}}}
	one := func(u, w string, a float64, bits int) {
		f, t := traits.Consumable_Unit(traits.Consumable_Unit_value[u]), traits.Consumable_Unit(traits.Consumable_Unit_value[w])
		o := M{"op": "convert", "u": u, "w": w, "a": num(a, 1000), "bits": bits}
		p := vlib.Catch(func() {
			var there, back float64
			var err, err2 error
			if bits == 32 {
				x, e := unitpb.Convert32(float32(a), f, t)
				y, e2 := unitpb.Convert32(x, t, f)
				there, back, err, err2 = float64(x), float64(y), e, e2
			} else {
				there, err = unitpb.Convert(a, f, t)
				back, err2 = unitpb.Convert(there, t, f)
			}
			off := 0.0
			if a != 0 {
				off = (back - a) / a
			} else if back != 0 || there != 0 {
				off = 1
			}
			r := M{"ok": err == nil && err2 == nil, "there": num(there, 1000), "back": num(off, 1e9)}
			if (err == nil) != (err2 == nil) {
				r["ok"], r["back"] = true, 1999999999
			}
			d.Add(M{"e": "op", "o": o, "r": r})
		})
		if p != "" {
			d.Add(M{"e": "panic", "o": o, "msg": p})
		}
	}
	for _, u := range units {
		for _, w := range units {
			for _, bits := range []int{32, 64} {
				one(u, w, 0, bits)
				one(u, w, float64(1+r.Intn(400))/4, bits)
				one(u, w, float64(1+r.Intn(400))/8, bits)
			}
		}
	}
	return d
}

// ---- fans

type fan struct {
	m      *fanspeedpb.Model
	srv    *fanspeedpb.ModelServer
	server bool
}

func (f fan) kind() string { return "fan" }

func speed(s *traits.FanSpeed) M {
	return M{"p": s.GetPreset(), "i": int(s.GetPresetIndex()), "pct": num(float64(s.GetPercentage()), 2), "d": int(s.GetDirection())}
}

func toSpeed(x M) *traits.FanSpeed {
	return &traits.FanSpeed{Preset: str(x, "p"), PresetIndex: int32(integer(x["i"])), Percentage: float32(integer(x["pct"])) / 2,
		Direction: traits.FanSpeed_Direction(integer(x["d"]))}
}

func (f fan) now() any { return speed(f.m.FanSpeed()) }

func (f fan) do(o M, r M) (err error) {
	var s *traits.FanSpeed
	x := toSpeed(mapOf(o, "x"))
	switch {
	case o["op"] == "reverse":
		s, err = f.srv.ReverseFanSpeedDirection(ctx, &traits.ReverseFanSpeedDirectionRequest{Name: "n"})
	case f.server || flag(o, "rel"):
		s, err = f.srv.UpdateFanSpeed(ctx, &traits.UpdateFanSpeedRequest{Name: "n", FanSpeed: x, Relative: flag(o, "rel"), UpdateMask: mask(o)})
	default:
		s, err = f.m.UpdateFanSpeed(x, resource.WithUpdateMask(mask(o)))
	}
	r["ret"] = A{}
	if s != nil {
		r["ret"] = A{speed(s)}
	}
	return err
}

var defaultPresets = A{M{"n": "off", "pct": 0}, M{"n": "low", "pct": 30}, M{"n": "med", "pct": 80}, M{"n": "high", "pct": 150}, M{"n": "full", "pct": 200}}

func newFan(id string, presets A, init A, server, dflt bool) *run {
	return start(id, M{"presets": presets, "init": init, "server": server}, func() (model, M) {
		var ps []fanspeedpb.Preset
		for _, p := range presets {
			ps = append(ps, fanspeedpb.Preset{Name: p.(M)["n"].(string), Percentage: float32(p.(M)["pct"].(int)) / 2})
		}
		var opts []resource.Option
		if !dflt {
			opts = append(opts, fanspeedpb.WithPresets(ps...))
		}
		if len(init) > 0 {
			opts = append(opts, fanspeedpb.WithInitialFanSpeed(toSpeed(init[0].(M))))
		}
		m := fanspeedpb.NewModel(opts...)
		return fan{m, fanspeedpb.NewModelServer(m), server}, nil
	})
}

var fanFields = A{"preset", "preset_index", "percentage", "direction"}

func subset(r *rand.Rand, all A) A {
	l := A{}
	for _, f := range all {
		if r.Intn(2) == 0 {
			l = append(l, f)
		}
	}
	if len(l) == 0 {
		l = append(l, all[r.Intn(len(all))])
	}
	return l
}

func randFan(id string, r *rand.Rand) *run {
	presets, dflt := defaultPresets, true
	if r.Intn(3) > 0 {
		dflt = false
		presets = A{}
		names := []string{"p0", "p1", "p2", "off", "low"}
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		for i, n := 0, r.Intn(5); i < n; i++ {
			presets = append(presets, M{"n": names[i], "pct": 10 * r.Intn(20)})
		}
	}
	any := func() M {
		x := M{"p": "", "i": 0, "pct": 0, "d": 0}
		for ok := false; !ok; {
			if r.Intn(3) == 0 {
				if len(presets) > 0 && r.Intn(8) > 0 {
					x["p"] = presets[r.Intn(len(presets))].(M)["n"]
				} else if r.Intn(4) == 0 {
					x["p"] = "nope"
				}
				ok = true
			}
			if r.Intn(3) == 0 {
				x["i"], ok = r.Intn(8)-2, true
			}
			if r.Intn(3) == 0 {
				x["pct"], ok = 10*r.Intn(20), true
				if len(presets) > 0 && r.Intn(2) == 0 {
					x["pct"] = presets[r.Intn(len(presets))].(M)["pct"]
				}
			}
			if r.Intn(5) == 0 {
				x["d"], ok = r.Intn(3), true
			}
		}
		return x
	}
	var init A
	if r.Intn(3) == 0 {
		init = A{M{"p": "", "i": 0, "pct": 10 * r.Intn(20), "d": r.Intn(3)}}
		if len(presets) > 0 && r.Intn(2) == 0 {
			i := r.Intn(len(presets))
			init = A{M{"p": presets[i].(M)["n"], "i": i, "pct": presets[i].(M)["pct"], "d": 2}}
		}
	} else {
		init = A{}
	}
	d := newFan(id, presets, init, r.Intn(2) == 0, dflt)
	for i := 0; i < 20; i++ {
		if r.Intn(12) == 0 {
			d.op(M{"op": "reverse"})
			continue
		}
		o := M{"op": "set", "x": any(), "mask": A{}, "rel": false}
		if r.Intn(3) == 0 {
			o["mask"] = A{subset(r, fanFields)}
		}
		if r.Intn(3) == 0 {
			x := o["x"].(M)
			o["rel"] = true
			if r.Intn(2) == 0 {
				x["p"] = ""
			}
			if r.Intn(2) == 0 {
				x["i"] = -integer(x["i"])
			}
			if r.Intn(2) == 0 {
				x["pct"] = -integer(x["pct"])
			}
		}
		d.op(o)
	}
	return d
}

// ---- modes

type modes struct {
	m      *modepb.Model
	srv    *modepb.ModelServer
	server bool
}

func (m modes) kind() string { return "mode" }

func values(v *traits.ModeValues) M {
	x := M{}
	for k, s := range v.GetValues() {
		x[k] = s
	}
	return x
}

func (m modes) now() any { return values(m.m.ModeValues()) }

func (m modes) do(o M, r M) error {
	v := &traits.ModeValues{Values: map[string]string{}}
	for k, s := range mapOf(o, "values") {
		v.Values[k] = s.(string)
	}
	rel := &traits.ModeValuesRelative{Values: map[string]int32{}}
	for k, n := range mapOf(o, "rel") {
		rel.Values[k] = int32(integer(n))
	}
	req := &traits.UpdateModeValuesRequest{Name: "n", ModeValues: v, Relative: rel, UpdateMask: mask(o)}
	if len(v.Values) == 0 && len(rel.Values) > 0 {
		req.ModeValues = nil
	}
	if len(rel.Values) == 0 {
		req.Relative = nil
		if !m.server {
			x, err := m.m.UpdateModeValues(v, resource.WithUpdateMask(mask(o)))
			r["ret"] = values(x)
			return err
		}
	}
	x, err := m.srv.UpdateModeValues(ctx, req)
	r["ret"] = values(x)
	return err
}

func fromModes(ms *traits.Modes) A {
	l := A{}
	for _, m := range ms.GetModes() {
		vs := A{}
		for _, v := range m.Values {
			vs = append(vs, v.Name)
		}
		l = append(l, M{"n": m.Name, "vs": vs})
	}
	return l
}

func newModes(id string, cfg A, server, dflt bool) *run {
	return start(id, M{"modes": cfg, "server": server}, func() (model, M) {
		ms := &traits.Modes{}
		for _, m := range cfg {
			x := &traits.Modes_Mode{Name: m.(M)["n"].(string)}
			for _, v := range m.(M)["vs"].(A) {
				x.Values = append(x.Values, &traits.Modes_Value{Name: v.(string)})
			}
			ms.Modes = append(ms.Modes, x)
		}
		m := modepb.NewModel()
		if !dflt {
			m = modepb.NewModelModes(ms)
		}
		return modes{m, modepb.NewModelServer(m), server}, M{"modes": fromModes(m.Modes())}
	})
}

var defaultModes = A{M{"n": "temperature", "vs": A{"delicates", "medium", "whites"}}, M{"n": "spin", "vs": A{"auto", "slow", "fast"}}}

func randModes(id string, r *rand.Rand) *run {
	cfg, dflt := defaultModes, true
	if r.Intn(3) > 0 {
		dflt = false
		cfg = A{}
		for _, n := range []string{"spin", "speed", "heat", "temperature"} {
			if r.Intn(3) > 0 {
				vs := A{}
				for i, k := 0, 1+r.Intn(5); i < k; i++ {
					vs = append(vs, fmt.Sprint(n[:1], i))
				}
				cfg = append(cfg, M{"n": n, "vs": vs})
			}
		}
	}
	d := newModes(id, cfg, r.Intn(2) == 0, dflt)
	name := func() (string, string) {
		if len(cfg) == 0 || r.Intn(8) == 0 {
			return "other", "o"
		}
		m := cfg[r.Intn(len(cfg))].(M)
		vs := m["vs"].(A)
		if r.Intn(8) == 0 {
			return m["n"].(string), "odd"
		}
		return m["n"].(string), vs[r.Intn(len(vs))].(string)
	}
	for i := 0; i < 20; i++ {
		vs, rel := M{}, M{}
		if r.Intn(2) == 0 {
			for n := r.Intn(3); n >= 0; n-- {
				k, v := name()
				vs[k] = v
			}
		}
		if len(vs) == 0 || r.Intn(3) == 0 {
			for n := r.Intn(3); n >= 0; n-- {
				k, _ := name()
				rel[k] = r.Intn(15) - 7
				if r.Intn(10) == 0 {
					rel[k] = []int{math.MaxInt32, math.MaxInt32 - 1, -math.MaxInt32, 1000000007}[r.Intn(4)]
				}
			}
		}
		o := M{"op": "set", "values": vs, "rel": rel, "mask": A{}}
		if r.Intn(3) == 0 {
			o["mask"] = A{A{"values"}}
		}
		d.op(o)
	}
	return d
}

// ---- enter/leave

type enter struct {
	m *enterleavesensorpb.Model
	s *enterleavesensorpb.ModelServer
}

func (e enter) kind() string { return "enter" }

func totals(x *traits.EnterLeaveEvent) M {
	opt := func(n *int32) A {
		if n == nil {
			return A{}
		}
		return A{int(*n)}
	}
	return M{"e": opt(x.EnterTotal), "l": opt(x.LeaveTotal)}
}

func (e enter) now() any {
	x, _ := e.m.GetEnterLeaveEvent()
	return totals(x)
}

func optInt(l A) *int32 {
	if len(l) == 0 {
		return nil
	}
	n := int32(integer(l[0]))
	return &n
}

func (e enter) do(o M, r M) error {
	if o["op"] == "reset" {
		if flag(o, "server") {
			_, err := e.s.ResetEnterLeaveTotals(ctx, &traits.ResetEnterLeaveTotalsRequest{Name: "n"})
			return err
		}
		return e.m.ResetTotals()
	}
	return e.m.CreateEnterLeaveEvent(&traits.EnterLeaveEvent{
		Direction: traits.EnterLeaveEvent_Direction(traits.EnterLeaveEvent_Direction_value[str(o, "d")]),
		Occupant:  &traits.EnterLeaveEvent_Occupant{Name: "who"}, EnterTotal: optInt(list(o, "e")), LeaveTotal: optInt(list(o, "l"))})
}

func newEnter(id string, init M, dflt bool) *run {
	return start(id, M{"init": init}, func() (model, M) {
		var opts []resource.Option
		if !dflt {
			opts = append(opts, enterleavesensorpb.WithInitialEnterLeaveEvent(&traits.EnterLeaveEvent{
				EnterTotal: optInt(list(init, "e")), LeaveTotal: optInt(list(init, "l")), Direction: traits.EnterLeaveEvent_ENTER}))
		}
		m := enterleavesensorpb.NewModel(opts...)
		return enter{m, enterleavesensorpb.NewModelServer(m)}, nil
	})
}

func randEnter(id string, r *rand.Rand) *run {
	opt := func(n int) A {
		if r.Intn(2) == 0 {
			return A{}
		}
		return A{r.Intn(n)}
	}
	dflt := r.Intn(2) == 0
	init := M{"e": A{0}, "l": A{0}}
	if !dflt {
		init = M{"e": opt(9), "l": opt(9)}
	}
	d := newEnter(id, init, dflt)
	for i := 0; i < 20; i++ {
		if r.Intn(7) == 0 {
			d.op(M{"op": "reset", "server": r.Intn(2) == 0})
			continue
		}
		o := M{"op": "event", "d": []string{"ENTER", "LEAVE", "ENTER", "DIRECTION_UNSPECIFIED"}[r.Intn(4)], "e": A{}, "l": A{}}
		if r.Intn(3) == 0 {
			o["e"] = opt(6)
		}
		if r.Intn(3) == 0 {
			o["l"] = opt(6)
		}
		d.op(o)
	}
	return d
}

// ---- meters

type meter struct {
	m *meterpb.Model
	c *ticks
}

func (m meter) kind() string { return "meter" }

func reading(x *traits.MeterReading) M {
	return M{"u": num(float64(x.Usage), 2), "st": fromTime(x.StartTime), "en": fromTime(x.EndTime)}
}

func (m meter) now() any {
	x, _ := m.m.GetMeterReading()
	return reading(x)
}

func (m meter) do(o M, r M) (err error) {
	r["t0"] = m.c.at()
	defer func() { r["t1"] = m.c.at() }()
	var x *traits.MeterReading
	u := float32(integer(o["u"])) / 2
	switch o["op"] {
	case "record":
		x, err = m.m.RecordReading(u)
	case "reset":
		x, err = m.m.Reset()
	case "update":
		x, err = m.m.UpdateMeterReading(&traits.MeterReading{Usage: u}, resource.WithUpdatePaths("usage"))
	}
	r["ret"] = A{}
	if x != nil {
		r["ret"] = A{reading(x)}
	}
	return err
}

func newMeter(id string, init M, dflt bool) *run {
	clk := &ticks{Clock: clock.Real()}
	clk.n.Store(100)
	return start(id, M{"init": init}, func() (model, M) {
		opts := []resource.Option{resource.WithClock(clk)}
		if !dflt {
			x := &traits.MeterReading{Usage: float32(integer(init["u"])) / 2}
			if l := list(init, "st"); len(l) > 0 {
				x.StartTime = toTime(integer(l[0]))
			}
			if l := list(init, "en"); len(l) > 0 {
				x.EndTime = toTime(integer(l[0]))
			}
			opts = append(opts, resource.WithInitialValue(x))
		}
		m := meterpb.NewModel(opts...)
		return meter{m, clk}, M{"t0": 100, "t1": clk.at()}
	})
}

func randMeter(id string, r *rand.Rand) *run {
	init, dflt := M{"u": 0, "st": A{}, "en": A{}}, r.Intn(2) == 0
	if !dflt {
		init["u"] = r.Intn(50)
		if r.Intn(2) == 0 {
			init["st"] = A{r.Intn(40)}
		}
		if r.Intn(2) == 0 {
			init["en"] = A{40 + r.Intn(40)}
		}
	}
	d := newMeter(id, init, dflt)
	for i := 0; i < 15; i++ {
		u := r.Intn(40)
		if r.Intn(4) == 0 {
			u = 0
		}
		d.op(M{"op": []string{"record", "record", "reset", "update"}[r.Intn(4)], "u": u})
	}
	return d
}

// ---- publications

type pubs struct {
	m *publicationpb.Model
	s *publicationpb.ModelServer
	c *ticks
}

func (p pubs) kind() string { return "pub" }

func publication(x *traits.Publication) M {
	rc := x.GetAudience().GetReceipt().String()
	if rc == "RECEIPT_UNSPECIFIED" {
		rc = "NO_SIGNAL"
	}
	a := A{}
	if n := x.GetAudience().GetName(); n != "" {
		a = A{n}
	}
	return M{"b": string(x.Body), "m": x.MediaType, "a": a, "rc": rc, "why": x.GetAudience().GetReceiptRejectedReason(),
		"rt": fromTime(x.GetAudience().GetReceiptTime()), "pt": fromTime(x.PublishTime), "v": x.Version}
}

func toPublication(id string, x M) *traits.Publication {
	p := &traits.Publication{Id: id, Body: []byte(str(x, "b")), MediaType: str(x, "m")}
	if a := list(x, "a"); len(a) > 0 {
		p.Audience = &traits.Publication_Audience{Name: a[0].(string)}
		if flag(x, "acked") {
			p.Audience.Receipt = traits.Publication_Audience_ACCEPTED
			p.Audience.ReceiptRejectedReason = "made up"
		}
	}
	return p
}

func (p pubs) now() any {
	m := M{}
	for _, x := range p.m.ListPublications() {
		m[x.Id] = publication(x)
	}
	return m
}

func (p pubs) do(o M, r M) (err error) {
	id := str(o, "id")
	// versions of scripts
	switch str(o, "ver") {
	case "cur":
		x, _ := p.m.GetPublication(id)
		o["v"] = x.GetVersion()
	case "bad":
		o["v"] = "bad"
	default:
		if _, ok := o["v"]; !ok {
			o["v"] = ""
		}
	}
	r["t0"] = p.c.at()
	defer func() { r["t1"] = p.c.at() }()
	var x *traits.Publication
	v := str(o, "v")
	switch o["op"] {
	case "create":
		x, err = p.s.CreatePublication(ctx, &traits.CreatePublicationRequest{Name: "n", Publication: toPublication(id, mapOf(o, "x"))})
	case "update":
		x, err = p.s.UpdatePublication(ctx, &traits.UpdatePublicationRequest{Name: "n", Publication: toPublication(id, mapOf(o, "x")), UpdateMask: mask(o), Version: v})
	case "delete":
		x, err = p.s.DeletePublication(ctx, &traits.DeletePublicationRequest{Name: "n", Id: id, Version: v, AllowMissing: flag(o, "allow")})
	case "ack":
		x, err = p.s.AcknowledgePublication(ctx, &traits.AcknowledgePublicationRequest{Name: "n", Id: id, Version: v, AllowAcknowledged: flag(o, "allow"),
			Receipt: traits.Publication_Audience_Receipt(traits.Publication_Audience_Receipt_value[str(o, "rc")]), ReceiptRejectedReason: str(o, "why")})
	}
	r["ret"], r["id"] = A{}, x.GetId()
	if x != nil {
		r["ret"] = A{publication(x)}
	}
	return err
}

func newPubs(id string, seed int64, init M) *run {
	clk := &ticks{Clock: clock.Real()}
	clk.n.Store(100)
	return start(id, M{"init": init}, func() (model, M) {
		var l []*traits.Publication
		for n, x := range init {
			p := toPublication(n, x.(M))
			p.Version = x.(M)["v"].(string)
			l = append(l, p)
		}
		m := publicationpb.NewModel(resource.WithClock(clk), resource.WithRNG(rand.New(rand.NewSource(seed))), publicationpb.WithInitialPublication(l...))
		return pubs{m, publicationpb.NewModelServer(m), clk}, nil
	})
}

func randPubs(id string, r *rand.Rand) *run {
	bodies, media, aud := []string{"", "x", "yy", "zzz"}, []string{"", "m", "nn"}, []string{"", "au", "bo"}
	content := func() M {
		x := M{"b": bodies[r.Intn(4)], "m": media[r.Intn(3)], "a": A{}}
		if a := aud[r.Intn(3)]; a != "" {
			x["a"] = A{a}
			x["acked"] = r.Intn(4) == 0
		}
		return x
	}
	init := M{}
	if r.Intn(2) == 0 {
		x := content()
		delete(x, "acked")
		x["rc"], x["why"], x["rt"], x["pt"], x["v"] = "NO_SIGNAL", "", A{}, A{}, "v0"
		init["p"] = x
	}
	d := newPubs(id, r.Int63(), init)
	seen := []string{"bad"}
	var made []string
	for i := 0; i < 24 && !d.bad; i++ {
		ids := append([]string{"p", "q"}, made...)
		n := ids[r.Intn(len(ids))]
		if r.Intn(20) == 0 {
			n = ""
		}
		v := ""
		if x, ok := d.m.(pubs).m.GetPublication(n); ok {
			v = x.Version
		}
		if v != "" {
			seen = append(seen, v)
		}
		switch r.Intn(6) {
		case 0:
			v = ""
		case 1:
			v = seen[r.Intn(len(seen))]
		}
		switch k := r.Intn(12); {
		case k < 2:
			if r.Intn(2) == 0 {
				n = ""
			}
			d.op(M{"op": "create", "id": n, "x": content()})
			if n == "" {
				for _, x := range d.m.(pubs).m.ListPublications() {
					made = append(made, x.Id)
				}
			}
		case k < 6:
			o := M{"op": "update", "id": n, "x": content(), "mask": A{}, "v": v}
			if r.Intn(2) == 0 {
				o["mask"] = A{subset(r, A{"body", "media_type", "audience"})}
			}
			d.op(o)
		case k < 11:
			d.op(M{"op": "ack", "id": n, "v": v, "rc": []string{"ACCEPTED", "REJECTED", "REJECTED", "", "NO_SIGNAL"}[r.Intn(5)],
				"why": []string{"", "no", "never"}[r.Intn(3)], "allow": r.Intn(2) == 0})
		default:
			d.op(M{"op": "delete", "id": n, "v": v, "allow": r.Intn(2) == 0})
		}
	}
	return d
}

// ---- sessions

var makers = []struct {
	name string
	fn   func(string, *rand.Rand) *run
}{
	{"parent", randParent}, {"vend", randVending}, {"fan", randFan}, {"mode", randModes}, {"enter", randEnter}, {"meter", randMeter},
	{"pub", randPubs}, {"unit", conversions}, {"atonce", concParents},
}

var scriptPresets = A{M{"n": "off", "pct": 0}, M{"n": "low", "pct": 30}, M{"n": "full", "pct": 200}}
var scriptModes = A{M{"n": "temp", "vs": A{"cold", "warm", "hot"}}, M{"n": "spin", "vs": A{"slow", "fast"}}}

func script(id, kind string, alt bool) *run {
	switch kind {
	case "parent":
		return newParent(id, M{})
	case "vend":
		return newVending(id, M{}, alt)
	case "fan":
		return newFan(id, scriptPresets, A{M{"p": "off", "i": 0, "pct": 0, "d": 1}}, alt, false)
	case "mode":
		return newModes(id, scriptModes, alt, false)
	case "enter":
		return newEnter(id, M{"e": A{0}, "l": A{0}}, true)
	case "meter":
		return newMeter(id, M{"u": 0, "st": A{}, "en": A{}}, true)
	case "pub":
		return newPubs(id, 1, M{})
	}
	panic("no such kind " + kind)
}

func scripts(out *vlib.Out, file string, w, of int) {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for n := 0; sc.Scan(); n++ {
		if n%of != w {
			continue
		}
		var s struct {
			Kind string
			Ops  []M
		}
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Fprintln(os.Stderr, "bad script", err, sc.Text())
			os.Exit(3)
		}
		d := script(fmt.Sprintf("script %s-%d", s.Kind, n), s.Kind, n/of%2 == 0)
		for _, o := range s.Ops {
			norm(o)
			d.op(o)
		}
		out.Write(d.Session)
	}
}

// TLC prints empty functions as empty lists, and lists come back as []any.
func norm(o M) {
	for _, k := range []string{"values", "rel"} {
		if _, ok := o[k].(A); ok {
			o[k] = M{}
		}
	}
}

// has: what models are given to start with.
func has(out *vlib.Out) {
	s := &vlib.Session{ID: "has", Cfg: M{"kind": "has"}}
	canon := func(ms ...proto.Message) A {
		l := A{}
		for _, m := range ms {
			l = append(l, vlib.Canon(m))
		}
		sort.Slice(l, func(i, j int) bool { return l[i].(string) < l[j].(string) })
		return l
	}
	for _, c := range configured() {
		p := vlib.Catch(func() {
			got, want := c.fn()
			s.Add(M{"e": "has", "o": M{"op": c.name}, "got": canon(got...), "want": canon(want...)})
		})
		if p != "" {
			s.Add(M{"e": "panic", "o": M{"op": c.name}, "msg": p})
			break
		}
	}
	out.Write(s)
}

func main() {
	var w, of int
	fmt.Sscanf(os.Args[1], "%d/%d", &w, &of)
	out := vlib.NewOut()
	defer out.Close()
	rnd := rand.New(rand.NewSource(vlib.Seed()*1000003 + int64(w)))
	for _, part := range strings.Split(os.Args[2], ",") {
		switch part {
		case "scripts":
			scripts(out, os.Args[3], w, of)
		case "random":
			for i := 0; i < vlib.N(150, 2500); i++ {
				for _, m := range makers {
					if m.name == "unit" && i%10 != 0 {
						continue
					}
					out.Write(m.fn(fmt.Sprintf("random %s-%d-%d", m.name, w, i), rand.New(rand.NewSource(rnd.Int63()))).Session)
				}
			}
		case "has":
			if w == 0 {
				has(out)
			}
		}
	}
}
