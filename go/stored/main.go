// stored records sequential call histories on resource.Value and resource.Collection (C01).
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type M = vlib.M
type T = testproto.TestAllTypes

type clk struct {
	mu sync.Mutex
	n  int64
}

func (c *clk) Now() time.Time { c.mu.Lock(); defer c.mu.Unlock(); return time.Unix(c.n, 0) }
func (c *clk) tick() int64    { c.mu.Lock(); defer c.mu.Unlock(); c.n++; return c.n }

// rng that repeats itself: candidates collide until the id gets longer
type badRng struct{ r *rand.Rand }

func (b badRng) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	if len(p) > 0 {
		p[0] = byte(b.r.Intn(2))
	}
	return len(p), nil
}

var paths = []string{"default_int32", "default_string", "default_foreign_message", "default_foreign_message.c",
	"default_foreign_message.d", "repeated_int32"}

func msg(r *rand.Rand) *T {
	m := &T{}
	if r.Intn(3) > 0 {
		m.DefaultInt32 = int32(r.Intn(4))
	}
	if r.Intn(2) > 0 {
		m.DefaultString = []string{"", "s", "t"}[r.Intn(3)]
	}
	if r.Intn(3) == 0 {
		m.DefaultForeignMessage = &testproto.ForeignMessage{C: int32(r.Intn(3)), D: int32(r.Intn(2))}
	}
	if r.Intn(4) == 0 {
		m.RepeatedInt32 = []int32{int32(r.Intn(2))}
	}
	return m
}

func mask(p []string) *fieldmaskpb.FieldMask {
	if p == nil {
		return nil
	}
	return &fieldmaskpb.FieldMask{Paths: append([]string{}, p...)}
}
func jm(p []string) M {
	if p == nil {
		return M{"nil": true, "p": []string{}}
	}
	return M{"nil": false, "p": append([]string{}, p...)}
}
func pick(r *rand.Rand, nilp float64) []string {
	if r.Float64() < nilp {
		return nil
	}
	if r.Intn(15) == 0 {
		return []string{}
	}
	out := []string{}
	for n := 1 + r.Intn(2); n > 0; n-- {
		out = append(out, paths[r.Intn(len(paths))])
	}
	if r.Intn(20) == 0 {
		out = append(out, "nope")
	}
	return out
}

type rec struct {
	id, kind string
	time     int64
	old, new map[string][]string
	seed     bool
	last     bool
}

func (e rec) m() M {
	return M{"id": e.id, "kind": e.kind, "time": e.time, "old": e.old, "new": e.new, "seed": e.seed, "last": e.last}
}

type world struct {
	r      *rand.Rand
	s      *vlib.Session
	clk    *clk
	val    *resource.Value
	coll   *resource.Collection
	inter  func(string) string
	ids    map[string]string // key -> raw id known to the harness
	wr     []string
	events []M
	evMu   sync.Mutex
	evDone chan struct{}
}

func flatT(t time.Time) int64 {
	if t.IsZero() {
		return -7
	}
	return t.Unix()
}

func fromValue(c *resource.ValueChange) M {
	return rec{id: "v", kind: "VALUE", time: flatT(c.ChangeTime), old: vlib.Flat(nil), new: vlib.Flat(c.Value), seed: c.SeedValue, last: c.LastSeedValue}.m()
}
func fromColl(c *resource.CollectionChange) M {
	return rec{id: c.Id, kind: c.ChangeType.String(), time: flatT(c.ChangeTime), old: vlib.Flat(c.OldValue), new: vlib.Flat(c.NewValue), seed: c.SeedValue, last: c.LastSeedValue}.m()
}

const sentinel = 987654

func (w *world) key(id string) string {
	if w.inter != nil {
		return w.inter(id)
	}
	return id
}

// contents as seen through Get and List
func (w *world) observe(ev M) {
	after := M{}
	ids := []string{}
	list := []any{}
	if w.val != nil {
		if m := w.val.Get(); m != nil {
			after["v"] = vlib.Flat(m)
			ids = append(ids, "v")
		}
	} else {
		for k, raw := range w.ids {
			if m, ok := w.coll.Get(raw); ok {
				after[k] = vlib.Flat(m)
				ids = append(ids, k)
			}
		}
		sort.Strings(ids)
		for _, m := range w.coll.List() {
			list = append(list, vlib.Flat(m))
		}
	}
	ev["after"], ev["ids"], ev["list"] = after, ids, list
}

func (w *world) subscribe(ctx context.Context) {
	w.evDone = make(chan struct{})
	if w.val != nil {
		ch := w.val.Pull(ctx, resource.WithUpdatesOnly(true), resource.WithBackpressure(true))
		go func() {
			defer close(w.evDone)
			for c := range ch {
				if t, ok := c.Value.(*T); ok && t.DefaultInt32 == sentinel {
					return
				}
				w.events = append(w.events, fromValue(c))
			}
		}()
		return
	}
	ch := w.coll.Pull(ctx, resource.WithUpdatesOnly(true), resource.WithBackpressure(true))
	go func() {
		defer close(w.evDone)
		for c := range ch {
			if t, ok := c.NewValue.(*T); ok && t.DefaultInt32 == sentinel {
				return
			}
			w.events = append(w.events, fromColl(c))
		}
	}()
}

var rawIds = []string{"a", "b", "B", "c", "", "A"}

func newWorld(r *rand.Rand, id string) *world {
	w := &world{r: r, s: &vlib.Session{ID: id}, clk: &clk{n: 100}, ids: map[string]string{}}
	opts := []resource.Option{resource.WithClock(w.clk)}
	w.wr = pick(r, 0.6)
	if w.wr != nil {
		opts = append(opts, resource.WithWritableFields(mask(w.wr)))
	}
	cfg := M{"schema": "T", "badRng": false}
	m := M{}
	t := M{}
	if r.Intn(3) == 0 {
		cfg["kind"] = "value"
		if r.Intn(4) > 0 {
			init := msg(r)
			m["v"] = vlib.Flat(init)
			t["v"] = w.clk.n
			opts = append(opts, resource.WithInitialValue(init))
		}
		w.val = resource.NewValue(opts...)
	} else {
		cfg["kind"] = "coll"
		switch r.Intn(4) {
		case 0:
			w.inter = strings.ToLower
		case 1:
			w.inter = func(s string) string { return "x" + s }
		}
		if w.inter != nil {
			opts = append(opts, resource.WithIDInterceptor(w.inter))
		}
		switch r.Intn(3) {
		case 0:
			cfg["badRng"] = true
			opts = append(opts, resource.WithRNG(badRng{r}))
		case 1:
			var rd io.Reader = rand.New(rand.NewSource(r.Int63()))
			opts = append(opts, resource.WithRNG(rd))
		}
		for _, raw := range rawIds {
			w.ids[w.key(raw)] = raw
		}
		if w.inter == nil {
			for _, raw := range rawIds[:r.Intn(4)] {
				init := msg(r)
				m[raw] = vlib.Flat(init)
				t[raw] = w.clk.n
				opts = append(opts, resource.WithInitialRecord(raw, init))
			}
		}
		w.coll = resource.NewCollection(opts...)
	}
	w.s.Cfg = cfg
	w.s.Add(M{"e": "new", "m": m, "t": t})
	return w
}

func checkErr(code string) error {
	switch code {
	case "Unknown":
		return errors.New("plain")
	case "ResourceExhausted":
		return status.Error(codes.ResourceExhausted, "no")
	case "FailedPrecondition":
		return status.Error(codes.FailedPrecondition, "no")
	}
	return nil
}

func (w *world) current(key string) proto.Message {
	if w.val != nil {
		return w.val.Get()
	}
	raw, ok := w.ids[key]
	if !ok {
		return nil
	}
	m, ok := w.coll.Get(raw)
	if !ok {
		return nil
	}
	return m
}

type wopts struct {
	id                  string
	add                 bool
	gen, absent, create bool
	mk, x, rs           []string
	allw                bool
	hasExp              bool
	exp                 *T
	check               string
	hasCheck            bool
	hasBefore, hasAfter bool
	hasCreated          bool
	setID               bool
	wt                  int64
	src                 *T
}

func (w *world) randWrite() wopts {
	r := w.r
	o := wopts{wt: -1, src: msg(r)}
	o.id = rawIds[r.Intn(len(rawIds))]
	o.add = r.Intn(3) == 0
	o.gen = r.Intn(3) == 0
	if o.gen && r.Intn(2) == 0 {
		o.id = ""
		o.create = r.Intn(5) > 0
	}
	o.absent = r.Intn(8) == 0
	if r.Intn(2) == 0 {
		o.create = true
	}
	o.mk = pick(r, 0.5)
	if w.wr != nil && o.mk != nil && len(w.wr) > 0 && r.Intn(2) == 0 {
		o.mk = []string{w.wr[r.Intn(len(w.wr))]}
	}
	if r.Intn(6) == 0 {
		o.rs = pick(r, 0)
	}
	if w.wr != nil && r.Intn(5) == 0 {
		o.x = []string{paths[r.Intn(len(paths))]}
	}
	o.allw = r.Intn(10) == 0
	if r.Intn(4) == 0 {
		o.hasExp = true
		if c, ok := w.current(w.key(o.id)).(*T); ok && c != nil && r.Intn(2) == 0 {
			o.exp = proto.Clone(c).(*T)
		} else {
			o.exp = msg(r)
			o.exp.DefaultString = "s" // never the empty message
		}
	}
	if r.Intn(4) == 0 {
		o.hasCheck = true
		if r.Intn(2) == 0 {
			o.check = []string{"Unknown", "ResourceExhausted", "FailedPrecondition"}[r.Intn(3)]
		}
	}
	o.hasBefore = r.Intn(4) == 0
	o.hasAfter = r.Intn(4) == 0
	o.hasCreated = r.Intn(3) == 0
	o.setID = r.Intn(2) == 0
	if r.Intn(4) == 0 {
		o.wt = int64(1000 + r.Intn(50))
	}
	return o
}

func (w *world) write(o wopts) bool {
	now := w.clk.tick()
	var cbs []M
	cb := func(m M) { cbs = append(cbs, m) }
	var opts []resource.WriteOption
	src := proto.Clone(o.src).(*T)
	if o.mk != nil {
		opts = append(opts, resource.WithUpdateMask(mask(o.mk)))
	}
	if len(o.x) > 0 {
		opts = append(opts, resource.WithMoreWritableFields(mask(o.x)))
	}
	if o.rs != nil {
		opts = append(opts, resource.WithResetMask(mask(o.rs)))
	}
	if o.allw {
		opts = append(opts, resource.WithAllFieldsWritable())
	}
	exp := M{}
	var expF any = vlib.Flat(&T{})
	_ = exp
	if o.hasExp {
		opts = append(opts, resource.WithExpectedValue(o.exp))
		expF = vlib.Flat(o.exp)
	}
	if o.hasCheck {
		opts = append(opts, resource.WithExpectedCheck(func(m proto.Message) error {
			cb(M{"k": "check", "seen": vlib.Flat(m)})
			return checkErr(o.check)
		}))
	}
	if o.hasBefore {
		opts = append(opts, resource.InterceptBefore(func(old, change proto.Message) {
			in := vlib.Flat(change)
			oldF := vlib.Flat(old)
			c := change.(*T)
			if ot, ok := old.(*T); ok && ot != nil {
				c.DefaultInt32 = (c.DefaultInt32 + ot.DefaultInt32) % 50
			}
			cb(M{"k": "before", "old": oldF, "in": in, "out": vlib.Flat(change)})
		}))
	}
	if o.hasAfter {
		opts = append(opts, resource.InterceptAfter(func(old, dst proto.Message) {
			in := vlib.Flat(dst)
			oldF := vlib.Flat(old)
			d := dst.(*T)
			if ot, ok := old.(*T); ok && ot != nil && ot.DefaultInt32 != d.DefaultInt32 {
				d.DefaultString = fmt.Sprintf("ch%d", d.DefaultInt32)
			}
			d.DefaultBool = !d.DefaultBool
			cb(M{"k": "after", "old": oldF, "in": in, "out": vlib.Flat(dst)})
		}))
	}
	if o.hasCreated {
		opts = append(opts, resource.WithCreatedCallback(func() { cb(M{"k": "created"}) }))
	}
	if o.wt != -1 {
		opts = append(opts, resource.WithWriteTime(time.Unix(o.wt, 0)))
	}
	if o.absent {
		opts = append(opts, resource.WithExpectAbsent())
	}
	if o.create {
		opts = append(opts, resource.WithCreateIfAbsent())
	}
	if o.gen {
		opts = append(opts, resource.WithGenIDIfAbsent())
	}
	if w.coll != nil {
		opts = append(opts, resource.WithIDCallback(func(id string) {
			if o.setID {
				src.DefaultString = id
			}
			if _, ok := w.ids[w.key(id)]; !ok {
				w.ids[w.key(id)] = id
			}
			k := w.key(id)
			cb(M{"k": "id", "v": id, "key": k, "src": vlib.Flat(src)})
		}))
	}
	w.r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	// the interceptor sees "" as any other id; a generated id replaces only a truly empty key
	key := w.key(o.id)
	ev := M{"e": "write", "id": key, "key": key, "gen": o.gen && w.coll != nil, "absent": o.absent || o.add,
		"create": o.create || o.add, "M": jm(o.mk), "W": jm(w.wr), "X": append([]string{}, o.x...), "allw": o.allw, "R": jm(o.rs),
		"hasExp": o.hasExp, "exp": expF, "check": o.check, "hasCheck": o.hasCheck, "hasBefore": o.hasBefore,
		"hasAfter": o.hasAfter, "hasCreated": o.hasCreated && w.coll != nil, "src": vlib.Flat(src), "now": now, "wt": o.wt}
	if w.val != nil {
		ev["id"], ev["key"] = "v", "v"
	}
	var ret proto.Message
	var err error
	ev["panic"] = vlib.CatchTimeout(20*time.Second, func() {
		switch {
		case w.val != nil:
			ret, err = w.val.Set(src, opts...)
		case o.add:
			ret, err = w.coll.Add(o.id, src, opts...)
		default:
			ret, err = w.coll.Update(o.id, src, opts...)
		}
	})
	ev["code"] = vlib.Code(err)
	ev["ret"] = vlib.Flat(ret)
	if cbs == nil {
		cbs = []M{}
	}
	ev["cbs"] = cbs
	w.observe(ev)
	w.s.Add(ev)
	return ev["panic"] == ""
}

func (w *world) del() {
	r := w.r
	now := w.clk.tick()
	raw := rawIds[r.Intn(len(rawIds))]
	if r.Intn(3) == 0 { // possibly a generated one
		ks := []string{}
		for k := range w.ids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		raw = w.ids[ks[r.Intn(len(ks))]]
	}
	var opts []resource.WriteOption
	var cbs = []M{}
	ev := M{"e": "delete", "id": w.key(raw), "key": w.key(raw), "hasExp": false, "exp": vlib.Flat(&T{}), "check": "", "hasCheck": false,
		"allowMissing": false, "wt": -1, "now": now, "gen": false, "create": false, "absent": false, "M": jm(nil), "W": jm(nil), "X": []string{},
		"allw": true, "R": jm(nil), "src": vlib.Flat(&T{})}
	if r.Intn(2) == 0 {
		ev["allowMissing"] = true
		opts = append(opts, resource.WithAllowMissing(true))
	}
	if r.Intn(4) == 0 {
		opts = append(opts, resource.WithExpectedCheck(func(m proto.Message) error {
			cbs = append(cbs, M{"k": "check", "seen": vlib.Flat(m)})
			return checkErr(ev["check"].(string))
		}))
		if r.Intn(2) == 0 {
			ev["check"] = "ResourceExhausted"
		}
	}
	if r.Intn(4) == 0 {
		x := msg(r)
		if c, ok := w.current(w.key(raw)).(*T); ok && c != nil && r.Intn(3) > 0 {
			x = proto.Clone(c).(*T)
		}
		ev["hasExp"], ev["exp"] = true, vlib.Flat(x)
		opts = append(opts, resource.WithExpectedValue(x))
	}
	if r.Intn(4) == 0 {
		ev["wt"] = int64(2000 + r.Intn(9))
		opts = append(opts, resource.WithWriteTime(time.Unix(ev["wt"].(int64), 0)))
	}
	var ret proto.Message
	var err error
	ev["panic"] = vlib.CatchTimeout(20*time.Second, func() { ret, err = w.coll.Delete(raw, opts...) })
	ev["code"], ev["ret"], ev["cbs"] = vlib.Code(err), vlib.Flat(ret), cbs
	w.observe(ev)
	w.s.Add(ev)
}

func (w *world) read() {
	r := w.r
	mk := pick(r, 0.5)
	var o []resource.ReadOption
	if mk != nil {
		o = append(o, resource.WithReadMask(mask(mk)))
	}
	if w.val != nil {
		ev := M{"e": "get", "key": "v", "M": jm(mk)}
		var got proto.Message
		ev["panic"] = vlib.Catch(func() { got = w.val.Get(o...) })
		ev["found"], ev["r"] = got != nil, vlib.Flat(got)
		for _, p := range mk {
			if p == "nope" {
				return
			}
		}
		w.s.Add(ev)
		return
	}
	for _, p := range mk {
		if p == "nope" {
			return
		}
	}
	if r.Intn(2) == 0 {
		raw := rawIds[r.Intn(len(rawIds))]
		ev := M{"e": "get", "key": w.key(raw), "M": jm(mk)}
		var got proto.Message
		var ok bool
		ev["panic"] = vlib.Catch(func() { got, ok = w.coll.Get(raw, o...) })
		ev["found"], ev["r"] = ok, vlib.Flat(got)
		w.s.Add(ev)
		return
	}
	inc := []string{}
	th := int32(r.Intn(3))
	if r.Intn(2) == 0 {
		o = append(o, resource.WithInclude(func(id string, m proto.Message) bool { return m.(*T).DefaultInt32 >= th }))
	} else {
		th = -1
	}
	for k, raw := range w.ids {
		if m, ok := w.coll.Get(raw); ok && m.(*T).DefaultInt32 >= th {
			inc = append(inc, k)
		}
	}
	sort.Strings(inc)
	ev := M{"e": "list", "M": jm(mk), "inc": inc}
	rs := []any{}
	ev["panic"] = vlib.Catch(func() {
		for _, m := range w.coll.List(o...) {
			rs = append(rs, vlib.Flat(m))
		}
	})
	ev["r"] = rs
	w.s.Add(ev)
}

// finish reads the seed of a fresh subscription and closes the books on what was emitted
func (w *world) finish(cancel func()) {
	ev := M{"e": "final"}
	w.observe(ev)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	seeds := []M{}
	n := len(ev["ids"].([]string))
	deadline := time.After(20 * time.Second)
	if w.val != nil {
		ch := w.val.Pull(ctx)
		for i := 0; i < n; i++ {
			select {
			case c := <-ch:
				seeds = append(seeds, fromValue(c))
			case <-deadline:
			}
		}
		w.val.Set(&T{DefaultInt32: sentinel}, resource.WithAllFieldsWritable())
	} else {
		ch := w.coll.Pull(ctx)
		for i := 0; i < n; i++ {
			select {
			case c := <-ch:
				seeds = append(seeds, fromColl(c))
			case <-deadline:
			}
		}
		w.coll.Update("~end", &T{DefaultInt32: sentinel}, resource.WithAllFieldsWritable(), resource.WithCreateIfAbsent())
	}
	select {
	case <-w.evDone:
	case <-time.After(20 * time.Second):
		w.events = append(w.events, M{"id": "missing sentinel", "kind": "?", "time": 0, "old": vlib.Flat(nil), "new": vlib.Flat(nil), "seed": false, "last": false})
	}
	cancel()
	ev["seeds"] = seeds
	if w.events == nil {
		w.events = []M{}
	}
	ev["events"] = w.events
	w.s.Add(ev)
}

func (w *world) run(n int) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w.subscribe(ctx)
	for i := 0; i < n; i++ {
		switch x := w.r.Intn(10); {
		case x < 6:
			if !w.write(w.randWrite()) {
				return
			}
		case x < 8 && w.coll != nil:
			w.del()
		default:
			w.read()
		}
	}
	w.finish(cancel)
}

// exhaustive option combinations on small contents
func exhaustive(out *vlib.Out, stride, offset int) {
	n := 0
	for _, has := range []bool{false, true} {
		for bits := 0; bits < 1<<8; bits++ {
			for _, mk := range [][]string{nil, {"default_int32"}, {"nope"}, {}} {
				for _, exp := range []int{0, 1, 2} {
					for _, check := range []string{"", "ok", "Unknown"} {
						n++
						if n%stride != offset {
							continue
						}
						r := rand.New(rand.NewSource(int64(n)))
						w := &world{r: r, s: &vlib.Session{ID: fmt.Sprintf("exhaustive-%d", n)}, clk: &clk{n: 100}, ids: map[string]string{"": "", "a": "a"}}
						opts := []resource.Option{resource.WithClock(w.clk)}
						m, t := M{}, M{}
						id := "a"
						if bits&1 > 0 {
							id = ""
						}
						cur := &T{DefaultInt32: 1, DefaultString: "s"}
						if has {
							m[id], t[id] = vlib.Flat(cur), int64(100)
							opts = append(opts, resource.WithInitialRecord(id, cur))
						}
						if bits&2 > 0 {
							w.wr = []string{"default_int32"}
							opts = append(opts, resource.WithWritableFields(mask(w.wr)))
						}
						w.coll = resource.NewCollection(opts...)
						w.s.Cfg = M{"schema": "T", "badRng": false, "kind": "coll"}
						w.s.Add(M{"e": "new", "m": m, "t": t})
						o := wopts{id: id, gen: bits&4 > 0, absent: bits&8 > 0, create: bits&16 > 0, hasBefore: bits&32 > 0,
							hasAfter: bits&64 > 0, hasCreated: bits&128 > 0, wt: -1, mk: mk, src: &T{DefaultInt32: 3}}
						switch exp {
						case 1:
							o.hasExp, o.exp = true, proto.Clone(cur).(*T)
						case 2:
							o.hasExp, o.exp = true, &T{DefaultInt32: 7}
						}
						if check != "" {
							o.hasCheck = true
							if check != "ok" {
								o.check = check
							}
						}
						ctx, cancel := context.WithCancel(context.Background())
						w.subscribe(ctx)
						if w.write(o) {
							w.finish(cancel)
						}
						cancel()
						out.Write(w.s)
					}
				}
			}
		}
	}
}

func main() {
	b, _ := json.Marshal(M{"T": vlib.Schema((&T{}).ProtoReflect().Descriptor(), 2)})
	if err := os.WriteFile(os.Getenv("VERIF_WORK")+"/schemas.json", b, 0o644); err != nil {
		panic(err)
	}
	out := vlib.NewOut()
	defer out.Close()
	seed := vlib.Seed()
	stride := vlib.N(6, 1)
	exhaustive(out, stride, int(seed)%stride)
	n := vlib.N(700, 8000)
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(seed*1_000_003 + int64(i)))
		w := newWorld(r, fmt.Sprintf("seq-%d", i))
		w.run(25)
		out.Write(w.s)
	}
}
