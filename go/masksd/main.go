// masksd records masked writes (C05) and masked reads (C06) on the real library.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/masks"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type M = vlib.M

type kind struct {
	name   string
	zero   proto.Message
	schema map[string]M
	paths  []string // interesting valid paths
	fill   func(*rand.Rand) proto.Message
	only   map[string]bool // top level fields used
}

func (k *kind) new() proto.Message { return k.zero.ProtoReflect().New().Interface() }

var testFields = []string{"default_int32", "default_string", "default_bool", "oneof_default_int32",
	"oneof_default_nested_message", "default_nested_message", "default_foreign_message", "default_well_known",
	"default_nested_enum", "repeated_int32", "repeated_foreign_message", "map_int32_int32", "map_string_nested_message",
	"map_string_string", "optional_int32", "optional_string", "repeated_nested_message"}

func kinds() []*kind {
	mk := func(name string, m proto.Message, depth int, only []string, p float64) *kind {
		k := &kind{name: name, zero: m, schema: vlib.Schema(m.ProtoReflect().Descriptor(), depth)}
		k.only = map[string]bool{}
		for _, f := range only {
			k.only[f] = true
		}
		for p := range k.schema {
			if usable(k.only, p, 3) {
				k.paths = append(k.paths, p)
			}
		}
		sort.Strings(k.paths)
		k.fill = func(r *rand.Rand) proto.Message {
			m := k.new()
			full := k.new()
			pp := p
			if r.Intn(6) == 0 {
				pp = 1
			}
			vlib.Gen{R: r, P: pp, Depth: depth}.Fill(full)
			full.ProtoReflect().Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
				if len(k.only) == 0 || k.only[string(fd.Name())] {
					m.ProtoReflect().Set(fd, v)
				}
				return true
			})
			prune(m.ProtoReflect(), k.only, 0)
			return m
		}
		return k
	}
	return []*kind{
		mk("T", &testproto.TestAllTypes{}, 3, testFields, 0.45),
		mk("AT", &traits.AirTemperature{}, 3, nil, 0.5),
		mk("EM", &traits.ElectricMode{}, 3, nil, 0.5),
		mk("MD", &traits.Metadata{}, 3, []string{"name", "traits", "appearance", "id", "nics", "more", "location"}, 0.5),
		mk("FM", &testproto.ForeignMessage{}, 1, nil, 0.6),
	}
}

// keep corecursive messages small
func prune(r protoreflect.Message, only map[string]bool, d int) {
	r.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Message() != nil && !fd.IsList() && !fd.IsMap() {
			if fd.Name() == "corecursive" {
				v.Message().Range(func(c protoreflect.FieldDescriptor, _ protoreflect.Value) bool {
					switch c.Name() {
					case "default_int32", "default_string", "repeated_int32", "default_foreign_message":
					default:
						v.Message().Clear(c)
					}
					return true
				})
			}
			prune(v.Message(), only, d+1)
		}
		return true
	})
}

func usable(only map[string]bool, p string, max int) bool {
	var top, third string
	n, start := 0, 0
	for i := 0; i <= len(p); i++ {
		if i == len(p) || p[i] == '.' {
			seg := p[start:i]
			if n == 0 {
				top = seg
			}
			if n == 2 {
				third = seg
			}
			n++
			start = i + 1
		}
	}
	if n > max || (len(only) > 0 && !only[top]) {
		return false
	}
	switch third {
	case "", "default_int32", "default_string", "repeated_int32", "default_foreign_message":
		return true
	}
	return false
}

func mask(paths []string) *fieldmaskpb.FieldMask {
	if paths == nil {
		return nil
	}
	return &fieldmaskpb.FieldMask{Paths: append([]string{}, paths...)}
}
func jm(paths []string) M {
	if paths == nil {
		return M{"nil": true, "p": []string{}}
	}
	return M{"nil": false, "p": append([]string{}, paths...)}
}

type rnd struct {
	*rand.Rand
	k *kind
}

// related picks paths with a bias towards overlapping (parent/child/duplicate) ones
func (r rnd) pick(n int) []string {
	out := []string{}
	for len(out) < n {
		p := r.k.paths[r.Intn(len(r.k.paths))]
		out = append(out, p)
		if r.Intn(3) == 0 { // an ancestor or descendant of p
			for tries := 0; tries < 20; tries++ {
				q := r.k.paths[r.Intn(len(r.k.paths))]
				if q != p && (under(q, p) || under(p, q)) {
					out = append(out, q)
					break
				}
			}
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}
func under(p, q string) bool { return len(p) > len(q) && p[:len(q)] == q && p[len(q)] == '.' }

func (r rnd) valid(nilp, emptyp float64) []string {
	x := r.Float64()
	if x < nilp {
		return nil
	}
	if x < nilp+emptyp {
		return []string{}
	}
	p := r.pick(1 + r.Intn(3))
	if r.Intn(8) == 0 {
		p = append(p, p[0]) // duplicate
	}
	return p
}

func (r rnd) invalidPath() string {
	p := r.k.paths[r.Intn(len(r.k.paths))]
	switch r.Intn(6) {
	case 0:
		return "nope"
	case 1:
		return p + ".nope"
	case 2:
		return ""
	case 3: // continue through whatever p is with a plausible name
		return p + "." + []string{"a", "c", "value", "key", "default_int32", "length", "seconds"}[r.Intn(7)]
	case 4:
		return p + "."
	default:
		for i := 0; i < 50; i++ {
			q := r.k.paths[r.Intn(len(r.k.paths))]
			if kd := r.k.schema[q]["k"]; kd == "list" || kd == "map" || kd == "scalar" {
				return q + "." + []string{"a", "c", "value", "p", "default_int32", "0", "name"}[r.Intn(7)]
			}
		}
		return "x.y"
	}
}

func (r rnd) maybeInvalid(nilp, emptyp, invp float64) []string {
	m := r.valid(nilp, emptyp)
	if m != nil && r.Float64() < invp {
		m = append(m, r.invalidPath())
		r.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
	}
	return m
}

type wreq struct {
	Mk, W, X, R []string
	allw        bool
}

func (w wreq) opts() []resource.WriteOption {
	var o []resource.WriteOption
	if w.Mk != nil {
		o = append(o, resource.WithUpdateMask(mask(w.Mk)))
	}
	if len(w.X) > 0 {
		o = append(o, resource.WithMoreWritablePaths(w.X...))
	}
	if w.R != nil {
		o = append(o, resource.WithResetMask(mask(w.R)))
	}
	if w.allw {
		o = append(o, resource.WithAllFieldsWritable())
	}
	return o
}

func (w wreq) ev(k *kind, via string) M {
	x := w.X
	if x == nil {
		x = []string{}
	}
	return M{"e": "update", "via": via, "schema": k.name, "M": jm(w.Mk), "W": jm(w.W), "X": x, "allw": w.allw, "R": jm(w.R)}
}

func (r rnd) req() wreq {
	w := wreq{W: r.valid(0.4, 0.06), R: nil}
	w.Mk = r.maybeInvalid(0.25, 0.06, 0.12)
	if w.W != nil && w.Mk != nil && r.Intn(3) > 0 {
		// mostly inside W so the write is accepted: descendants or members of W
		w.Mk = []string{}
		for n := 1 + r.Intn(2); n > 0 && len(w.W) > 0; n-- {
			base := w.W[r.Intn(len(w.W))]
			c := []string{base}
			for _, p := range r.k.paths {
				if under(p, base) {
					c = append(c, p)
				}
			}
			w.Mk = append(w.Mk, c[r.Intn(len(c))])
		}
	}
	if w.W != nil && r.Intn(5) == 0 {
		w.X = r.pick(1)
	}
	w.allw = r.Intn(12) == 0
	if r.Intn(5) == 0 {
		w.R = r.maybeInvalid(0, 0.1, 0.1)
	}
	return w
}

func updates(out *vlib.Out, k *kind, r rnd, id string, n int) {
	s := &vlib.Session{ID: id}
	for i := 0; i < n; i++ {
		pre := k.fill(r.Rand)
		w := r.req()
		// a chain of writes on one resource: W fixed, the rest varies
		ropts := []resource.Option{}
		if w.W != nil {
			ropts = append(ropts, resource.WithWritableFields(mask(w.W)))
		}
		via := []string{"value", "coll", "create", "direct"}[r.Intn(4)]
		var val *resource.Value
		var coll *resource.Collection
		var cur proto.Message
		get := func() proto.Message {
			switch via {
			case "value":
				return val.Get()
			case "coll", "create":
				m, ok := coll.Get("k")
				if !ok {
					return nil
				}
				return m
			}
			return cur
		}
		switch via {
		case "value":
			val = resource.NewValue(append(ropts, resource.WithInitialValue(proto.Clone(pre)))...)
		case "coll":
			coll = resource.NewCollection(append(ropts, resource.WithInitialRecord("k", proto.Clone(pre)))...)
		case "create":
			coll = resource.NewCollection(ropts...)
			pre = nil
		case "direct":
			cur = proto.Clone(pre)
		}
		s.Add(M{"e": "store", "m": vlib.Flat(pre)})
		for step := 0; step < 1+r.Intn(3); step++ {
			if step > 0 {
				ww := r.req()
				w.Mk, w.R, w.X, w.allw = ww.Mk, ww.R, ww.X, ww.allw
				if r.Intn(2) == 0 {
					w.X, w.allw = nil, false
				}
				if w.W == nil {
					w.X = nil
				}
			}
			src := k.fill(r.Rand)
			ev := w.ev(k, via)
			ev["src"] = vlib.Flat(src)
			var err error
			var ret proto.Message
			created := via == "create" && get() == nil
			p := vlib.Catch(func() {
				switch via {
				case "value":
					ret, err = val.Set(src, w.opts()...)
				case "coll":
					ret, err = coll.Update("k", src, w.opts()...)
				case "create":
					ret, err = coll.Update("k", src, append(w.opts(), resource.WithCreateIfAbsent())...)
				case "direct":
					var o []masks.FieldUpdaterOption
					if w.Mk != nil {
						o = append(o, masks.WithUpdateMask(mask(w.Mk)))
					}
					if w.W != nil && !w.allw {
						o = append(o, masks.WithWritableFields(fieldmaskpb.Union(mask(w.W), mask(w.X))))
					}
					if w.R != nil {
						o = append(o, masks.WithResetMask(mask(w.R)))
					}
					u := masks.NewFieldUpdater(o...)
					if err = u.Validate(src); err == nil {
						dst := proto.Clone(cur)
						u.Merge(dst, src)
						cur = dst
						ret = dst
					}
				}
			})
			ev["panic"] = p
			ev["code"] = vlib.Code(err)
			post := get()
			ev["post"] = vlib.Flat(post)
			ev["ret"] = vlib.Flat(ret)
			if created && err == nil {
				// the write started from an empty message
				s.Add(M{"e": "store", "m": vlib.Flat(k.new())})
			}
			s.Add(ev)
			if p != "" {
				break
			}
		}
	}
	out.Write(s)
}

func reads(out *vlib.Out, k *kind, r rnd, id string, n int) {
	s := &vlib.Session{ID: id}
	for i := 0; i < n; i++ {
		m := k.fill(r.Rand)
		mp := r.maybeInvalid(0.06, 0.06, 0.3)
		s.Add(M{"e": "store", "m": vlib.Flat(m)})
		via := []string{"get", "list", "cget", "pull", "cpull", "pullid", "filter", "filterclone", "event"}[r.Intn(9)]
		ev := M{"e": "read", "via": via, "schema": k.name, "M": jm(mp)}
		var got, after proto.Message
		ctx, cancel := context.WithCancel(context.Background())
		opt := resource.WithReadMask(mask(mp))
		val := resource.NewValue(resource.WithInitialValue(proto.Clone(m)))
		coll := resource.NewCollection(resource.WithInitialRecord("k", proto.Clone(m)))
		filter := masks.NewResponseFilter(masks.WithFieldMask(mask(mp)))
		if k := r.Intn(3); k == 0 && len(mp) > 0 {
			filter = masks.NewResponseFilter(masks.WithFieldMaskPaths(mp...))
		}
		// a read that panics in the library's own goroutine would kill the process: probe the same projection here
		// first, and only go through a subscription when that returns.
		var probe string
		other := k.fill(r.Rand)
		if via == "pull" || via == "cpull" || via == "pullid" || via == "event" {
			probe = vlib.Catch(func() {
				val.Get(opt)
				masks.NewResponseFilter(masks.WithFieldMask(mask(mp))).FilterClone(other)
			})
		}
		ev["panic"] = probe
		if probe == "" {
			ev["panic"] = vlib.CatchTimeout(20*time.Second, func() {
				switch via {
				case "get":
					got = val.Get(opt)
					after = val.Get()
				case "cget":
					got, _ = coll.Get("k", opt)
					after, _ = coll.Get("k")
				case "list":
					got = coll.List(opt)[0]
					after = coll.List()[0]
				case "pull":
					got = (<-val.Pull(ctx, opt)).Value
					after = val.Get()
				case "cpull":
					got = (<-coll.Pull(ctx, opt)).NewValue
					after, _ = coll.Get("k")
				case "pullid":
					got = (<-coll.PullID(ctx, "k", opt)).Value
					after, _ = coll.Get("k")
				case "event":
					// new and old value of events; the stored value passes through m twice
					ch := coll.Pull(ctx, opt, resource.WithUpdatesOnly(true), resource.WithBackpressure(true))
					go func() {
						coll.Update("k", proto.Clone(other))
						coll.Update("k", proto.Clone(m), resource.WithUpdateMask(nil))
						coll.Delete("k")
					}()
					e1 := <-ch
					e2 := <-ch
					e3 := <-ch
					which := r.Intn(3)
					got = []proto.Message{e1.OldValue, e2.NewValue, e3.OldValue}[which]
					// a further read of the same stored version
					after = m
				case "filter":
					in := proto.Clone(m)
					filter.Filter(in)
					got, after = in, m
				case "filterclone":
					in := proto.Clone(m)
					got = filter.FilterClone(in)
					if mp != nil && got == in {
						got = nil
					}
					// isolation: scribbling on the projection leaves the argument alone
					after = in
				}
			})
		}
		if via == "filter" || via == "filterclone" {
			ev["validate"] = vlib.Code(filter.Validate(m))
		}
		if after == nil {
			after = m
		}
		ev["r"] = vlib.Flat(got)
		ev["after"] = vlib.Flat(after)
		s.Add(ev)
		cancel()
	}
	out.Write(s)
}

// exhaustive: the small message, every mask triple over its paths
func exhaustive(out *vlib.Out, k *kind, what string) {
	msgs := []proto.Message{}
	for c := int32(0); c < 3; c++ {
		for d := int32(0); d < 3; d++ {
			msgs = append(msgs, &testproto.ForeignMessage{C: c, D: d})
		}
	}
	ms := [][]string{nil, {}, {"c"}, {"d"}, {"c", "d"}, {"c", "c"}, {"d", "c"}, {"x"}, {"c", "x"}, {"c.d"}}
	if what == "update" {
		s := &vlib.Session{ID: "exhaustive-update"}
		for _, pre := range msgs {
			for _, src := range msgs {
				for _, mk := range ms {
					for _, w := range ms[:7] {
						for _, rs := range [][]string{nil, {"d"}} {
							if len(s.Ev) > 400 {
								out.Write(s)
								s = &vlib.Session{ID: "exhaustive-update"}
							}
							q := wreq{Mk: mk, W: w, R: rs}
							ropts := []resource.Option{resource.WithInitialValue(proto.Clone(pre))}
							if w != nil {
								ropts = append(ropts, resource.WithWritableFields(mask(w)))
							}
							v := resource.NewValue(ropts...)
							ev := q.ev(k, "value")
							ev["src"] = vlib.Flat(src)
							var ret proto.Message
							var err error
							ev["panic"] = vlib.Catch(func() { ret, err = v.Set(proto.Clone(src), q.opts()...) })
							ev["code"], ev["ret"], ev["post"] = vlib.Code(err), vlib.Flat(ret), vlib.Flat(v.Get())
							s.Add(M{"e": "store", "m": vlib.Flat(pre)})
							s.Add(ev)
						}
					}
				}
			}
		}
		out.Write(s)
		return
	}
	s := &vlib.Session{ID: "exhaustive-read"}
	for _, m := range msgs {
		for _, mk := range ms {
			v := resource.NewValue(resource.WithInitialValue(proto.Clone(m)))
			ev := M{"e": "read", "via": "get", "schema": k.name, "M": jm(mk)}
			var got proto.Message
			ev["panic"] = vlib.Catch(func() { got = v.Get(resource.WithReadMask(mask(mk))) })
			ev["r"], ev["after"] = vlib.Flat(got), vlib.Flat(v.Get())
			s.Add(M{"e": "store", "m": vlib.Flat(m)})
			s.Add(ev)
		}
	}
	out.Write(s)
}

func main() {
	mode := os.Args[1]
	ks := kinds()
	sch := map[string]any{}
	for _, k := range ks {
		sch[k.name] = k.schema
	}
	b, _ := json.Marshal(sch)
	if err := os.WriteFile(os.Getenv("VERIF_WORK")+"/schemas.json", b, 0o644); err != nil {
		panic(err)
	}
	out := vlib.NewOut()
	defer out.Close()
	exhaustive(out, ks[4], mode)
	batches := vlib.N(200, 3000)
	for i := 0; i < batches; i++ {
		for _, k := range ks[:4] {
			r := rnd{rand.New(rand.NewSource(vlib.Seed()*1_000_003 + int64(i)*97 + int64(len(k.name)))), k}
			id := fmt.Sprintf("%s-%s-%d", mode, k.name, i)
			if mode == "update" {
				updates(out, k, r, id, 12)
			} else {
				reads(out, k, r, id, 25)
			}
		}
	}
}
