// cmpd records the answers of message comparers (C16) and what resources that use one deliver.
package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	pr "google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type M = vlib.M

const base = 100000

func limbs(n *big.Int) M {
	l := []int64{}
	a := new(big.Int).Abs(n)
	for a.Sign() > 0 {
		q, r := new(big.Int).QuoRem(a, big.NewInt(base), new(big.Int))
		l = append(l, r.Int64())
		a = q
	}
	return M{"neg": n.Sign() < 0, "l": l}
}

func nanos(s int64, n int32) *big.Int {
	x := new(big.Int).Mul(big.NewInt(s), big.NewInt(1e9))
	return x.Add(x, big.NewInt(int64(n)))
}

func value(fd pr.FieldDescriptor, v pr.Value) M {
	switch fd.Kind() {
	case pr.MessageKind, pr.GroupKind:
		return tree(v.Message().Interface())
	case pr.FloatKind, pr.DoubleKind:
		f := v.Float()
		switch {
		case math.IsNaN(f):
			return M{"k": "f", "c": "nan", "v": "NaN", "n": 0}
		case math.IsInf(f, 0):
			return M{"k": "f", "c": "inf", "v": fmt.Sprint(f), "n": 0}
		case f == 0:
			return M{"k": "f", "c": "num", "v": "0", "n": 0}
		case f*64 == math.Trunc(f*64) && math.Abs(f) < 10000:
			return M{"k": "f", "c": "num", "v": vlib.Fmt(fd, v), "n": int64(f * 64)}
		}
		return M{"k": "f", "c": "odd", "v": vlib.Fmt(fd, v), "n": 0}
	default:
		return M{"k": "s", "v": vlib.Fmt(fd, v)}
	}
}

// tree is m as a specification value
func tree(m proto.Message) M {
	if m == nil {
		return M{"k": "nil"}
	}
	r := m.ProtoReflect()
	f := M{}
	if r.IsValid() {
		r.Range(func(fd pr.FieldDescriptor, v pr.Value) bool {
			n := string(fd.Name())
			switch {
			case fd.IsList():
				l := []M{}
				for i := 0; i < v.List().Len(); i++ {
					l = append(l, value(fd, v.List().Get(i)))
				}
				f[n] = M{"k": "list", "v": l}
			case fd.IsMap():
				mm := M{}
				v.Map().Range(func(k pr.MapKey, v pr.Value) bool {
					mm["k"+k.String()] = value(fd.MapValue(), v)
					return true
				})
				f[n] = M{"k": "map", "v": mm}
			default:
				f[n] = value(fd, v)
			}
			return true
		})
	}
	u := M{}
	for b := []byte(r.GetUnknown()); len(b) > 0; {
		num, _, n := protowire.ConsumeField(b)
		if n < 0 {
			break
		}
		k := fmt.Sprint("n", num)
		old, _ := u[k].(string)
		u[k] = old + hex.EncodeToString(b[:n])
		b = b[n:]
	}
	t := M{"k": "msg", "d": string(r.Descriptor().FullName()), "n": string(r.Descriptor().Name()), "ok": r.IsValid(), "f": f, "u": u}
	switch x := m.(type) {
	case *timestamppb.Timestamp:
		t["t"] = limbs(nanos(x.GetSeconds(), x.GetNanos()))
	case *durationpb.Duration:
		t["t"] = limbs(nanos(x.GetSeconds(), x.GetNanos()))
	}
	return t
}

// gen makes and changes messages
type gen struct {
	*rand.Rand
	spec comparer
}

func (g gen) float() float64 {
	switch g.Intn(14) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return math.Copysign(0, -1)
	case 4:
		return []float64{1e30, -1e-30, 1.1, 3.3e8}[g.Intn(4)]
	}
	return float64(g.Intn(2*64*4)-64*4) / 64
}

func (g gen) secs() int64 {
	switch g.Intn(5) {
	case 0:
		return g.Int63n(2*315576000000) - 315576000000
	case 1:
		return []int64{0, 1, -1, 9223372036, -9223372037, 9223372037}[g.Intn(6)]
	}
	return g.Int63n(20) - 10
}

func (g gen) scalar(fd pr.FieldDescriptor) pr.Value {
	switch fd.Kind() {
	case pr.BoolKind:
		return pr.ValueOfBool(g.Intn(2) == 0)
	case pr.EnumKind:
		vs := fd.Enum().Values()
		return pr.ValueOfEnum(vs.Get(g.Intn(vs.Len())).Number())
	case pr.Int32Kind, pr.Sint32Kind, pr.Sfixed32Kind:
		return pr.ValueOfInt32([]int32{0, 1, 2, -1, math.MaxInt32, math.MinInt32}[g.Intn(6)])
	case pr.Int64Kind, pr.Sint64Kind, pr.Sfixed64Kind:
		return pr.ValueOfInt64([]int64{0, 1, 2, -1, math.MaxInt64, math.MinInt64, 1 << 32, 1<<53 + 1, 1 << 53}[g.Intn(9)])
	case pr.Uint32Kind, pr.Fixed32Kind:
		return pr.ValueOfUint32([]uint32{0, 1, 2, math.MaxUint32}[g.Intn(4)])
	case pr.Uint64Kind, pr.Fixed64Kind:
		return pr.ValueOfUint64([]uint64{0, 1, 2, math.MaxUint64, 1 << 32, 1<<53 + 1, 1 << 53}[g.Intn(7)])
	case pr.FloatKind:
		return pr.ValueOfFloat32(float32(g.float()))
	case pr.DoubleKind:
		return pr.ValueOfFloat64(g.float())
	case pr.StringKind:
		return pr.ValueOfString([]string{"", "a", "b", "A", "a b"}[g.Intn(5)])
	case pr.BytesKind:
		return pr.ValueOfBytes([][]byte{{}, {0}, {1}, {1, 2}}[g.Intn(4)])
	}
	panic("verif: kind")
}

func (g gen) timeOf(m pr.Message) bool {
	switch x := m.Interface().(type) {
	case *timestamppb.Timestamp:
		x.Seconds, x.Nanos = g.secs(), int32([]int64{0, 1, 999999999, g.Int63n(1e9)}[g.Intn(4)])
		if x.Seconds < -62135596800 {
			x.Seconds = -62135596800
		}
		if x.Seconds > 253402300799 {
			x.Seconds = 253402300799
		}
	case *durationpb.Duration:
		x.Seconds, x.Nanos = g.secs(), int32([]int64{0, 1, 999999999, g.Int63n(1e9)}[g.Intn(4)])
		if x.Seconds < 0 || (x.Seconds == 0 && g.Intn(2) == 0) {
			x.Nanos = -x.Nanos
		}
	default:
		return false
	}
	return true
}

func (g gen) newValue(fd pr.FieldDescriptor, nw func() pr.Value, depth int) pr.Value {
	if fd.Message() == nil {
		return g.scalar(fd)
	}
	v := nw()
	g.fill(v.Message(), depth)
	return v
}

func (g gen) set(r pr.Message, fd pr.FieldDescriptor, depth int) {
	switch {
	case fd.IsList():
		l := r.Mutable(fd).List()
		for n := g.Intn(3); n >= 0; n-- {
			l.Append(g.newValue(fd, l.NewElement, depth-1))
		}
	case fd.IsMap():
		mm := r.Mutable(fd).Map()
		for n := g.Intn(3); n >= 0; n-- {
			mm.Set(g.scalar(fd.MapKey()).MapKey(), g.newValue(fd.MapValue(), mm.NewValue, depth-1))
		}
	default:
		v := g.newValue(fd, func() pr.Value { return r.NewField(fd) }, depth-1)
		if k := fd.Kind(); !fd.HasPresence() && (k == pr.FloatKind || k == pr.DoubleKind) && v.Float() == 0 {
			v = fd.Default() // the library's own copies lose -0
		}
		r.Set(fd, v)
	}
}

func (g gen) fill(r pr.Message, depth int) {
	if g.timeOf(r) || depth < 0 {
		return
	}
	fds := r.Descriptor().Fields()
	p := 4.0 / float64(fds.Len()+1)
	if fds.Len() < 8 {
		p = 0.6
	}
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if g.Float64() < p || fd.Name() == "changes" {
			g.set(r, fd, depth)
		}
	}
	if g.Intn(8) == 0 {
		for n := g.Intn(3); n >= 0; n-- {
			g.unknown(r)
		}
	}
}

func (g gen) unknown(r pr.Message) {
	u := append([]byte{}, r.GetUnknown()...)
	switch {
	case len(u) > 0 && g.Intn(3) == 0:
		// the same fields in another order
		var parts [][]byte
		for b := u; len(b) > 0; {
			_, _, n := protowire.ConsumeField(b)
			parts = append(parts, b[:n])
			b = b[n:]
		}
		g.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		u = nil
		for _, p := range parts {
			u = append(u, p...)
		}
	default:
		u = protowire.AppendTag(u, pr2num(9000+g.Intn(2)), protowire.VarintType)
		u = protowire.AppendVarint(u, uint64(g.Intn(2)))
	}
	r.SetUnknown(u)
}

func pr2num(n int) protowire.Number { return protowire.Number(n) }

// near moves a value by about a tolerance
func (g gen) near(fd pr.FieldDescriptor, v pr.Value) pr.Value {
	switch fd.Kind() {
	case pr.FloatKind, pr.DoubleKind:
		f := v.Float()
		t := g.spec.tol()
		d := []float64{1.0 / 64, t, t + 1.0/64, t - 1.0/64, f * g.spec.frac(), f*g.spec.frac() + 1.0/64}[g.Intn(6)]
		if g.Intn(2) == 0 {
			d = -d
		}
		f += d
		if g.Intn(6) == 0 {
			f = g.float()
		}
		if f == 0 {
			f = 0 // the library's own copies lose -0
		}
		if fd.Kind() == pr.FloatKind {
			return pr.ValueOfFloat32(float32(f))
		}
		return pr.ValueOfFloat64(f)
	case pr.MessageKind:
		m := v.Message()
		switch x := m.Interface().(type) {
		case *timestamppb.Timestamp:
			n := g.shift(nanos(x.Seconds, x.Nanos))
			q, r := new(big.Int).DivMod(n, big.NewInt(1e9), new(big.Int))
			x.Seconds, x.Nanos = q.Int64(), int32(r.Int64())
		case *durationpb.Duration:
			n := g.shift(nanos(x.Seconds, x.Nanos))
			q, r := new(big.Int).QuoRem(n, big.NewInt(1e9), new(big.Int))
			x.Seconds, x.Nanos = q.Int64(), int32(r.Int64())
		default:
			g.mutate(m)
		}
		return v
	}
	return g.scalar(fd)
}

func (g gen) shift(n *big.Int) *big.Int {
	t := big.NewInt(int64(g.spec.dur()))
	switch g.Intn(6) {
	case 0:
		t.Add(t, big.NewInt(1))
	case 1:
		t.Sub(t, big.NewInt(1))
	case 2:
		t.SetInt64(1)
	case 3:
		t.Div(new(big.Int).Mul(n, big.NewInt(int64(g.Intn(60)))), big.NewInt(100))
	case 4:
		t.Mul(n, big.NewInt(2)) // sometimes its opposite
	}
	if g.Intn(2) == 0 {
		t.Neg(t)
	}
	t.Add(t, n)
	if lim := nanos(253402300799, 0); new(big.Int).Abs(t).Cmp(lim) > 0 {
		return lim
	}
	if lim := nanos(-62135596800, 0); t.Cmp(lim) < 0 {
		return lim
	}
	return t
}

// mutate changes one thing somewhere in r
func (g gen) mutate(r pr.Message) {
	var set []pr.FieldDescriptor
	r.Range(func(fd pr.FieldDescriptor, _ pr.Value) bool { set = append(set, fd); return true })
	sort.Slice(set, func(i, j int) bool { return set[i].Number() < set[j].Number() })
	fds := r.Descriptor().Fields()
	switch k := g.Intn(12); {
	case k == 0 || (k < 3 && len(r.GetUnknown()) > 0):
		g.unknown(r)
		return
	case k == 1 && len(set) > 0:
		r.Clear(set[g.Intn(len(set))])
		return
	case k == 2 && len(set) > 0:
		// to its default, which is not always unset
		fd := set[g.Intn(len(set))]
		if !fd.IsList() && !fd.IsMap() {
			if fd.Message() != nil {
				r.Set(fd, r.NewField(fd))
			} else {
				r.Set(fd, fd.Default())
			}
		}
		return
	case k <= 4 || len(set) == 0:
		if fds.Len() > 0 {
			g.set(r, fds.Get(g.Intn(fds.Len())), 1)
		}
		return
	}
	fd := set[g.Intn(len(set))]
	switch {
	case fd.IsList():
		l := r.Mutable(fd).List()
		i := g.Intn(l.Len())
		switch g.Intn(5) {
		case 0:
			l.Truncate(l.Len() - 1)
		case 1:
			l.Append(g.newValue(fd, l.NewElement, 0))
		case 2:
			j := g.Intn(l.Len())
			a, b := l.Get(i), l.Get(j)
			l.Set(i, b)
			l.Set(j, a)
		default:
			l.Set(i, g.near(fd, l.Get(i)))
		}
	case fd.IsMap():
		mm := r.Mutable(fd).Map()
		var ks []pr.MapKey
		mm.Range(func(k pr.MapKey, _ pr.Value) bool { ks = append(ks, k); return true })
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		k := ks[g.Intn(len(ks))]
		switch g.Intn(4) {
		case 0:
			mm.Clear(k)
		case 1:
			v := mm.Get(k)
			mm.Clear(k)
			mm.Set(g.scalar(fd.MapKey()).MapKey(), v)
		default:
			mm.Set(k, g.near(fd.MapValue(), mm.Get(k)))
		}
	case fd.Message() != nil:
		g.near(fd, r.Mutable(fd))
	default:
		r.Set(fd, g.near(fd, r.Get(fd)))
	}
}

// comparer: a value comparer or a combination, and its description
type comparer struct {
	t        string
	num, den int
	m        int // 64ths
	d        time.Duration
	p        int
	cs       []comparer
}

func (c comparer) tol() float64 {
	if len(c.cs) > 0 {
		return c.cs[0].tol()
	}
	return float64(c.m) / 64
}
func (c comparer) frac() float64 {
	if len(c.cs) > 0 {
		return c.cs[0].frac()
	}
	if c.den == 0 {
		return 0
	}
	return float64(c.num) / float64(c.den)
}
func (c comparer) dur() time.Duration {
	if len(c.cs) > 0 {
		return c.cs[len(c.cs)-1].dur()
	}
	return c.d
}

func (c comparer) json() M {
	switch c.t {
	case "float":
		return M{"t": c.t, "num": c.num, "den": c.den, "m": c.m}
	case "time", "dur":
		return M{"t": c.t, "d": limbs(big.NewInt(int64(c.d)))}
	case "durp":
		return M{"t": c.t, "p": c.p}
	}
	return M{"t": c.t, "cs": jsons(c.cs)}
}
func jsons(cs []comparer) []M {
	o := []M{}
	for _, c := range cs {
		o = append(o, c.json())
	}
	return o
}
func (c comparer) value() cmp.Value {
	switch c.t {
	case "float":
		return cmp.FloatValueApprox(float64(c.num)/float64(c.den), float64(c.m)/64)
	case "time":
		return cmp.TimeValueWithin(c.d)
	case "dur":
		return cmp.DurationValueWithin(c.d)
	case "durp":
		return cmp.DurationValueWithinP(float32(c.p))
	case "and":
		return cmp.ValueAnd(values(c.cs)...)
	}
	return cmp.ValueOr(values(c.cs)...)
}
func values(cs []comparer) (o []cmp.Value) {
	for _, c := range cs {
		o = append(o, c.value())
	}
	return
}

func (g gen) comparer(depth int) comparer {
	switch k := g.Intn(8); {
	case k < 2:
		return comparer{t: "float", num: g.Intn(3), den: []int{1, 2, 4, 8}[g.Intn(4)], m: []int{0, 1, 8, 64, 100}[g.Intn(5)]}
	case k == 2:
		return comparer{t: "time", d: g.tolerance()}
	case k == 3:
		return comparer{t: "dur", d: g.tolerance()}
	case k == 4:
		return comparer{t: "durp", p: []int{0, 1, 5, 10, 50, 100, 150}[g.Intn(7)]}
	case depth > 0:
		c := comparer{t: []string{"and", "or"}[g.Intn(2)]}
		for n := g.Intn(4); n > 0; n-- {
			c.cs = append(c.cs, g.comparer(depth-1))
		}
		return c
	}
	return comparer{t: "float", num: 0, den: 1, m: 8}
}

func (g gen) tolerance() time.Duration {
	return []time.Duration{0, 1, time.Millisecond, time.Second, 10 * time.Second, 100 * 365 * 24 * time.Hour, math.MaxInt64}[g.Intn(7)]
}

// whole is a comparer of messages
type whole struct {
	t  string
	cs []comparer
	ms []whole
}

func (w whole) json() M {
	if w.t == "equal" {
		return M{"t": w.t, "cs": jsons(w.cs)}
	}
	ms := []M{}
	for _, m := range w.ms {
		ms = append(ms, m.json())
	}
	return M{"t": w.t, "ms": ms}
}
func (w whole) message() cmp.Message {
	if w.t == "equal" {
		return cmp.Equal(values(w.cs)...)
	}
	var ms []cmp.Message
	for _, m := range w.ms {
		ms = append(ms, m.message())
	}
	if w.t == "mand" {
		return cmp.And(ms...)
	}
	return cmp.Or(ms...)
}
func (g gen) whole(depth int) whole {
	w := whole{t: "equal"}
	if depth > 0 && g.Intn(5) == 0 {
		w.t = []string{"mand", "mor"}[g.Intn(2)]
		for n := g.Intn(4); n > 0; n-- {
			w.ms = append(w.ms, g.whole(depth-1))
		}
		return w
	}
	for n := []int{0, 1, 1, 1, 2, 3}[g.Intn(6)]; n > 0; n-- {
		w.cs = append(w.cs, g.comparer(2))
	}
	return w
}

func (w whole) leaf() comparer {
	if len(w.cs) > 0 {
		return w.cs[0]
	}
	for _, m := range w.ms {
		return m.leaf()
	}
	return comparer{t: "float", m: 8, den: 1, d: time.Second}
}

var types = []proto.Message{
	&testproto.TestAllTypes{}, &testproto.TestAllTypes{}, &testproto.TestAllTypes{}, &testproto.TestAllTypes{},
	&testproto.WellKnown{}, &testproto.WellKnown{},
	&traits.PullEnergyLevelResponse{}, &traits.PullFanSpeedResponse{}, &traits.PullBrightnessResponse{},
	&traits.PullMetadataResponse{}, &traits.PullBookingsResponse{}, &traits.PullBrightnessResponse_Change{},
	&traits.PullMeterReadingsResponse_Change{}, &traits.EnergyLevel{}, &traits.ElectricDemand{}, &traits.PullInventoryResponse_Change{},
}

func compare(x, y proto.Message, w whole, kind string) M {
	e := M{"e": kind, "x": tree(x), "y": tree(y)}
	if kind == "ref" {
		e["xy"] = proto.Equal(x, y)
		return e
	}
	eq := w.message()
	e["c"] = w.json()
	var xy, yx, xx, yy bool
	p := vlib.Catch(func() {
		xy, yx = eq(x, y), eq(y, x)
		xx, yy = eq(x, clone(x)), eq(y, clone(y))
		if xy != eq(x, y) {
			panic("verif: answers differ")
		}
	})
	e["xy"], e["yx"], e["xx"], e["yy"], e["p"] = xy, yx, xx, yy, p
	return e
}

func clone(m proto.Message) proto.Message {
	if m == nil {
		return nil
	}
	return proto.Clone(m)
}

func (g gen) pair(t proto.Message) (x, y proto.Message) {
	x = t.ProtoReflect().New().Interface()
	g.fill(x.ProtoReflect(), 2)
	y = proto.Clone(x)
	for n := g.Intn(4); n > 0; n-- {
		g.mutate(y.ProtoReflect())
	}
	switch g.Intn(120) {
	case 0:
		x = nil
	case 1:
		x, y = nil, nil
	case 2:
		x = (*testproto.TestAllTypes)(nil)
	case 3:
		x, y = (*testproto.TestAllTypes)(nil), (*testproto.TestAllTypes)(nil)
	case 4:
		x, y = (*testproto.TestAllTypes)(nil), &testproto.TestAllTypes{}
	case 5:
		x, y = (*testproto.TestAllTypes)(nil), (*testproto.WellKnown)(nil)
	case 6:
		x, y = &testproto.TestAllTypes{}, &testproto.WellKnown{}
	case 8:
		x, y = &traits.PullBrightnessResponse_Change{}, &traits.PullMeterReadingsResponse_Change{}
	case 9, 10:
		a := &testproto.TestAllTypes{RepeatedNestedMessage: []*testproto.TestAllTypes_NestedMessage{nil}}
		b := proto.Clone(a).(*testproto.TestAllTypes)
		if g.Intn(2) == 0 {
			b.RepeatedNestedMessage[0] = &testproto.TestAllTypes_NestedMessage{A: int32(g.Intn(2))}
		}
		x, y = a, b
	case 7:
		x = &testproto.TestAllTypes{}
	}
	return x, y
}

func ischange(m proto.Message) bool {
	return m != nil && strings.Contains(string(m.ProtoReflect().Descriptor().FullName()), "Pull")
}

func pairs(out *vlib.Out, seed int64, n int) {
	for i := 0; i < n; i++ {
		g := gen{Rand: rand.New(rand.NewSource(seed*67867967 + int64(i)))}
		s := vlib.Session{ID: fmt.Sprint("pairs-", i), Cfg: M{}, Ev: []M{}}
		r := vlib.Session{ID: fmt.Sprint("ref-", i), Cfg: M{}, Ev: []M{}}
		for j := 0; j < 8; j++ {
			w := g.whole(2)
			if j == 0 {
				w = whole{t: "equal"}
			}
			g.spec = w.leaf()
			x, y := g.pair(types[g.Intn(len(types))])
			s.Add(compare(x, y, w, "cmp"))
			if !ischange(x) && !ischange(y) {
				r.Add(compare(x, y, w, "ref"))
			}
		}
		out.Write(&s)
		out.Write(&r)
	}
}

// fields: every field of the test message, unset, default and with a few values, against each other
func fields(out *vlib.Out, seed int64) {
	fds := (&testproto.TestAllTypes{}).ProtoReflect().Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		g := gen{Rand: rand.New(rand.NewSource(seed*86028157 + int64(i)))}
		var ms []*testproto.TestAllTypes
		ms = append(ms, &testproto.TestAllTypes{})
		for n := 0; n < 5; n++ {
			m := &testproto.TestAllTypes{}
			if n == 0 && !fd.IsList() && !fd.IsMap() {
				if fd.Message() != nil {
					m.ProtoReflect().Set(fd, m.ProtoReflect().NewField(fd))
				} else {
					m.ProtoReflect().Set(fd, fd.Default())
				}
			} else {
				g.set(m.ProtoReflect(), fd, 1)
			}
			ms = append(ms, m)
		}
		s := vlib.Session{ID: "field-" + string(fd.Name()), Cfg: M{}, Ev: []M{}}
		r := vlib.Session{ID: "ref-" + string(fd.Name()), Cfg: M{}, Ev: []M{}}
		for _, x := range ms {
			for _, y := range ms {
				s.Add(compare(x, y, whole{t: "equal"}, "cmp"))
				r.Add(compare(x, y, whole{t: "equal"}, "ref"))
				s.Add(compare(x, y, whole{t: "equal", cs: []comparer{{t: "float", num: 0, den: 1, m: 64}, {t: "time", d: time.Second}, {t: "dur", d: time.Second}}}, "cmp"))
			}
		}
		out.Write(&s)
		out.Write(&r)
	}
}

// edges: single floats, times and durations around every tolerance
func edges(out *vlib.Out, seed int64, n int) {
	for i := 0; i < n; i++ {
		g := gen{Rand: rand.New(rand.NewSource(seed*49979693 + int64(i)))}
		s := vlib.Session{ID: fmt.Sprint("edges-", i), Cfg: M{}, Ev: []M{}}
		for j := 0; j < 30; j++ {
			w := whole{t: "equal", cs: []comparer{g.comparer(0)}}
			g.spec = w.leaf()
			var x proto.Message
			switch w.cs[0].t {
			case "float":
				x = &testproto.TestAllTypes{DefaultDouble: 1 + math.Abs(g.float()), DefaultFloat: float32(g.float()) + 0}
			case "time":
				x = &testproto.WellKnown{DefaultTimestamp: &timestamppb.Timestamp{}}
				g.timeOf(x.(*testproto.WellKnown).DefaultTimestamp.ProtoReflect())
			default:
				x = &testproto.WellKnown{DefaultDuration: &durationpb.Duration{}}
				g.timeOf(x.(*testproto.WellKnown).DefaultDuration.ProtoReflect())
			}
			y := proto.Clone(x)
			y.ProtoReflect().Range(func(fd pr.FieldDescriptor, v pr.Value) bool {
				if fd.Message() != nil {
					g.near(fd, y.ProtoReflect().Mutable(fd))
				} else {
					y.ProtoReflect().Set(fd, g.near(fd, v))
				}
				return true
			})
			s.Add(compare(x, y, w, "cmp"))
		}
		out.Write(&s)
	}
}

func main() {
	out := vlib.NewOut()
	defer out.Close()
	seed := vlib.Seed()
	switch os.Args[1] {
	case "pairs":
		fields(out, seed)
		edges(out, seed, vlib.N(300, 5000))
		pairs(out, seed, vlib.N(2500, 40000))
	case "streams":
		streams(out, seed, vlib.N(1200, 12000))
	default:
		fmt.Fprintln(os.Stderr, "verif: unknown mode")
		os.Exit(3)
	}
}
