// lined compares periods and timestamps, and works with lists of electric segments and with modes, through the
// library's helpers, and records what they make of them.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	timepb "github.com/smart-core-os/sc-api/go/types/time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	sctime "github.com/smart-core-os/sc-golang/pkg/time"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb/segmentpb"
)

type M = vlib.M
type A = []any

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- periods

func limbs(t *timestamppb.Timestamp) A {
	s := t.Seconds
	return A{int(s >> 48), int(s >> 24 & (1<<24 - 1)), int(s & (1<<24 - 1)), int(t.Nanos)}
}

func periods(out *vlib.Out, id string, ts []*timestamppb.Timestamp, ps [][2]int) {
	s := &vlib.Session{ID: id}
	var tl, pl A
	for _, t := range ts {
		tl = append(tl, limbs(t))
	}
	var pp, keep []*timepb.Period
	for _, p := range ps {
		pl = append(pl, A{p[0], p[1]})
		var a, b *timestamppb.Timestamp
		if p[0] > 0 {
			a = ts[p[0]-1]
		}
		if p[1] > 0 {
			b = ts[p[1]-1]
		}
		var x *timepb.Period
		switch {
		case a == nil && b == nil:
			x = sctime.AllTime()
		case a == nil:
			x = sctime.PeriodBefore(b)
		case b == nil:
			x = sctime.PeriodOnOrAfter(a)
		default:
			x = sctime.PeriodBetween(a, b)
		}
		pp, keep = append(pp, x), append(keep, proto.Clone(x).(*timepb.Period))
	}
	s.Add(M{"e": "table", "ts": tl, "ps": pl})
	changed := func() A {
		r := A{}
		for i := range pp {
			if !proto.Equal(pp[i], keep[i]) {
				r = append(r, i+1)
			}
		}
		return r
	}
	for i := range pp {
		var in, rin, co, rco A
		p := vlib.Catch(func() {
			for j := range pp {
				in = append(in, bit(sctime.PeriodsIntersect(pp[i], pp[j])))
				rin = append(rin, bit(sctime.PeriodsIntersect(pp[j], pp[i])))
				co = append(co, bit(sctime.PeriodsConnected(pp[i], pp[j])))
				rco = append(rco, bit(sctime.PeriodsConnected(pp[j], pp[i])))
			}
		})
		if p != "" {
			s.Add(M{"e": "panic", "in": "row", "msg": p})
			break
		}
		s.Add(M{"e": "row", "i": i + 1, "int": in, "rint": rin, "con": co, "rcon": rco, "changed": changed()})
	}
	for i := range ts {
		var c A
		for j := range ts {
			v := sctime.CompareAscending(ts[i], ts[j])
			if v > 2 {
				v = 2
			} else if v < -2 {
				v = -2
			}
			c = append(c, v)
		}
		s.Add(M{"e": "order", "i": i + 1, "cmp": c, "changed": changed()})
	}
	out.Write(s)
}

func allPeriods(out *vlib.Out, w, of int) {
	var ts []*timestamppb.Timestamp
	for sec := 0; sec <= 5; sec++ {
		for _, n := range []int32{0, 1, 999999999} {
			ts = append(ts, &timestamppb.Timestamp{Seconds: int64(sec), Nanos: n})
		}
	}
	var ps [][2]int
	for a := 0; a <= len(ts); a++ {
		for b := 0; b <= len(ts); b++ {
			ps = append(ps, [2]int{a, b})
		}
	}
	// (every pair is in some session: the periods of one part with those of another)
	parts := make([][][2]int, 8)
	for i, p := range ps {
		parts[i%8] = append(parts[i%8], p)
	}
	n := 0
	for a := range parts {
		for b := a; b < len(parts); b++ {
			n++
			if n%of != w {
				continue
			}
			l := parts[a]
			if b != a {
				l = append(append([][2]int{}, l...), parts[b]...)
			}
			periods(out, fmt.Sprintf("periods-all-%d-%d", a, b), ts, l)
		}
	}
}

func randomPeriods(out *vlib.Out, id string, r *rand.Rand) {
	var ts []*timestamppb.Timestamp
	sec := func() int64 {
		switch r.Intn(7) {
		case 0:
			return int64(r.Uint64())
		case 1:
			return math.MaxInt64 - int64(r.Intn(3))
		case 2:
			return math.MinInt64 + int64(r.Intn(3))
		case 3:
			return int64(r.Uint64() >> 31) // around what fits 32 bits
		case 4:
			return -int64(r.Uint64() >> 31)
		case 5:
			return int64(1)<<uint(r.Intn(63)) - int64(r.Intn(3))
		default:
			return int64(r.Intn(5) - 2)
		}
	}
	for len(ts) < 9 {
		t := &timestamppb.Timestamp{Seconds: sec(), Nanos: []int32{0, 1, 999999999, int32(r.Intn(1e9))}[r.Intn(4)]}
		if len(ts) > 0 && r.Intn(3) == 0 {
			o := ts[r.Intn(len(ts))]
			if r.Intn(2) == 0 {
				t.Seconds = o.Seconds
			} else {
				t.Nanos = o.Nanos
			}
		}
		ts = append(ts, t)
	}
	var ps [][2]int
	for len(ps) < 24 {
		ps = append(ps, [2]int{r.Intn(len(ts) + 1), r.Intn(len(ts) + 1)})
	}
	periods(out, id, ts, ps)
}

// ---- segments and modes

type lines struct {
	*vlib.Session
	r      *rand.Rand
	unit   time.Duration
	base   time.Time
	lists  [][]*traits.ElectricMode_Segment
	listsK [][]*traits.ElectricMode_Segment
	modes  []*traits.ElectricMode
	modesK []*traits.ElectricMode
	total  []int // how far the finite part of a list reaches
	mtotal []int
	bad    bool
}

func cloneSegs(l []*traits.ElectricMode_Segment) (out []*traits.ElectricMode_Segment) {
	for _, g := range l {
		out = append(out, proto.Clone(g).(*traits.ElectricMode_Segment))
	}
	return
}

// fail notes what has no place in the specification's terms.
func (s *lines) fail(f string, a ...any) {
	s.Add(M{"e": "odd", "msg": fmt.Sprintf(f, a...)})
	s.bad = true
}

func (s *lines) n(d time.Duration) int {
	if d%s.unit != 0 || d/s.unit > 1<<28 || d/s.unit < -(1<<28) {
		s.fail("a length of %v, in units of %v", d, s.unit)
		return 0
	}
	return int(d / s.unit)
}

func (s *lines) mag(f float32) int {
	if f != float32(int(f)) || f > 1<<23 || f < -(1<<23) {
		s.fail("a magnitude of %v", f)
		return 0
	}
	return int(f)
}

func (s *lines) seg(g *traits.ElectricMode_Segment) A {
	l, sh := -1, -1
	if g.GetLength() != nil {
		l = s.n(g.Length.AsDuration())
		if l < 0 {
			s.fail("a negative length")
			l = 0
		}
	}
	if f, ok := g.GetShape().(*traits.ElectricMode_Segment_Fixed); ok {
		sh = s.mag(f.Fixed)
	}
	return A{s.mag(g.GetMagnitude()), l, sh}
}

func (s *lines) segs(l []*traits.ElectricMode_Segment) A {
	out := A{}
	for i, g := range l {
		if g == nil {
			s.fail("a nil segment")
			return out
		}
		if g.Length == nil && i < len(l)-1 {
			s.fail("segments after one that never ends")
		}
		out = append(out, s.seg(g))
	}
	return out
}

func (s *lines) reg(l []*traits.ElectricMode_Segment) int {
	s.lists, s.listsK = append(s.lists, l), append(s.listsK, cloneSegs(l))
	t, _ := segTotal(l, s.unit)
	s.total = append(s.total, t)
	return len(s.lists)
}

func segTotal(l []*traits.ElectricMode_Segment, u time.Duration) (int, bool) {
	var d time.Duration
	for _, g := range l {
		if g.Length == nil {
			return int(d / u), true
		}
		d += g.Length.AsDuration()
	}
	return int(d / u), false
}

func (s *lines) genSegs(max int) []*traits.ElectricMode_Segment {
	var l []*traits.ElectricMode_Segment
	n := s.r.Intn(max + 1)
	mags := []int{0, 0, 1, 2, 3, 5, 7, -1, -4, 100, 5, 2}
	for i := 0; i < n; i++ {
		g := &traits.ElectricMode_Segment{Magnitude: float32(mags[s.r.Intn(len(mags))])}
		if i < n-1 || s.r.Intn(3) > 0 {
			g.Length = durationpb.New(time.Duration([]int{0, 0, 1, 1, 2, 3, 4, 7}[s.r.Intn(8)]) * s.unit)
		}
		if s.r.Intn(4) == 0 {
			g.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: float32(s.r.Intn(4))}
		}
		l = append(l, g)
	}
	return l
}

func (s *lines) d(i int) time.Duration { return time.Duration(i) * s.unit }
func (s *lines) at(i int) time.Time    { return s.base.Add(s.d(i)) }

// do runs f, which calls the library, and adds the event it returns.
func (s *lines) do(what string, f func() M) bool {
	var e M
	if p := vlib.Catch(func() { e = f() }); p != "" {
		s.Add(M{"e": "panic", "in": what, "msg": p})
		s.bad = true
	}
	if s.bad {
		return false
	}
	e["e"] = what
	s.Add(e)
	return true
}

// read everything there is to read of list r (1-based).
func (s *lines) read(r int) {
	l := s.lists[r-1]
	to := s.total[r-1] + 3
	_ = s.do("active", func() M {
		var el, ix A
		for d := -3; d <= to; d++ {
			e, i := segmentpb.ActiveAt(s.d(d), l...)
			el, ix = append(el, s.n(e)), append(ix, i)
		}
		return M{"r": r, "from": -3, "el": el, "ix": ix}
	}) && s.do("mag", func() M {
		var lv, ok A
		for d := -3; d <= to; d++ {
			v, o := segmentpb.MagnitudeAt(s.d(d), l...)
			lv, ok = append(lv, s.mag(v)), append(ok, bit(o))
		}
		return M{"r": r, "from": -3, "lv": lv, "ok": ok}
	}) && s.do("dur", func() M {
		t, inf := segmentpb.Duration(l...)
		return M{"r": r, "total": s.n(t), "inf": bit(inf)}
	}) && s.do("max", func() M {
		return M{"r": r, "ix": segmentpb.Max(l...), "lv": s.mag(segmentpb.MaxMagnitude(l...))}
	}) && s.do("maxafter", func() M {
		var ix A
		for d := -3; d <= to; d++ {
			ix = append(ix, segmentpb.MaxAfter(s.d(d), l...))
		}
		return M{"r": r, "from": -3, "ix": ix}
	})
}

func (s *lines) maybe(g *traits.ElectricMode_Segment) A {
	if g == nil {
		return A{}
	}
	return A{s.seg(g)}
}

func (s *lines) cuts(r int) {
	for k, g := range s.lists[r-1] {
		g := g
		to := 6
		if g.Length != nil {
			to = s.n(g.Length.AsDuration()) + 2
		}
		for d := -2; d <= to; d++ {
			if !s.do("cut", func() M {
				b, a, o := segmentpb.Cut(s.d(d), g)
				return M{"r": r, "k": k + 1, "d": d, "before": s.maybe(b), "after": s.maybe(a), "outside": bit(o)}
			}) {
				return
			}
		}
	}
}

// shift list r; what comes of it is a list too.
func (s *lines) shift(r, d int) int {
	var o []*traits.ElectricMode_Segment
	if !s.do("shift", func() M {
		o = segmentpb.Shift(s.d(d), s.lists[r-1]...)
		return M{"r": r, "d": d, "out": s.segs(o)}
	}) {
		return 0
	}
	return s.reg(o)
}

func (s *lines) sum(rs []int) int {
	var o []*traits.ElectricMode_Segment
	if !s.do("sum", func() M {
		var a [][]*traits.ElectricMode_Segment
		for _, r := range rs {
			a = append(a, s.lists[r-1])
		}
		o = segmentpb.Sum(a...)
		return M{"rs": ints(rs), "out": s.segs(o)}
	}) {
		return 0
	}
	return s.reg(o)
}

func ints(l []int) A {
	out := A{}
	for _, i := range l {
		out = append(out, i)
	}
	return out
}

func (s *lines) left() {
	c := A{}
	same := func(a, b []*traits.ElectricMode_Segment) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !proto.Equal(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	for i := range s.lists {
		if !same(s.lists[i], s.listsK[i]) {
			c = append(c, i+1)
		}
	}
	for i := range s.modes {
		if !proto.Equal(s.modes[i], s.modesK[i]) {
			c = append(c, 1000+i)
		}
	}
	s.Add(M{"e": "left", "changed": c})
	if len(c) > 0 {
		s.bad = true
	}
}

func (s *lines) pick() int { return s.r.Intn(len(s.lists)) + 1 }

func (s *lines) segments() {
	for i := 0; i < 2+s.r.Intn(3); i++ {
		l := s.genSegs(6)
		e := s.segs(l)
		s.Add(M{"e": "new", "segs": e})
		s.reg(l)
	}
	for r := range s.lists {
		s.read(r + 1)
		s.cuts(r + 1)
	}
	first := len(s.lists)
	for r := 1; r <= first && !s.bad; r++ {
		for d := -s.total[r-1] - 2; d <= 3 && !s.bad; d++ {
			o := s.shift(r, d)
			if o > 0 && s.r.Intn(6) == 0 {
				s.read(o)
				s.shift(o, -d)
			}
		}
	}
	s.left()
	for i := 0; i < 6 && !s.bad; i++ {
		var rs []int
		for j := 1 + s.r.Intn(4); j > 0; j-- {
			rs = append(rs, s.pick())
		}
		if i == 5 {
			rs = nil
		}
		if o := s.sum(rs); o > 0 && !s.bad && s.total[o-1] < 80 {
			s.read(o)
			s.cuts(o)
		}
		if s.r.Intn(2) == 0 && !s.bad {
			s.shift(s.pick(), s.r.Intn(20)-10)
		}
		s.left()
	}
}

func (s *lines) t(t *timestamppb.Timestamp) A {
	if t == nil {
		return A{}
	}
	return A{s.n(t.AsTime().Sub(s.base))}
}

func (s *lines) mode(m *traits.ElectricMode) M {
	return M{"st": s.t(m.StartTime), "segs": s.segs(m.Segments)}
}

func (s *lines) mreg(m *traits.ElectricMode) int {
	s.modes, s.modesK = append(s.modes, m), append(s.modesK, proto.Clone(m).(*traits.ElectricMode))
	t, _ := segTotal(m.Segments, s.unit)
	s.mtotal = append(s.mtotal, t)
	return len(s.modes)
}

func (s *lines) genMode() {
	m := &traits.ElectricMode{Segments: s.genSegs(5)}
	if s.r.Intn(3) > 0 {
		m.StartTime = timestamppb.New(s.at(s.r.Intn(12)))
	}
	if s.r.Intn(2) == 0 {
		m.Id, m.Title, m.Description, m.Voltage, m.Normal = "id", "t", "d", 240, true
	}
	e := s.mode(m)
	e["e"] = "mnew"
	s.Add(e)
	s.mreg(m)
}

// when is where things happen to a mode: its start (0 without one) and how far it reaches.
func (s *lines) when(r int) (from, to int) {
	m := s.modes[r-1]
	if m.StartTime != nil {
		from = s.n(m.StartTime.AsTime().Sub(s.base))
	}
	return from, from + s.mtotal[r-1]
}

func (s *lines) mread(r int) {
	from, to := s.when(r)
	from, to = from-3, to+3
	m := s.modes[r-1]
	_ = s.do("mactive", func() M {
		var el, ix A
		for t := from; t <= to; t++ {
			e, i := modepb.ActiveAt(s.at(t), m)
			el, ix = append(el, s.n(e)), append(ix, i)
		}
		return M{"r": r, "from": from, "el": el, "ix": ix}
	}) && s.do("mmag", func() M {
		var lv, ok A
		for t := from; t <= to; t++ {
			v, o := modepb.MagnitudeAt(s.at(t), m)
			lv, ok = append(lv, s.mag(v)), append(ok, bit(o))
		}
		return M{"r": r, "from": from, "lv": lv, "ok": ok}
	}) && s.do("mmax", func() M {
		var ix A
		for t := from; t <= to; t++ {
			ix = append(ix, modepb.MaxSegmentAfter(s.at(t), m))
		}
		return M{"r": r, "from": from, "ix": ix}
	})
}

func (s *lines) mcut(r, t int) {
	var b, a *traits.ElectricMode
	one := func(m *traits.ElectricMode) A {
		if m == nil {
			return A{}
		}
		return A{s.mode(m)}
	}
	if s.do("mcut", func() M {
		var o bool
		b, a, o = modepb.Cut(s.at(t), s.modes[r-1])
		return M{"r": r, "t": t, "before": one(b), "after": one(a), "outside": bit(o)}
	}) {
		if b != nil {
			s.mreg(b)
		}
		if a != nil {
			s.mreg(a)
		}
	}
}

func (s *lines) modeOps() {
	for i := 0; i < 2+s.r.Intn(3); i++ {
		s.genMode()
	}
	first := len(s.modes)
	for r := 1; r <= first && !s.bad; r++ {
		s.mread(r)
		from, to := s.when(r)
		for t := from - 2; t <= to+2 && !s.bad; t++ {
			k := len(s.modes)
			s.mcut(r, t)
			if len(s.modes) > k && s.r.Intn(5) == 0 {
				s.mread(len(s.modes))
			}
		}
		s.left()
	}
	pick := func() int { return s.r.Intn(len(s.modes)) + 1 }
	shift := func(r, d int) {
		var o *traits.ElectricMode
		if s.do("mshift", func() M {
			o = modepb.Shift(s.d(d), s.modes[r-1])
			return M{"r": r, "d": d, "out": s.mode(o)}
		}) {
			s.mreg(o)
		}
	}
	for r := 1; r <= first && !s.bad; r++ {
		for _, d := range []int{0, s.r.Intn(6) + 1, -s.r.Intn(6) - 1, -s.mtotal[r-1]} {
			if from, _ := s.when(r); from+d >= 0 {
				shift(r, d)
			}
		}
	}
	s.left()
	for i := 0; i < 10 && !s.bad; i++ {
		var rs []int
		for j := s.r.Intn(5); j > 0; j-- {
			rs = append(rs, pick())
		}
		if i == 0 {
			rs = nil
			for r := 1; r <= first; r++ {
				rs = append(rs, r)
			}
		}
		var o *traits.ElectricMode
		if s.do("msum", func() M {
			var l []*traits.ElectricMode
			for _, r := range rs {
				l = append(l, s.modes[r-1])
			}
			o = modepb.Sum(l...)
			e := M{"rs": ints(rs), "out": A{}}
			if o != nil {
				e["out"] = A{s.mode(o)}
			}
			return e
		}) && o != nil {
			s.mread(s.mreg(o))
		}
		t := s.r.Intn(25)
		if s.bad {
			break
		}
		_ = s.do("mmin", func() M {
			in := map[string]*traits.ElectricMode{}
			for _, r := range rs {
				in[fmt.Sprint(r)] = s.modes[r-1]
			}
			m, v := modepb.MinAt(s.at(t), in)
			got := 0
			for _, r := range rs {
				if s.modes[r-1] == m {
					got = r
				}
			}
			return M{"rs": ints(rs), "t": t, "got": got, "lv": s.mag(v)}
		})
		s.left()
	}
}

func main() {
	out := vlib.NewOut()
	defer out.Close()
	var w, of int
	fmt.Sscanf(os.Args[1], "%d/%d", &w, &of)
	r := rand.New(rand.NewSource(vlib.Seed()*1000 + int64(w)))
	allPeriods(out, w, of)
	for i := 0; i < vlib.N(25, 200); i++ {
		randomPeriods(out, fmt.Sprintf("periods-random-%d-%d", w, i), r)
	}
	units := []time.Duration{1, time.Second, time.Hour, 1500 * time.Millisecond, 7}
	bases := []time.Time{{}, time.Unix(1600000000, 123456789), time.Unix(-1, 999999999), time.Unix(0, 0)}
	for i := 0; i < vlib.N(60, 500); i++ {
		s := &lines{Session: &vlib.Session{ID: fmt.Sprintf("segments-%d-%d", w, i)}, r: r, unit: units[r.Intn(len(units))]}
		s.segments()
		out.Write(s.Session)
		s = &lines{Session: &vlib.Session{ID: fmt.Sprintf("modes-%d-%d", w, i)}, r: r, unit: units[r.Intn(len(units))], base: bases[r.Intn(len(bases))]}
		s.modeOps()
		out.Write(s.Session)
	}
}
