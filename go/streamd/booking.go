package main

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	timepb "github.com/smart-core-os/sc-api/go/types/time"
	"github.com/smart-core-os/sc-golang/internal/verif/ops"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// per: nil, or [lo, hi) with -1 for open ends
type per struct {
	Nil    bool  `json:"nil"`
	Lo, Hi int64 `json:"-"`
}

func (p per) m() M {
	opt := func(x int64) []int64 {
		if x < 0 {
			return []int64{}
		}
		return []int64{x}
	}
	return M{"nil": p.Nil, "lo": opt(p.Lo), "hi": opt(p.Hi)}
}
func (p per) pb() *timepb.Period {
	if p.Nil {
		return nil
	}
	o := &timepb.Period{}
	if p.Lo >= 0 {
		o.StartTime = &timestamppb.Timestamp{Seconds: p.Lo}
	}
	if p.Hi >= 0 {
		o.EndTime = &timestamppb.Timestamp{Seconds: p.Hi}
	}
	return o
}

var periods = []per{{Nil: true}, {Lo: 1, Hi: 3}, {Lo: 3, Hi: 5}, {Lo: 2, Hi: 4}, {Lo: -1, Hi: 2}, {Lo: 4, Hi: -1}, {Lo: -1, Hi: -1}}

func toB(id string, p ops.Pair) *traits.Booking {
	b := &traits.Booking{Id: id, Booked: periods[p[0]].pb()}
	if p[1] > 0 {
		b.Title = fmt.Sprint("t", p[1])
	}
	return b
}
func fromB(b *traits.Booking) ops.Pair {
	var p ops.Pair
	if b.Booked != nil {
		p[0] = -1
		for i, x := range periods {
			if !x.Nil && vlib.Canon(x.pb()) == vlib.Canon(b.Booked) {
				p[0] = int32(i)
			}
		}
	}
	fmt.Sscanf(b.Title, "t%d", &p[1])
	return p
}

type bstream struct {
	grpc.ServerStream
	ctx  context.Context
	mu   sync.Mutex
	evs  []M
	seen bool
	fin  chan struct{}
	once sync.Once
	pace func()
}

func (b *bstream) Context() context.Context { return b.ctx }
func (b *bstream) Send(r *traits.PullBookingsResponse) error {
	b.pace()
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, c := range r.Changes {
		e := M{"id": "", "kind": c.Type.String(), "old": []ops.Pair{}, "new": []ops.Pair{}}
		if c.OldValue != nil {
			e["id"], e["old"] = c.OldValue.Id, []ops.Pair{fromB(c.OldValue)}
		}
		if c.NewValue != nil {
			e["id"], e["new"] = c.NewValue.Id, []ops.Pair{fromB(c.NewValue)}
			if c.Type == types.ChangeType_REMOVE {
				e["id"] = "removed with a value"
			}
		}
		if e["id"] == "~" {
			b.seen = true
			b.once.Do(func() { close(b.fin) })
		}
		if !b.seen {
			b.evs = append(b.evs, e)
		}
	}
	return nil
}

func bmask(m string) *fieldmaskpb.FieldMask {
	switch m {
	case "a":
		return &fieldmaskpb.FieldMask{Paths: []string{"id", "booked"}}
	case "b":
		return &fieldmaskpb.FieldMask{Paths: []string{"id", "title"}}
	}
	return nil
}

func bookings(out *vlib.Out, seed int64, n int) {
	ctx := context.Background()
	for i := 0; i < n && failed < 8; i++ {
		r := rand.New(rand.NewSource(seed*32452843 + int64(i)))
		srv := bookingpb.NewModelServer(bookingpb.NewModel())
		s := &vlib.Session{ID: fmt.Sprintf("booking-%d", i)}
		var ps []M
		for _, p := range periods {
			ps = append(ps, p.m())
		}
		cfg := M{"init": M{}, "kind": "coll", "eq": "none", "t0lo": 0, "t0hi": 0, "tick": false, "periods": ps}
		s.Cfg = cfg
		ids := map[string]bool{}
		query := func() per { // nil: no predicate
			return periods[r.Intn(len(periods))]
		}
		type bsub struct {
			*bstream
			q      per
			mask   string
			k      string
			cancel func()
		}
		var subs []*bsub
		incOf := func(q per) M { return M{"all": q.Nil, "acc": []any{}, "q": q.m()} }
		total := 3 + r.Intn(10)
		p := vlib.CatchTimeout(20*time.Second, func() {
			for j := 0; j <= total; j++ {
				if j == 0 || r.Intn(5) == 0 {
					x := &bsub{q: query(), mask: []string{"", "", "a", "b"}[r.Intn(4)], k: fmt.Sprint(j)}
					c, cancel := context.WithCancel(ctx)
					slow := time.Duration(r.Intn(3)) * 30 * time.Microsecond
					x.bstream, x.cancel = &bstream{ctx: c, fin: make(chan struct{}), pace: func() {
						if slow > 0 {
							time.Sleep(slow)
						}
					}}, cancel
					subs = append(subs, x)
					go srv.PullBookings(&traits.ListBookingsRequest{BookingIntersects: x.q.pb(), ReadMask: bmask(x.mask)}, x)
					s.Add(M{"e": "sub", "k": x.k})
					if r.Intn(2) == 0 {
						time.Sleep(20 * time.Microsecond)
					}
				}
				if j == total {
					break
				}
				id := []string{"x", "y", "z"}[r.Intn(3)]
				v := ops.Pair{int32(r.Intn(len(periods))), int32(r.Intn(3))}
				op := ops.Op{Op: "write", ID: id, Mode: "put", V: v, Exp: []ops.Pair{}, Chk: []int32{}}
				var err error
				ret := []any{}
				switch r.Intn(6) {
				case 0, 1:
					op.Absent, op.Create = true, true
					if r.Intn(4) == 0 {
						id = ""
					}
					var res *traits.CreateBookingResponse
					res, err = srv.CreateBooking(ctx, &traits.CreateBookingRequest{Booking: toB(id, v)})
					if err == nil {
						op.ID = res.BookingId
						ret = []any{v[0], v[1]} // checked by the lists below
					}
				case 5: // touches neither field
					op.V, op.Mode = ops.Pair{0, 0}, "aft0"
					_, err = srv.CheckInBooking(ctx, &traits.CheckInBookingRequest{BookingId: id})
				default:
					op.Mode = []string{"put", "puta", "putb"}[r.Intn(3)]
					var m *fieldmaskpb.FieldMask
					switch op.Mode {
					case "puta":
						// a period written whole, whatever is there now
						m = &fieldmaskpb.FieldMask{Paths: []string{"booked.start_time", "booked.end_time"}}
						v[0] = 1 + v[0]%5
						op.V = v
					case "putb":
						m = &fieldmaskpb.FieldMask{Paths: []string{"title"}}
					}
					var res *traits.UpdateBookingResponse
					res, err = srv.UpdateBooking(ctx, &traits.UpdateBookingRequest{Booking: toB(id, v), UpdateMask: m})
					if err == nil {
						b := fromB(res.Booking)
						ret = []any{b[0], b[1]}
					}
				}
				code := vlib.Code(err)
				if op.Mode == "aft0" {
					if code != "OK" && code != "NotFound" {
						s.Add(M{"e": "check in " + code})
					}
				} else {
					s.Add(M{"e": "write", "op": op, "code": code, "ret": ret, "wt": -1, "lo": 0, "hi": 0})
				}
				if err == nil {
					ids[op.ID] = true
				}
				q, mask := query(), []string{"", "a", "b"}[r.Intn(3)]
				l, err := srv.ListBookings(ctx, &traits.ListBookingsRequest{BookingIntersects: q.pb(), ReadMask: bmask(mask)})
				if err != nil {
					s.Add(M{"e": "list " + vlib.Code(err)})
					continue
				}
				res := []ops.Pair{}
				for _, b := range l.Bookings {
					res = append(res, fromB(b))
				}
				s.Add(M{"e": "list", "inc": incOf(q), "mask": mask, "r": res})
			}
			srv.CreateBooking(ctx, &traits.CreateBookingRequest{Booking: &traits.Booking{Id: "~", Booked: &timepb.Period{}}})
		})
		if p != "" {
			s.Add(M{"e": p})
		}
		order := []string{}
		for id := range ids {
			order = append(order, id)
		}
		sort.Strings(order)
		cfg["ids"] = order
		for _, x := range subs {
			done := true
			select {
			case <-x.fin:
			case <-time.After(5 * time.Second):
				done = false
				failed++
			}
			x.cancel()
			x.mu.Lock()
			s.Add(M{"e": "stream", "k": x.k, "pid": "", "mask": x.mask, "only": false, "bp": false, "inc": incOf(x.q),
				"events": append([]M{}, x.evs...), "closed": false, "done": done})
			x.mu.Unlock()
		}
		out.Write(s)
	}
}
