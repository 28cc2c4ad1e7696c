package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type val = []int64 // n in 64ths, o; nil: absent

func msg(v val) proto.Message {
	return &testproto.TestAllTypes{DefaultDouble: float64(v[0]) / 64, DefaultInt32: int32(v[1])}
}
func unmsg(m proto.Message) val {
	t, _ := m.(*testproto.TestAllTypes)
	if t == nil {
		return val{}
	}
	return val{int64(t.DefaultDouble * 64), int64(t.DefaultInt32)}
}

type step struct {
	id string
	v  val // absent: delete
}

func streams(out *vlib.Out, seed int64, n int) {
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(seed*104395303 + int64(i)))
		kind := []string{"coll", "value", "id"}[i%3]
		m := []int64{0, 0, 2, 16, 100}[r.Intn(5)]
		eq := resource.WithNoDuplicates()
		if m > 0 {
			eq = resource.WithMessageEquivalence(cmp.Equal(cmp.FloatValueApprox(0, float64(m)/64)))
		}
		mask := []string{"all", "all", "n", "o"}[r.Intn(4)]
		only, bp := r.Intn(3) == 0, r.Intn(3) > 0
		ids := []string{"a", "b"}
		if kind != "coll" {
			ids = []string{"a"}
		}
		near := func(v val) val {
			if len(v) == 0 || r.Intn(5) == 0 {
				return val{int64(r.Intn(200)), int64(r.Intn(2))}
			}
			w := val{v[0], v[1]}
			switch r.Intn(6) {
			case 0:
				w[1] = 1 - w[1]
			case 1:
			default:
				w[0] += []int64{1, m, m + 1, m/2 + 1, -1, -m, -m - 1}[r.Intn(7)]
			}
			if w[0] < 0 {
				w[0] = 0
			}
			return w
		}
		ws := map[string][]val{}
		cur := map[string]val{}
		opts := []resource.Option{eq}
		for _, id := range ids {
			cur[id] = val{}
			if kind != "coll" || r.Intn(2) == 0 {
				cur[id] = near(nil)
				if kind == "value" {
					opts = append(opts, resource.WithInitialValue(msg(cur[id])))
				} else {
					opts = append(opts, resource.WithInitialRecord(id, msg(cur[id])))
				}
			}
			ws[id] = append(ws[id], cur[id])
		}
		var steps []step
		for k := 2 + r.Intn(14); k > 0; k-- {
			id := ids[r.Intn(len(ids))]
			v := near(cur[id])
			if kind == "coll" && len(cur[id]) > 0 && r.Intn(6) == 0 {
				v = val{}
			}
			steps = append(steps, step{id, v})
			ws[id] = append(ws[id], v)
			cur[id] = v
		}
		final := val{640000, 99}
		for _, id := range ids {
			steps = append(steps, step{id, final})
			ws[id] = append(ws[id], final)
		}

		s := vlib.Session{ID: fmt.Sprintf("stream-%s-%d", kind, i), Cfg: M{"m": m, "mask": mask, "only": only, "bp": bp, "ws": ws}}
		ctx, cancel := context.WithCancel(context.Background())
		ro := []resource.ReadOption{resource.WithUpdatesOnly(only), resource.WithBackpressure(bp)}
		if mask != "all" {
			f := map[string]string{"n": "default_double", "o": "default_int32"}[mask]
			ro = append(ro, resource.WithReadMask(&fieldmaskpb.FieldMask{Paths: []string{f}}))
		}
		var write func(step)
		var next func() (string, val, bool, bool)
		if kind == "value" {
			v := resource.NewValue(opts...)
			ch := v.Pull(ctx, ro...)
			next = func() (string, val, bool, bool) {
				c, ok := <-ch
				if !ok {
					return "", nil, false, false
				}
				return "a", unmsg(c.Value), c.SeedValue, true
			}
			write = func(st step) { _, _ = v.Set(msg(st.v)) }
		} else {
			c := resource.NewCollection(opts...)
			write = func(st step) {
				if len(st.v) == 0 {
					_, _ = c.Delete(st.id)
					return
				}
				_, _ = c.Update(st.id, msg(st.v), resource.WithCreateIfAbsent(), resource.WithUpdatePaths("default_double", "default_int32"))
			}
			if kind == "id" {
				ch := c.PullID(ctx, "a", ro...)
				next = func() (string, val, bool, bool) {
					c, ok := <-ch
					if !ok {
						return "", nil, false, false
					}
					return "a", unmsg(c.Value), c.SeedValue, true
				}
			} else {
				ch := c.Pull(ctx, ro...)
				next = func() (string, val, bool, bool) {
					c, ok := <-ch
					if !ok {
						return "", nil, false, false
					}
					return c.Id, unmsg(c.NewValue), c.SeedValue, true
				}
			}
		}
		want := map[string]string{"all": "[640000 99]", "n": "[640000 0]", "o": "[0 99]"}[mask]
		var mu sync.Mutex
		done := make(chan struct{})
		pace := r.Intn(2) == 0
		go func() {
			seen := map[string]bool{}
			over := false
			for {
				if !bp && pace {
					time.Sleep(30 * time.Microsecond)
				}
				id, v, sd, ok := next()
				if !ok {
					break
				}
				mu.Lock()
				s.Add(M{"e": "got", "id": id, "v": v, "seed": sd})
				mu.Unlock()
				if fmt.Sprint(v) == want {
					seen[id] = true
				}
				if len(seen) == len(ids) && !over {
					over = true
					close(done)
				}
			}
			if !over {
				close(done)
			}
		}()
		go func() {
			for _, st := range steps {
				write(st)
				if !bp && !pace && r.Intn(3) == 0 {
					time.Sleep(20 * time.Microsecond)
				}
			}
		}()
		end := "end"
		select {
		case <-done:
		case <-time.After(8 * time.Second):
			end = "the last write has not arrived"
			bad++
		}
		cancel()
		mu.Lock()
		s.Add(M{"e": end})
		cp := s
		cp.Ev = append([]M{}, s.Ev...)
		mu.Unlock()
		out.Write(&cp)
		if bad > 3 {
			return
		}
	}
}

var bad int
