// Package ops runs StoreConc operations on real resources and records them as histories.
package ops

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

type M = vlib.M
type T = testproto.TestAllTypes

type Pair [2]int32

// op mirrors StoreConc.tla
type Op struct {
	Op           string  `json:"op"`
	ID           string  `json:"id"`
	Absent       bool    `json:"absent"`
	Create       bool    `json:"create"`
	AllowMissing bool    `json:"allowMissing"`
	Exp          []Pair  `json:"exp"`
	Chk          []int32 `json:"chk"`
	Mode         string  `json:"mode"`
	V            Pair    `json:"v"`
	Gen          bool    `json:"-"`
	AddCall      bool    `json:"-"`
}

func ToT(p Pair) *T { return &T{DefaultInt32: p[0], DefaultInt64: int64(p[1])} }
func ToP(m *T) Pair { return Pair{m.DefaultInt32, int32(m.DefaultInt64)} }
func IsT(m proto.Message) (*T, bool) {
	t, ok := m.(*T)
	return t, ok && t != nil
}

type Store struct {
	Val  *resource.Value
	Coll *resource.Collection
	// Extra options for every write
	Extra []resource.WriteOption
	// RawID, if set, is how ids are given to the collection
	RawID func(string) string
}

func NewStore(kind string, init map[string]Pair, rng *BadRng, more ...resource.Option) *Store {
	st := &Store{}
	o := append([]resource.Option{}, more...)
	if kind == "value" {
		if p, ok := init["v"]; ok {
			o = append(o, resource.WithInitialValue(ToT(p)))
		}
		st.Val = resource.NewValue(o...)
		return st
	}
	for id, p := range init {
		o = append(o, resource.WithInitialRecord(id, ToT(p)))
	}
	if rng != nil {
		o = append(o, resource.WithRNG(rng))
	}
	st.Coll = resource.NewCollection(o...)
	return st
}

// badRng makes colliding id candidates
type BadRng struct {
	mu sync.Mutex
	R  *rand.Rand
}

func (b *BadRng) Read(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for i := range p {
		p[i] = 0
	}
	if len(p) > 0 {
		p[0] = byte(b.R.Intn(2))
	}
	return len(p), nil
}

// exec runs o, calling at("check"|"before"|"after") from inside callbacks
func (st *Store) Exec(o Op, at func(string)) (code string, ret []Pair, lst []Pair, id string) {
	id = o.ID
	opts := append([]resource.WriteOption{}, st.Extra...)
	raw := o.ID
	if st.RawID != nil {
		raw = st.RawID(o.ID)
	}
	if len(o.Exp) > 0 {
		opts = append(opts, resource.WithExpectedValue(ToT(o.Exp[0])))
	}
	if len(o.Chk) > 0 {
		min := o.Chk[0]
		opts = append(opts, resource.WithExpectedCheck(func(m proto.Message) error {
			var a int32
			if t, ok := IsT(m); ok {
				a = t.DefaultInt32
			}
			at("check")
			if a < min {
				return status.Error(codes.FailedPrecondition, "too small")
			}
			return nil
		}))
	}
	var res proto.Message
	var err error
	missing := false
	p := vlib.Catch(func() {
		switch o.Op {
		case "get":
			if st.Val != nil {
				res = st.Val.Get()
				missing = res == nil
				return
			}
			var ok bool
			res, ok = st.Coll.Get(raw)
			missing = !ok
		case "list":
			lst = []Pair{}
			for _, m := range st.Coll.List() {
				t, _ := IsT(m)
				lst = append(lst, ToP(t))
			}
		case "delete":
			if o.AllowMissing {
				opts = append(opts, resource.WithAllowMissing(true))
			}
			res, err = st.Coll.Delete(raw, opts...)
		case "write":
			switch o.Mode {
			case "puta":
				opts = append(opts, resource.WithUpdatePaths("default_int32"))
			case "putb":
				opts = append(opts, resource.WithUpdatePaths("default_int64"))
			case "inc", "incf":
				if o.Mode == "inc" {
					opts = append(opts, resource.WithUpdatePaths("default_int32"))
				}
				opts = append(opts, resource.InterceptBefore(func(old, change proto.Message) {
					var a int32
					if t, ok := IsT(old); ok {
						a = t.DefaultInt32
					}
					at("before")
					change.(*T).DefaultInt32 += a
				}))
			case "aft":
				opts = append(opts, resource.InterceptAfter(func(old, dst proto.Message) {
					var b int64
					if t, ok := IsT(old); ok {
						b = t.DefaultInt64
					}
					at("after")
					dst.(*T).DefaultInt64 += b
				}))
			}
			if st.Val != nil {
				res, err = st.Val.Set(ToT(o.V), opts...)
				return
			}
			if o.Gen {
				opts = append(opts, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(i string) { id = i }))
			}
			if o.AddCall {
				res, err = st.Coll.Add(raw, ToT(o.V), opts...)
				return
			}
			if o.Absent {
				opts = append(opts, resource.WithExpectAbsent())
			}
			if o.Create {
				opts = append(opts, resource.WithCreateIfAbsent())
			}
			res, err = st.Coll.Update(raw, ToT(o.V), opts...)
		}
	})
	code = vlib.Code(err)
	if p != "" {
		return p, nil, nil, id
	}
	if missing {
		code = "Missing"
	}
	if t, ok := IsT(res); ok && err == nil {
		ret = []Pair{ToP(t)}
	}
	return
}

// history records overlapping calls
type History struct {
	S  *vlib.Session
	Mu sync.Mutex
	St *Store
	n  int
}

func NewHistory(id, kind string, init map[string]Pair, rng *BadRng) *History {
	return &History{S: &vlib.Session{ID: id, Cfg: M{"init": init, "kind": kind}}, St: NewStore(kind, init, rng)}
}

func (h *History) Do(p string, o Op, at func(string)) {
	if o.Exp == nil {
		o.Exp = []Pair{}
	}
	if o.Chk == nil {
		o.Chk = []int32{}
	}
	h.Mu.Lock()
	h.n++
	key := fmt.Sprintf("%s-%d", p, h.n)
	inv := M{"e": "inv", "p": key, "op": o, "code": "hang", "ret": []any{}, "lst": []any{}}
	h.S.Ev = append(h.S.Ev, inv)
	h.Mu.Unlock()
	code, ret, lst, id := h.St.Exec(o, at)
	h.Mu.Lock()
	defer h.Mu.Unlock()
	o.ID = id
	inv["op"], inv["code"] = o, code
	if len(ret) > 0 {
		inv["ret"] = ret[0]
	}
	if lst != nil {
		inv["lst"] = lst
	}
	h.S.Ev = append(h.S.Ev, M{"e": "ret", "p": key})
}

func (h *History) Contents() map[string]Pair {
	out := map[string]Pair{}
	if h.St.Val != nil {
		if t, ok := IsT(h.St.Val.Get()); ok {
			out["v"] = ToP(t)
		}
		return out
	}
	// ids and messages, via the seed of a subscription
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	n := len(h.St.Coll.List())
	ch := h.St.Coll.Pull(ctx)
	for i := 0; i < n; i++ {
		select {
		case c := <-ch:
			if t, ok := IsT(c.NewValue); ok {
				out[c.Id] = ToP(t)
			}
		case <-time.After(10 * time.Second):
			out["seed missing"] = Pair{}
		}
	}
	return out
}

func (h *History) End(out *vlib.Out, finished bool) {
	if finished {
		m := h.Contents()
		h.Mu.Lock()
		h.S.Ev = append(h.S.Ev, M{"e": "final", "m": m})
		h.Mu.Unlock()
	} else {
		h.Mu.Lock()
		h.S.Ev = append(h.S.Ev, M{"e": "hang"})
		h.Mu.Unlock()
	}
	out.Write(h.S)
}

func None(string) {}

// alphabet of operations used in forced windows
func Alphabet(id string) []Op {
	return []Op{
		{Op: "write", ID: id, Mode: "put", V: Pair{2, 2}},
		{Op: "write", ID: id, Create: true, Mode: "put", V: Pair{3, 0}},
		{Op: "write", ID: id, Create: true, Mode: "inc", V: Pair{1, 0}},
		{Op: "write", ID: id, Create: true, Mode: "incf", V: Pair{1, 1}},
		{Op: "write", ID: id, Create: true, Mode: "aft", V: Pair{1, 1}},
		{Op: "write", ID: id, Create: true, Mode: "puta", V: Pair{4, 4}},
		{Op: "write", ID: id, Mode: "putb", V: Pair{5, 5}},
		{Op: "write", ID: id, Absent: true, Create: true, AddCall: true, Mode: "put", V: Pair{1, 1}},
		{Op: "write", ID: id, Absent: true, Create: true, Mode: "put", V: Pair{0, 0}},
		{Op: "write", ID: id, Create: true, Mode: "put", V: Pair{0, 0}},
		{Op: "write", ID: id, Exp: []Pair{{1, 1}}, Mode: "put", V: Pair{6, 1}},
		{Op: "write", ID: id, Create: true, Exp: []Pair{{1, 1}}, Mode: "inc", V: Pair{1, 0}},
		{Op: "write", ID: id, Create: true, Exp: []Pair{{0, 0}}, Mode: "put", V: Pair{1, 1}},
		{Op: "write", ID: id, Chk: []int32{1}, Mode: "puta", V: Pair{0, 0}},
		{Op: "write", ID: id, Create: true, Chk: []int32{0}, Mode: "inc", V: Pair{2, 0}},
		{Op: "delete", ID: id, Mode: "put"},
		{Op: "delete", ID: id, Mode: "put", AllowMissing: true},
		{Op: "delete", ID: id, Mode: "put", Exp: []Pair{{1, 1}}},
		{Op: "delete", ID: id, Mode: "put", Chk: []int32{1}},
		{Op: "get", ID: id, Mode: "put"},
	}
}

func ValueOps() []Op {
	var out []Op
	for _, o := range Alphabet("v") {
		if o.Op == "delete" || o.Absent {
			continue
		}
		o.Create = true
		out = append(out, o)
	}
	return out
}

var Inits = []map[string]Pair{{}, {"x": {1, 1}}, {"x": {0, 0}}, {"x": {1, 0}, "y": {2, 2}}}
var ValueInits = []map[string]Pair{{}, {"v": {1, 1}}, {"v": {0, 0}}}

func RandOp(r *rand.Rand, kind string) Op {
	var o Op
	if kind == "value" {
		ops := ValueOps()
		o = ops[r.Intn(len(ops))]
	} else {
		ids := []string{"x", "y"}
		ops := Alphabet(ids[r.Intn(2)])
		o = ops[r.Intn(len(ops))]
		if r.Intn(10) == 0 {
			o = Op{Op: "list", Mode: "put"}
		}
		if r.Intn(6) == 0 {
			o = Op{Op: "write", ID: "", Gen: true, Create: true, Absent: true, AddCall: true, Mode: "put", V: Pair{9, 9}}
			if r.Intn(2) == 0 {
				o.AddCall, o.Absent = false, false
			}
		}
	}
	if o.Op == "write" {
		o.V = Pair{int32(r.Intn(3)), int32(r.Intn(3))}
	}
	if len(o.Exp) > 0 {
		o.Exp = []Pair{{int32(r.Intn(3)), int32(r.Intn(3))}}
	}
	return o
}
