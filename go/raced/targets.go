package main

import (
	"context"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/minibus"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/rtab"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/pkg/group"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
)

func hasPrefix(name string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func kindOf(name string) string {
	switch {
	case hasPrefix(name, "Pull"):
		return "pull"
	case hasPrefix(name, "Create", "Add", "Generate", "Record"):
		return "create"
	case hasPrefix(name, "Delete", "Remove", "Reset", "Clear"):
		return "delete"
	case hasPrefix(name, "Update", "Set", "Merge", "Change", "Dispense", "Acknowledge", "Stop", "Start"):
		return "write"
	}
	return "get"
}

func mdOf(t reflect.Type) protoreflect.MessageDescriptor {
	if t == nil || t.Kind() != reflect.Pointer {
		return nil
	}
	return reflect.Zero(t).Interface().(proto.Message).ProtoReflect().Descriptor()
}

func typeOf(mt reflect.Type) reflect.Type {
	for i := 0; i < mt.NumIn(); i++ {
		if mt.In(i).Implements(protoT) && mt.In(i).Kind() == reflect.Pointer {
			return mt.In(i)
		}
	}
	for i := 0; i < mt.NumOut(); i++ {
		t := mt.Out(i)
		if t.Kind() == reflect.Slice {
			t = t.Elem()
		}
		if t.Implements(protoT) && t.Kind() == reflect.Pointer {
			return t
		}
	}
	return nil
}

func (g *gor) writeOptions(t reflect.Type) []resource.WriteOption {
	var out []resource.WriteOption
	md := mdOf(t)
	if m := g.mask(md); m != nil {
		out = append(out, resource.WithUpdateMask(m))
	}
	if g.r.Intn(4) == 0 {
		out = append(out, resource.WithCreateIfAbsent())
	}
	if g.r.Intn(4) == 0 {
		out = append(out, resource.WithAllowMissing(true))
	}
	if g.r.Intn(6) == 0 {
		out = append(out, resource.WithExpectedCheck(func(m proto.Message) error { look(m); return nil }))
	}
	if m := g.mask(md); m != nil && g.r.Intn(4) == 0 {
		out = append(out, resource.WithResetMask(m))
	}
	if m := g.mask(md); m != nil && g.r.Intn(4) == 0 {
		out = append(out, resource.WithMoreUpdateMask(m))
	}
	return out
}

// more options, that models may use for themselves.
func (g *gor) moreOptions(t reflect.Type) []resource.WriteOption {
	out := g.writeOptions(t)
	if g.r.Intn(3) == 0 {
		out = append(out, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(string) {}), resource.WithCreatedCallback(func() {}))
	}
	if g.r.Intn(3) == 0 {
		out = append(out, resource.InterceptBefore(func(old, change proto.Message) { look(old); look(change) }))
	}
	if g.r.Intn(3) == 0 {
		out = append(out, resource.InterceptAfter(func(old, change proto.Message) { look(old); look(change) }))
	}
	if g.r.Intn(5) == 0 && len(g.msgs[t]) > 0 {
		out = append(out, resource.WithExpectedValue(g.msgs[t][0]))
	}
	if g.r.Intn(5) == 0 {
		out = append(out, resource.WithAllFieldsWritable())
	}
	if g.r.Intn(5) == 0 {
		out = append(out, resource.WithWriteTime(time.Unix(1, 0)))
	}
	return out
}

func (g *gor) readOptions(md protoreflect.MessageDescriptor, pull, include bool) []resource.ReadOption {
	var out []resource.ReadOption
	if m := g.mask(md); m != nil {
		out = append(out, resource.WithReadMask(m))
	}
	if pull && g.r.Intn(4) == 0 {
		out = append(out, resource.WithUpdatesOnly(true))
	}
	if pull && g.r.Intn(3) == 0 {
		out = append(out, resource.WithBackpressure(false))
	}
	if include && g.r.Intn(4) == 0 {
		out = append(out, resource.WithInclude(func(id string, m proto.Message) bool { look(m); return id != "2" }))
	}
	return out
}

func modelOps(t *target, model any, core bool) {
	if model == nil {
		return
	}
	v := reflect.ValueOf(model)
	var first protoreflect.MessageDescriptor
	for i := 0; i < v.NumMethod(); i++ {
		name, m := v.Type().Method(i).Name, v.Method(i)
		mt := m.Type()
		if hasPrefix(name, "Pull") || name == "DeriveValues" {
			continue
		}
		n := mt.NumIn()
		if mt.IsVariadic() {
			n--
		}
		ok := true
		for j := 0; j < n; j++ {
			switch k := mt.In(j).Kind(); {
			case mt.In(j).Implements(protoT) && k == reflect.Pointer, k == reflect.String, k == reflect.Float32, k == reflect.Int32, k == reflect.Int, k == reflect.Bool:
			default:
				ok = false
			}
		}
		if !ok {
			continue
		}
		mtyp := typeOf(mt)
		if core {
			mtyp = reflect.TypeOf(model.(interface{ Zero() proto.Message }).Zero())
		}
		if mtyp != nil {
			t.types = append(t.types, mtyp)
			if first == nil && kindOf(name) != "get" {
				first = mdOf(mtyp)
			}
		}
		kind := kindOf(name)
		if name == "Zero" {
			continue
		}
		for j := 0; j < n; j++ {
			if mt.In(j).Implements(protoT) {
				t.types = append(t.types, mt.In(j))
			}
		}
		t.ops = append(t.ops, op{"model." + name, kind, func(g *gor) {
			var args []reflect.Value
			var own []proto.Message
			for j := 0; j < n; j++ {
				at := mt.In(j)
				switch {
				case at.Implements(protoT):
					msg, mine := g.message(at)
					if name == "CreateMode" {
						msg, mine = proto.Clone(msg), true
						msg.ProtoReflect().Clear(msg.ProtoReflect().Descriptor().Fields().ByName("id"))
					}
					if kind == "create" && name != "CreateMode" && g.r.Intn(2) == 0 {
						// generated ids
						msg, mine = proto.Clone(msg), true
						for _, n := range []string{"id", "consumable"} {
							if fd := msg.ProtoReflect().Descriptor().Fields().ByName(protoreflect.Name(n)); fd != nil && name != "AddMode" {
								msg.ProtoReflect().Clear(fd)
							}
						}
					}
					if mine {
						own = append(own, msg)
					}
					args = append(args, reflect.ValueOf(msg))
				case at.Kind() == reflect.String:
					id := g.id(g.r)
					if core && kind == "create" && g.r.Intn(2) == 0 {
						id = ""
					}
					args = append(args, reflect.ValueOf(id).Convert(at))
				case at.Kind() == reflect.Float32:
					args = append(args, reflect.ValueOf(float32(g.r.Intn(100))))
				case at.Kind() == reflect.Bool:
					args = append(args, reflect.ValueOf(g.r.Intn(2) == 0))
				default:
					args = append(args, reflect.ValueOf(g.r.Intn(3)).Convert(at))
				}
			}
			if mt.IsVariadic() {
				switch vt := mt.In(n); {
				case vt == woT:
					os := g.writeOptions(mtyp)
					if core {
						os = g.moreOptions(mtyp)
						if kind == "create" {
							os = append(os, resource.WithGenIDIfAbsent())
						}
					}
					for _, o := range os {
						args = append(args, reflect.ValueOf(&o).Elem())
					}
				case vt == roT:
					for _, o := range g.readOptions(mdOf(mtyp), false, core) {
						args = append(args, reflect.ValueOf(&o).Elem())
					}
				case vt.Elem().Kind() == reflect.String:
					for k := g.r.Intn(3); k >= 0; k-- {
						args = append(args, reflect.ValueOf([]string{"a", "b", "c", "d"}[g.r.Intn(4)]).Convert(vt.Elem()))
					}
				}
			}
			for _, o := range m.Call(args) {
				protos(o, look, 4)
			}
			// what was handed over is the caller's again
			for _, m := range own {
				scribble(m.ProtoReflect())
			}
		}})
	}
	for _, p := range tm.Pulls(model) {
		t.ops = append(t.ops, op{"model." + p.Name, "pull", func(g *gor) {
			if !g.room() {
				return
			}
			ctx, cancel := context.WithCancel(g.ctx)
			c := p.Open(ctx, g.id(g.r), g.readOptions(first, true, core)...)
			g.follow(cancel, func() bool {
				v, ok := c.Recv()
				if ok {
					protos(v, look, 4)
				}
				return ok
			})
			if g.r.Intn(4) == 0 {
				cancel()
			}
		}})
	}
}

// scribble changes all the caller can reach.
func scribble(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			if fd.MapValue().Message() != nil {
				v.Map().Range(func(_ protoreflect.MapKey, x protoreflect.Value) bool { scribble(x.Message()); return true })
			} else {
				v.Map().Range(func(k protoreflect.MapKey, x protoreflect.Value) bool { v.Map().Set(k, x); return true })
			}
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				if fd.Message() != nil {
					scribble(v.List().Get(i).Message())
				} else {
					v.List().Set(i, v.List().Get(i))
				}
			}
		case fd.Message() != nil:
			scribble(v.Message())
		case fd.Kind() == protoreflect.BytesKind:
			b := v.Bytes()
			for i := range b {
				b[i]++
			}
		default:
			m.Set(fd, fd.Default())
		}
		return true
	})
}

// request for a method; masks are shared, too.
func (g *gor) request(m tm.Method, name string) proto.Message {
	req := m.In.New().Interface()
	fill(g.r, req, g.ids)
	rm := req.ProtoReflect()
	if fd := rm.Descriptor().Fields().ByName("name"); fd != nil {
		rm.Set(fd, protoreflect.ValueOfString(name))
	}
	write := kindOf(m.Name) != "get" && kindOf(m.Name) != "pull"
	for i := 0; i < rm.Descriptor().Fields().Len(); i++ {
		fd := rm.Descriptor().Fields().Get(i)
		if fd.Message() == nil || fd.IsList() || fd.IsMap() || fd.ContainingOneof() != nil || strings.HasSuffix(string(fd.Name()), "_mask") {
			continue
		}
		if write {
			// what others use at the same time
			x := rm.Mutable(fd).Message()
			fix(g.r, x, g.ids)
			if ms := g.msgs[reflect.TypeOf(x.Interface())]; len(ms) > 0 && g.r.Intn(3) == 0 && m.Name != "CreateMode" {
				rm.Set(fd, protoreflect.ValueOfMessage(ms[g.r.Intn(len(ms))].ProtoReflect()))
			}
		}
	}
	if m.Name == "CreateMode" {
		x := rm.Mutable(rm.Descriptor().Fields().ByName("mode")).Message()
		x.Clear(x.Descriptor().Fields().ByName("id"))
	}
	for _, n := range []string{"read_mask", "update_mask"} {
		if fd := rm.Descriptor().Fields().ByName(protoreflect.Name(n)); fd != nil {
			if k := g.mask(payload(m)); k != nil {
				rm.Set(fd, protoreflect.ValueOfMessage(k.ProtoReflect()))
			}
		}
	}
	return req
}

func payload(m tm.Method) protoreflect.MessageDescriptor {
	md := m.OutMD
	if cf := md.Fields().ByName("changes"); m.ServerStream && cf != nil {
		for i := 0; i < cf.Message().Fields().Len(); i++ {
			if x := cf.Message().Fields().Get(i); x.Message() != nil && x.Name() != "change_time" {
				md = x.Message()
			}
		}
	}
	return md
}

func rpcOps(t *target, service string, conn grpc.ClientConnInterface, names func(g *gor) string) {
	for _, m := range tm.Methods(service) {
		t.mds = append(t.mds, payload(m))
		for i := 0; i < m.InMD.Fields().Len(); i++ {
			if fd := m.InMD.Fields().Get(i); fd.Message() != nil && !fd.IsList() && !fd.IsMap() && !strings.HasSuffix(string(fd.Name()), "_mask") {
				t.types = append(t.types, reflect.TypeOf(m.In.New().Get(fd).Message().Interface()))
			}
		}
		if m.ClientStream {
			continue
		}
		if m.ServerStream {
			t.ops = append(t.ops, op{"rpc." + m.Name, "stream", func(g *gor) {
				if !g.room() {
					return
				}
				ctx, cancel := context.WithCancel(g.ctx)
				st, err := conn.NewStream(ctx, &grpc.StreamDesc{ServerStreams: true}, m.Full)
				if err != nil || st.SendMsg(g.request(m, names(g))) != nil || st.CloseSend() != nil {
					cancel()
					return
				}
				g.follow(cancel, func() bool {
					res := m.Out.New().Interface()
					if st.RecvMsg(res) != nil {
						st.Trailer()
						return false
					}
					look(res)
					return true
				})
				if g.r.Intn(4) == 0 {
					cancel()
				}
			}})
			continue
		}
		t.ops = append(t.ops, op{"rpc." + m.Name, "rpc", func(g *gor) {
			res := m.Out.New().Interface()
			ctx := g.ctx
			if g.r.Intn(8) == 0 {
				c, cancel := context.WithTimeout(ctx, time.Duration(g.r.Intn(100))*time.Microsecond)
				defer cancel()
				ctx = c
			}
			if conn.Invoke(ctx, m.Full, g.request(m, names(g)), res) == nil {
				look(res)
			}
		}})
		// the kind of what it does, too
		o := t.ops[len(t.ops)-1]
		o.kind = kindOf(m.Name)
		t.ops = append(t.ops, o)
	}
}

func fixedName(n string) func(*gor) string { return func(*gor) string { return n } }

func device(name string, f func() tm.Dev, core bool) ctor {
	return ctor{name, func(*rand.Rand) *target {
		d := f()
		t := &target{ids: []string{"1", "2", "3"}}
		if h, ok := d.Model.(*hailpb.Model); ok {
			for _, x := range h.ListHails() {
				t.ids[0] = x.Id
			}
		}
		modelOps(t, d.Model, core)
		for _, svc := range d.Svcs {
			rpcOps(t, svc.Desc.ServiceName, svc.Conn(), fixedName("1"))
		}
		return t
	}}
}

// routed devices behind a router of their trait.
func routed(e rtab.Entry, d *tm.Dev) ctor {
	return ctor{"router-" + e.Desc.ServiceName, func(*rand.Rand) *target {
		t := &target{ids: []string{"1", "2", "3", "4"}}
		mk := func() any {
			for _, s := range d.Svcs {
				if s.Desc.ServiceName == e.Desc.ServiceName {
					return e.Client(s.Conn())
				}
			}
			return nil
		}
		shared := mk()
		r := e.Router(e.Factory(func(n string) (any, error) {
			if n == "4" {
				return shared, nil
			}
			return nil, io.EOF
		}))
		r.Add("1", shared)
		for _, s := range d.Svcs {
			if s.Desc.ServiceName == e.Desc.ServiceName {
				rpcOps(t, e.Desc.ServiceName, wrap.ServerToClient(*e.Desc, r), func(g *gor) string { return g.id(g.r) })
			}
		}
		t.ops = append(t.ops,
			op{"Add", "create", func(g *gor) { r.Add(g.id(g.r), shared) }},
			op{"Remove", "delete", func(g *gor) { r.Remove(g.id(g.r)) }},
			op{"Has", "get", func(g *gor) { r.Has(g.id(g.r)) }},
			op{"Get", "get", func(g *gor) { _, _ = r.Get(g.id(g.r)) }},
			op{"HoldsType", "get", func(g *gor) { r.HoldsType(shared) }},
		)
		return t
	}}
}

func bare() ctor {
	return ctor{"router", func(*rand.Rand) *target {
		t := &target{ids: []string{"1", "2", "3", "4"}}
		seen := func(c router.Change) {}
		r := router.NewRouter(router.WithFactory(func(n string) (any, error) {
			if n == "3" {
				return nil, io.EOF
			}
			return &struct{ n string }{n}, nil
		}), router.WithFallback(func(n string) (any, error) { return n, nil }), router.WithOnChange(seen))
		t.ops = append(t.ops,
			op{"Add", "create", func(g *gor) { r.Add(g.id(g.r), 1) }},
			op{"Remove", "delete", func(g *gor) { r.Remove(g.id(g.r)) }},
			op{"Has", "get", func(g *gor) { r.Has(g.id(g.r)) }},
			op{"Get", "write", func(g *gor) { _, _ = r.Get(g.id(g.r)) }},
		)
		return t
	}}
}

func bus() ctor {
	return ctor{"bus", func(*rand.Rand) *target {
		t := &target{ids: []string{"1"}}
		b := &minibus.Bus{}
		t.ops = append(t.ops,
			op{"Send", "write", func(g *gor) {
				m := &traits.OnOff{State: traits.OnOff_ON}
				ctx, cancel := context.WithTimeout(g.ctx, 5*time.Second)
				defer cancel()
				b.Send(ctx, m)
			}},
			op{"Listen", "pull", func(g *gor) {
				if !g.room() {
					return
				}
				ctx, cancel := context.WithCancel(g.ctx)
				c := b.Listen(ctx)
				if g.r.Intn(2) == 0 {
					c = minibus.DropExcess(c)
				}
				g.follow(cancel, func() bool {
					m, ok := <-c
					if ok {
						look(m.(proto.Message))
					}
					return ok
				})
				if g.r.Intn(4) == 0 {
					cancel()
				}
			}},
		)
		return t
	}}
}

// groups of devices, with every strategy.
func groups() []ctor {
	var out []ctor
	strategies := []group.ExecutionStrategy{group.ExecutionStrategyAll, group.ExecutionStrategyMost, group.ExecutionStrategyAny, group.ExecutionStrategyOne, group.ExecutionStrategyFast, group.ExecutionStrategyRace}
	out = append(out, ctor{"group-onoff", func(r *rand.Rand) *target {
		t := &target{ids: []string{"1", "2", "3"}}
		api := onoffpb.NewApiRouter()
		for _, n := range t.ids[:2] { // the third doesn't exist
			api.Add(n, onoffpb.WrapApi(onoffpb.NewModelServer(onoffpb.NewModel())))
		}
		g := onoffpb.NewGroup(onoffpb.WrapApi(api), t.ids[:2+r.Intn(2)]...)
		g.ReadExecution, g.WriteExecution = strategies[r.Intn(6)], strategies[r.Intn(6)]
		rpcOps(t, traits.OnOffApi_ServiceDesc.ServiceName, wrap.ServerToClient(traits.OnOffApi_ServiceDesc, g), fixedName("g"))
		return t
	}}, ctor{"group-light", func(r *rand.Rand) *target {
		t := &target{ids: []string{"1", "2", "3"}}
		api := lightpb.NewApiRouter()
		for _, n := range t.ids[:2] {
			api.Add(n, lightpb.WrapApi(lightpb.NewModelServer(lightpb.NewModel())))
		}
		g := lightpb.NewGroup(lightpb.WrapApi(api), t.ids[:2+r.Intn(2)]...)
		g.ReadExecution, g.WriteExecution = strategies[r.Intn(6)], strategies[r.Intn(6)]
		rpcOps(t, traits.LightApi_ServiceDesc.ServiceName, wrap.ServerToClient(traits.LightApi_ServiceDesc, g), fixedName("g"))
		return t
	}}, ctor{"group", func(r *rand.Rand) *target {
		t := &target{ids: []string{"1", "2", "3"}}
		v := resource.NewValue(resource.WithInitialValue(&traits.OnOff{}))
		members := func(g *gor) []group.Member {
			var ms []group.Member
			for i := g.r.Intn(5); i >= 0; i-- {
				fail, set, wait := g.r.Intn(4) == 0, g.r.Intn(2) == 0, g.r.Intn(4) == 0
				ms = append(ms, func(ctx context.Context) (proto.Message, error) {
					if wait {
						select {
						case <-ctx.Done():
							return nil, ctx.Err()
						case <-time.After(50 * time.Microsecond):
						}
					}
					if fail {
						return nil, io.EOF
					}
					if set {
						return v.Set(&traits.OnOff{State: traits.OnOff_ON})
					}
					return v.Get(), nil
				})
			}
			return ms
		}
		t.ops = append(t.ops, op{"Execute", "write", func(g *gor) {
			res, err := group.Execute(g.ctx, strategies[g.r.Intn(6)], members(g))
			for _, m := range res {
				look(m)
			}
			if err != nil {
				_ = err.Error()
			}
		}}, op{"Get", "get", func(g *gor) { look(v.Get()) }})
		return t
	}})
	return out
}

// ramps change the brightness in their own time.
func light() ctor {
	return ctor{"light-ramps", func(*rand.Rand) *target {
		t := &target{ids: []string{"1"}}
		conn := wrap.ServerToClient(traits.LightApi_ServiceDesc, lightpb.NewMemoryDevice())
		rpcOps(t, traits.LightApi_ServiceDesc.ServiceName, conn, fixedName("1"))
		c := traits.NewLightApiClient(conn)
		ramp := op{"ramp", "write", func(g *gor) {
			res, err := c.UpdateBrightness(g.ctx, &traits.UpdateBrightnessRequest{Name: "1", Brightness: &traits.Brightness{
				LevelPercent: float32(g.r.Intn(100)), BrightnessTween: &types.Tween{TotalDuration: durationpb.New(time.Duration(1+g.r.Intn(40)) * time.Millisecond)},
			}})
			if err == nil {
				look(res)
			}
			time.Sleep(time.Duration(g.r.Intn(3000)) * time.Microsecond)
		}}
		t.ops = append(t.ops, ramp, ramp)
		return t
	}}
}

// streams of the wrapped test service, both ends at work at the same time.
func wrapped() ctor {
	return ctor{"wrap", func(*rand.Rand) *target {
		t := &target{ids: []string{"1"}}
		conn := wrap.ServerToClient(testproto.TestApi_ServiceDesc, &echo{})
		c := testproto.NewTestApiClient(conn)
		opts := func(g *gor) ([]grpc.CallOption, func()) {
			var h, tr metadata.MD
			return []grpc.CallOption{grpc.Header(&h), grpc.Trailer(&tr)}, func() { sink(len(h) + len(tr)) }
		}
		ctxOf := func(g *gor) (context.Context, context.CancelFunc) {
			ctx := metadata.AppendToOutgoingContext(g.ctx, "a", "b")
			if g.r.Intn(3) == 0 {
				return context.WithTimeout(ctx, time.Duration(g.r.Intn(200))*time.Microsecond)
			}
			return context.WithCancel(ctx)
		}
		t.ops = append(t.ops,
			op{"Unary", "rpc", func(g *gor) {
				ctx, cancel := ctxOf(g)
				defer cancel()
				os, after := opts(g)
				req := &testproto.UnaryRequest{Msg: "x"}
				res, err := c.Unary(ctx, req, os...)
				req.Msg = "reused" // the call is over
				if err == nil {
					look(res)
					after()
				}
			}},
			op{"BidiStream", "stream", func(g *gor) {
				ctx, cancel := ctxOf(g)
				st, err := c.BidiStream(ctx)
				if err != nil {
					cancel()
					return
				}
				n, end := g.r.Intn(4), g.r.Intn(4) > 0
				sent := make(chan struct{})
				go func() {
					defer close(sent)
					for i := 0; i < n; i++ {
						if st.Send(&testproto.BidiStreamRequest{Msg: "x"}) != nil {
							return
						}
					}
					if end {
						_ = st.CloseSend()
					} else {
						cancel()
					}
				}()
				head := make(chan struct{})
				go func() {
					defer close(head)
					md, err := st.Header()
					if err == nil {
						sink(len(md["a"]) + md.Len())
					}
				}()
				for {
					m, err := st.Recv()
					if err != nil {
						break
					}
					look(m)
				}
				md := st.Trailer()
				sink(len(md["a"]) + md.Len())
				<-sent
				cancel()
				<-head
			}},
			op{"ServerStream", "stream", func(g *gor) {
				ctx, cancel := ctxOf(g)
				defer cancel()
				req := &testproto.ServerStreamRequest{NumRes: int32(g.r.Intn(4))}
				st, err := c.ServerStream(ctx, req)
				if err != nil {
					return
				}
				defer func() { req.NumRes = 0 }() // the call is over
				for {
					m, err := st.Recv()
					if err != nil {
						break
					}
					look(m)
				}
				sink(len(st.Trailer()))
			}},
			op{"ClientStream", "stream", func(g *gor) {
				ctx, cancel := ctxOf(g)
				defer cancel()
				st, err := c.ClientStream(ctx)
				if err != nil {
					return
				}
				for i := g.r.Intn(4); i > 0; i-- {
					if st.Send(&testproto.ClientStreamRequest{Msg: "x"}) != nil {
						break
					}
				}
				if m, err := st.CloseAndRecv(); err == nil {
					look(m)
				}
				sink(len(st.Trailer()))
			}},
		)
		return t
	}}
}

// echo sets metadata in every way there is.
type echo struct {
	testproto.UnimplementedTestApiServer
}

func (*echo) Unary(ctx context.Context, req *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	look(req)
	_ = grpc.SetHeader(ctx, metadata.Pairs("a", "h"))
	_ = grpc.SendHeader(ctx, metadata.Pairs("b", "h"))
	_ = grpc.SetTrailer(ctx, metadata.Pairs("a", "t"))
	return &testproto.UnaryResponse{Msg: req.Msg}, nil
}
func (*echo) ServerStream(req *testproto.ServerStreamRequest, s testproto.TestApi_ServerStreamServer) error {
	look(req)
	_ = s.SetHeader(metadata.Pairs("a", "h"))
	for i := int32(0); i < req.NumRes; i++ {
		if err := s.Send(&testproto.ServerStreamResponse{Counter: i}); err != nil {
			return err
		}
		s.SetTrailer(metadata.Pairs("a", "t"))
	}
	return nil
}
func (*echo) ClientStream(s testproto.TestApi_ClientStreamServer) error {
	for {
		m, err := s.Recv()
		if err == io.EOF {
			s.SetTrailer(metadata.Pairs("a", "t"))
			return s.SendAndClose(&testproto.ClientStreamResponse{Msg: "y"})
		}
		if err != nil {
			return err
		}
		look(m)
	}
}
func (*echo) BidiStream(s testproto.TestApi_BidiStreamServer) error {
	_ = s.SetHeader(metadata.Pairs("a", "h"))
	for {
		m, err := s.Recv()
		s.SetTrailer(metadata.Pairs("a", "t"))
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		look(m)
		if err := s.Send(&testproto.BidiStreamResponse{Msg: m.Msg}); err != nil {
			return err
		}
	}
}

func all() []ctor {
	var out []ctor
	for _, c := range cores() {
		out = append(out, device(c.Name, func() tm.Dev { return c.New() }, true))
	}
	for _, c := range tm.All() {
		out = append(out, device(c.Name, func() tm.Dev { return c.New() }, false))
	}
	rng := func() resource.Option { return resource.WithRNG(rand.New(rand.NewSource(1))) }
	out = append(out,
		device("electric-empty", func() tm.Dev {
			m := electricpb.NewModel()
			s := electricpb.NewModelServer(m)
			return tm.Dev{Name: "electric-empty", Model: m, Svcs: []tm.Svc{{Desc: traits.ElectricApi_ServiceDesc, Srv: s}, {Desc: electricpb.MemorySettingsApi_ServiceDesc, Srv: s}}}
		}, false),
		device("hail-gc", func() tm.Dev {
			m := hailpb.NewModel(hailpb.WithKeepAlive(time.Millisecond))
			for i := 0; i < 3; i++ {
				_, _ = m.CreateHail(&traits.Hail{State: traits.Hail_ARRIVED})
			}
			return tm.Dev{Name: "hail-gc", Model: m, Svcs: []tm.Svc{{Desc: traits.HailApi_ServiceDesc, Srv: hailpb.NewModelServer(m)}}}
		}, false),
		device("vending-rng", func() tm.Dev {
			m := vendingpb.NewModel(rng())
			return tm.Dev{Name: "vending-rng", Model: m, Svcs: []tm.Svc{{Desc: traits.VendingApi_ServiceDesc, Srv: vendingpb.NewModelServer(m)}}}
		}, false),
		bare(), bus(), wrapped(), light(),
	)
	out = append(out, groups()...)
	for _, e := range rtab.All {
		for _, c := range tm.All() {
			d := c.New()
			for _, s := range d.Svcs {
				if s.Desc.ServiceName == e.Desc.ServiceName && !strings.HasSuffix(c.Name, "-memory") {
					out = append(out, routed(e, &d))
				}
			}
		}
	}
	return out
}
