// isod uses values, collections, trait models and their servers, keeps every message that crosses the boundary, and
// records what all of them look like after every operation (C07).
package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
)

type M = vlib.M

var (
	protoT = reflect.TypeOf((*proto.Message)(nil)).Elem()
	ctxT   = reflect.TypeOf((*context.Context)(nil)).Elem()
	roT    = reflect.TypeOf([]resource.ReadOption{})
	woT    = reflect.TypeOf([]resource.WriteOption{})
	timeT  = reflect.TypeOf(&timestamppb.Timestamp{})
)

var writing = []string{"Update", "Set", "Create", "Add", "Record", "Merge", "Change", "Delete", "Remove", "Reset", "Dispense", "Generate"}

func isWrite(name string) bool {
	for _, p := range writing {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// held is a message that crossed the boundary.
type held struct {
	m    proto.Message
	mine bool // the caller's: handed to the library
	what string
}

type session struct {
	*vlib.Session
	r      *rand.Rand
	dev    tm.Dev
	ids    []string
	held   []held
	digest map[string]int
	mu     sync.Mutex
	arrive []held
	known  map[proto.Message]bool
	ctx    context.Context
	nsub   int
	shared bool // the request being made holds a message the library handed out
	was    int
	last   []int
}

func (s *session) num(k string) int {
	n, ok := s.digest[k]
	if !ok {
		n = len(s.digest) + 1
		s.digest[k] = n
	}
	return n
}

var det = proto.MarshalOptions{Deterministic: true, AllowPartial: true}

func look(m proto.Message) string {
	b, err := det.Marshal(m)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

func (s *session) now() []int {
	out := make([]int, len(s.held))
	for i, h := range s.held {
		out[i] = s.num(look(h.m))
	}
	return out
}

func (s *session) hold(m proto.Message, mine bool, what string) {
	if m == nil || !m.ProtoReflect().IsValid() || s.known[m] || len(s.held) > 150 {
		return
	}
	s.known[m] = true
	s.held = append(s.held, held{m, mine, what})
}

// protos finds the messages in a value.
func protos(v reflect.Value, f func(proto.Message), depth int) {
	if !v.IsValid() || depth == 0 {
		return
	}
	if v.Type().Implements(protoT) {
		if (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface) && v.IsNil() {
			return
		}
		if v.CanInterface() {
			f(v.Interface().(proto.Message))
		}
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			protos(v.Elem(), f, depth-1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			protos(v.Index(i), f, depth-1)
		}
	case reflect.Struct:
		if v.Type().PkgPath() == "time" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				protos(v.Field(i), f, depth-1)
			}
		}
	}
}

// message to hand to the library.
func (s *session) message(t reflect.Type) proto.Message {
	m := reflect.New(t.Elem()).Interface().(proto.Message)
	// parts of what has been handed out are handed back, copied
	if s.r.Intn(3) == 0 {
		var same []proto.Message
		for _, h := range s.held {
			if reflect.TypeOf(h.m) == t {
				same = append(same, h.m)
			}
		}
		if len(same) > 0 {
			m = proto.Clone(same[s.r.Intn(len(same))])
		}
	}
	vlib.Gen{R: s.r, P: []float64{0.3, 0.6, 0.9}[s.r.Intn(3)], Depth: 4}.Fill(m)
	s.fix(m.ProtoReflect())
	return m
}

// handed is a message the library handed out, not a copy, for it to be handed back: nil most times.
func (s *session) handed(t reflect.Type) proto.Message {
	if s.r.Intn(5) > 0 {
		return nil
	}
	var same []proto.Message
	for _, h := range s.held {
		if !h.mine && reflect.TypeOf(h.m) == t {
			same = append(same, h.m)
		}
	}
	if len(same) == 0 {
		return nil
	}
	return same[s.r.Intn(len(same))]
}

// fix makes messages acceptable more often.
func (s *session) fix(rm protoreflect.Message) {
	fds := rm.Descriptor().Fields()
	for _, n := range []string{"id", "name", "consumable"} {
		if fd := fds.ByName(protoreflect.Name(n)); fd != nil && fd.Kind() == protoreflect.StringKind && !fd.IsList() {
			rm.Set(fd, protoreflect.ValueOfString(s.ids[s.r.Intn(len(s.ids))]))
		}
	}
	if fd := fds.ByName("preset"); fd != nil && fd.Message() != nil && s.r.Intn(3) > 0 {
		if rm.Has(fd) {
			if nf := fd.Message().Fields().ByName("name"); nf != nil {
				rm.Mutable(fd).Message().Set(nf, protoreflect.ValueOfString([]string{"off", "on", "p1", "p2"}[s.r.Intn(4)]))
			}
		}
	}
	if fd := fds.ByName("traits"); fd != nil && fd.IsList() && fd.Message() != nil {
		l := rm.Mutable(fd).List()
		l.Truncate(0)
		for _, n := range []string{"a", "b", "c"} {
			if s.r.Intn(2) == 0 {
				e := l.NewElement()
				vlib.Gen{R: s.r, P: 0.5, Depth: 2}.Fill(e.Message().Interface())
				if nf := e.Message().Descriptor().Fields().ByName("name"); nf != nil {
					e.Message().Set(nf, protoreflect.ValueOfString(n))
				}
				l.Append(e)
			}
		}
	}
	rm.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case strings.Contains(string(fd.Name()), "tween"):
			rm.Clear(fd) // ramps change things in their own time
		case fd.Name() == "read_mask", fd.Name() == "update_mask", fd.Name() == "page_token", fd.Name() == "page_size":
			rm.Clear(fd)
		case fd.Message() != nil && !fd.IsMap() && !fd.IsList():
			s.fix(v.Message())
		}
		return true
	})
}

func (s *session) mask(md protoreflect.MessageDescriptor) *fieldmaskpb.FieldMask {
	if md == nil || s.r.Intn(2) == 0 {
		return nil
	}
	if s.r.Intn(8) == 0 {
		return &fieldmaskpb.FieldMask{}
	}
	sch := vlib.Schema(md, 3)
	var all []string
	for k := range sch {
		all = append(all, k)
	}
	sort.Strings(all)
	if len(all) == 0 {
		return nil
	}
	m := &fieldmaskpb.FieldMask{}
	for n := s.r.Intn(3); n >= 0; n-- {
		m.Paths = append(m.Paths, all[s.r.Intn(len(all))])
	}
	return m
}

func (s *session) readOptions(md protoreflect.MessageDescriptor, pull bool) []resource.ReadOption {
	var out []resource.ReadOption
	if m := s.mask(md); m != nil {
		out = append(out, resource.WithReadMask(m))
	}
	if pull && s.r.Intn(4) == 0 {
		out = append(out, resource.WithUpdatesOnly(true))
	}
	if pull && s.r.Intn(3) == 0 {
		out = append(out, resource.WithBackpressure(false))
	}
	if s.core() && s.r.Intn(4) == 0 {
		out = append(out, resource.WithInclude(func(id string, m proto.Message) bool {
			s.arrived(m, "include callback")
			return id != "2"
		}))
	}
	return out
}

func (s *session) core() bool { return len(s.dev.Svcs) == 0 }

func (s *session) writeOptions(t reflect.Type) []resource.WriteOption {
	var out []resource.WriteOption
	var md protoreflect.MessageDescriptor
	if t != nil {
		md = reflect.Zero(t).Interface().(proto.Message).ProtoReflect().Descriptor()
	}
	if m := s.mask(md); m != nil {
		out = append(out, resource.WithUpdateMask(m))
	}
	if !s.core() {
		return out
	}
	if s.r.Intn(3) == 0 {
		out = append(out, resource.WithCreateIfAbsent())
	}
	if s.r.Intn(4) == 0 {
		out = append(out, resource.WithAllowMissing(true))
	}
	if s.r.Intn(4) == 0 {
		out = append(out, resource.WithGenIDIfAbsent())
	}
	if m := s.mask(md); m != nil && s.r.Intn(2) == 0 {
		out = append(out, resource.WithResetMask(m))
	}
	if m := s.mask(md); m != nil && s.r.Intn(2) == 0 {
		out = append(out, resource.WithMoreUpdateMask(m))
	}
	if s.r.Intn(3) == 0 {
		out = append(out, resource.WithAllFieldsWritable())
	}
	if s.r.Intn(4) == 0 {
		out = append(out, resource.InterceptBefore(func(old, _ proto.Message) { s.arrived(old, "old of an interceptor") }))
	}
	if s.r.Intn(4) == 0 {
		out = append(out, resource.InterceptAfter(func(old, _ proto.Message) { s.arrived(old, "old of an interceptor") }))
	}
	if s.r.Intn(4) == 0 {
		out = append(out, resource.WithExpectedCheck(func(m proto.Message) error { s.arrived(m, "expected check"); return nil }))
	}
	return out
}

func (s *session) arrived(m proto.Message, what string) {
	if m == nil || !m.ProtoReflect().IsValid() {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.arrive = append(s.arrive, held{m, false, what})
}

// collect holds what has arrived from streams and callbacks.
func (s *session) collect() {
	for idle, last := 0, -1; idle < 2; {
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
		time.Sleep(50 * time.Microsecond)
		s.mu.Lock()
		n := len(s.arrive)
		s.mu.Unlock()
		if n == last {
			idle++
		} else {
			idle, last = 0, n
		}
	}
	s.mu.Lock()
	a := s.arrive
	s.arrive = nil
	s.mu.Unlock()
	for _, h := range a {
		s.hold(h.m, h.mine, h.what)
	}
}

// op is something that can be done with a device.
type op struct {
	name string
	ro   bool
	do   func(s *session)
}

func typesOf(mt reflect.Type) (msg reflect.Type) {
	for i := 0; i < mt.NumIn(); i++ {
		if mt.In(i).Implements(protoT) {
			return mt.In(i)
		}
	}
	for i := 0; i < mt.NumOut(); i++ {
		t := mt.Out(i)
		if t.Kind() == reflect.Slice {
			t = t.Elem()
		}
		if t.Implements(protoT) && t.Kind() == reflect.Pointer {
			return t
		}
	}
	return nil
}

func mdOf(t reflect.Type) protoreflect.MessageDescriptor {
	if t == nil || t.Kind() != reflect.Pointer {
		return nil
	}
	return reflect.Zero(t).Interface().(proto.Message).ProtoReflect().Descriptor()
}

// methods of a model that a caller can use with what we know to make.
func modelOps(d tm.Dev) []op {
	var out []op
	if d.Model == nil {
		return nil
	}
	v := reflect.ValueOf(d.Model)
	for i := 0; i < v.NumMethod(); i++ {
		name, m := v.Type().Method(i).Name, v.Method(i)
		mt := m.Type()
		if strings.HasPrefix(name, "Pull") || name == "DeriveValues" {
			continue
		}
		n := mt.NumIn()
		if mt.IsVariadic() {
			n--
		}
		ok := true
		for j := 0; j < n; j++ {
			switch k := mt.In(j).Kind(); {
			case mt.In(j).Implements(protoT), k == reflect.String, k == reflect.Float32, k == reflect.Int32, k == reflect.Int, k == reflect.Bool:
			default:
				ok = false
			}
		}
		if !ok {
			continue
		}
		t := typesOf(mt)
		out = append(out, op{"model." + name, !isWrite(name), func(s *session) {
			var args []reflect.Value
			for j := 0; j < n; j++ {
				at := mt.In(j)
				switch {
				case at.Implements(protoT) && at.Kind() == reflect.Pointer:
					msg := s.message(at)
					if h := s.handed(at); h != nil && name != "CreateMode" {
						msg = h
					}
					if name == "CreateMode" {
						rm := msg.ProtoReflect()
						rm.Clear(rm.Descriptor().Fields().ByName("id"))
					}
					s.hold(msg, true, "argument of "+name)
					args = append(args, reflect.ValueOf(msg))
				case at.Kind() == reflect.String:
					args = append(args, reflect.ValueOf(s.ids[s.r.Intn(len(s.ids))]).Convert(at))
				case at.Kind() == reflect.Float32:
					args = append(args, reflect.ValueOf(float32(s.r.Intn(100))))
				case at.Kind() == reflect.Bool:
					args = append(args, reflect.ValueOf(s.r.Intn(2) == 0))
				default:
					args = append(args, reflect.ValueOf(s.r.Intn(3)).Convert(at))
				}
			}
			if mt.IsVariadic() {
				switch vt := mt.In(n); {
				case vt == woT:
					for _, o := range s.writeOptions(t) {
						args = append(args, reflect.ValueOf(&o).Elem())
					}
				case vt == roT:
					for _, o := range s.readOptions(mdOf(t), false) {
						args = append(args, reflect.ValueOf(&o).Elem())
					}
				case vt.Elem().Kind() == reflect.String:
					for k := s.r.Intn(3); k >= 0; k-- {
						args = append(args, reflect.ValueOf([]string{"a", "b", "c", "d"}[s.r.Intn(4)]).Convert(vt.Elem()))
					}
				}
			}
			for _, o := range m.Call(args) {
				protos(o, func(m proto.Message) { s.hold(m, false, "result of "+name) }, 4)
			}
		}})
	}
	return out
}

func pullOps(d tm.Dev) []op {
	var out []op
	for _, p := range tm.Pulls(d.Model) {
		var md protoreflect.MessageDescriptor
		for i, v := 0, reflect.ValueOf(d.Model); i < v.NumMethod(); i++ {
			// masks of what it reads: the write of the same thing
			if isWrite(v.Type().Method(i).Name) {
				if t := typesOf(v.Method(i).Type()); t != nil && md == nil {
					md = mdOf(t)
				}
			}
		}
		out = append(out, op{"model." + p.Name, true, func(s *session) {
			if s.nsub >= 4 {
				return
			}
			s.nsub++
			c := p.Open(s.ctx, s.ids[s.r.Intn(len(s.ids))], s.readOptions(md, true)...)
			go func() {
				for {
					v, ok := c.Recv()
					if !ok {
						return
					}
					protos(v, func(m proto.Message) { s.arrived(m, "change of "+p.Name) }, 4)
				}
			}()
		}})
	}
	return out
}

// request for a method.
func (s *session) request(m tm.Method) proto.Message {
	s.shared = false
	req := s.message(reflect.TypeOf(m.In.Zero().Interface()))
	rm := req.ProtoReflect()
	if fd := rm.Descriptor().Fields().ByName("name"); fd != nil {
		rm.Set(fd, protoreflect.ValueOfString("1"))
	}
	for i := 0; i < rm.Descriptor().Fields().Len(); i++ {
		fd := rm.Descriptor().Fields().Get(i)
		if fd.Message() != nil && !fd.IsList() && !fd.IsMap() && !rm.Has(fd) && fd.ContainingOneof() == nil && isWrite(m.Name) && !strings.HasSuffix(string(fd.Name()), "_mask") {
			rm.Mutable(fd)
			s.fix(rm)
		}
	}
	for i := 0; i < rm.Descriptor().Fields().Len(); i++ {
		fd := rm.Descriptor().Fields().Get(i)
		if fd.Message() != nil && !fd.IsList() && !fd.IsMap() && rm.Has(fd) && m.Name != "CreateMode" {
			if h := s.handed(reflect.TypeOf(rm.Get(fd).Message().Interface())); h != nil {
				rm.Set(fd, protoreflect.ValueOfMessage(h.ProtoReflect()))
				s.shared = true
			}
		}
	}
	if m.Name == "CreateMode" {
		mode := rm.Descriptor().Fields().ByName("mode")
		x := rm.Mutable(mode).Message()
		x.Clear(x.Descriptor().Fields().ByName("id"))
	}
	for _, n := range []string{"read_mask", "update_mask"} {
		if fd := rm.Descriptor().Fields().ByName(protoreflect.Name(n)); fd != nil {
			md := m.OutMD
			if cf := md.Fields().ByName("changes"); m.ServerStream && cf != nil {
				for i := 0; i < cf.Message().Fields().Len(); i++ {
					if x := cf.Message().Fields().Get(i); x.Message() != nil && x.Name() != "change_time" {
						md = x.Message()
					}
				}
			}
			if k := s.mask(md); k != nil {
				rm.Set(fd, protoreflect.ValueOfMessage(k.ProtoReflect()))
			}
		}
	}
	return req
}

func rpcOps(d tm.Dev) []op {
	var out []op
	for _, svc := range d.Svcs {
		conn := svc.Conn()
		for _, m := range tm.Methods(svc.Desc.ServiceName) {
			fn := reflect.ValueOf(svc.Srv).MethodByName(m.Name)
			ro := !isWrite(m.Name)
			for _, p := range []string{"Get", "List", "Describe", "Pull"} {
				if strings.HasPrefix(m.Name, p) {
					ro = true
				}
			}
			if !ro || !(strings.HasPrefix(m.Name, "Get") || strings.HasPrefix(m.Name, "List") || strings.HasPrefix(m.Name, "Describe") || strings.HasPrefix(m.Name, "Pull")) {
				ro = false
			}
			if m.ServerStream {
				out = append(out, op{"rpc." + m.Name, ro, func(s *session) {
					if s.nsub >= 4 {
						return
					}
					s.nsub++
					req := s.request(m)
					s.hold(req, !s.shared, "request of "+m.Name)
					st, err := conn.NewStream(s.ctx, &grpc.StreamDesc{ServerStreams: true}, m.Full)
					if err != nil {
						return
					}
					if st.SendMsg(req) != nil || st.CloseSend() != nil {
						return
					}
					go func() {
						for {
							res := m.Out.New().Interface()
							if st.RecvMsg(res) != nil {
								return
							}
							s.arrived(res, "response of "+m.Name)
						}
					}()
				}})
				continue
			}
			if m.ClientStream {
				continue
			}
			out = append(out, op{"rpc." + m.Name, ro, func(s *session) {
				req := s.request(m)
				s.hold(req, !s.shared, "request of "+m.Name)
				res := fn.Call([]reflect.Value{reflect.ValueOf(s.ctx), reflect.ValueOf(req)})
				if err, _ := res[1].Interface().(error); err == nil {
					protos(res[0], func(x proto.Message) { s.hold(x, false, "response of "+m.Name) }, 4)
				}
			}})
		}
	}
	return out
}

// state is all that can be read of the device.
func (s *session) state() int {
	var sb strings.Builder
	add := func(m proto.Message) { sb.WriteString(look(m)); sb.WriteByte('|') }
	call := func(fn reflect.Value, args ...reflect.Value) {
		vlib.Catch(func() {
			for _, o := range fn.Call(args) {
				protos(o, add, 4)
			}
		})
		sb.WriteByte('/')
	}
	if s.dev.Model != nil {
		v := reflect.ValueOf(s.dev.Model)
		for i := 0; i < v.NumMethod(); i++ {
			name, m := v.Type().Method(i).Name, v.Method(i)
			mt := m.Type()
			n := mt.NumIn()
			if mt.IsVariadic() {
				n--
			}
			if isWrite(name) || strings.HasPrefix(name, "Pull") || name == "DeriveValues" {
				continue
			}
			switch {
			case n == 0:
				call(m)
			case n == 1 && mt.In(0).Kind() == reflect.String:
				for _, id := range s.ids {
					call(m, reflect.ValueOf(id).Convert(mt.In(0)))
				}
			case n == 2 && mt.In(0).Kind() == reflect.Int && mt.In(1).Kind() == reflect.Int:
				call(m, reflect.ValueOf(0), reflect.ValueOf(100))
			}
		}
	}
	for _, svc := range s.dev.Svcs {
		for _, m := range tm.Methods(svc.Desc.ServiceName) {
			if m.ServerStream || m.ClientStream || !(strings.HasPrefix(m.Name, "Get") || strings.HasPrefix(m.Name, "List") || strings.HasPrefix(m.Name, "Describe")) {
				continue
			}
			fn := reflect.ValueOf(svc.Srv).MethodByName(m.Name)
			for _, id := range s.ids {
				req := m.In.New()
				for _, n := range []string{"name", "id", "consumable"} {
					if fd := req.Descriptor().Fields().ByName(protoreflect.Name(n)); fd != nil && fd.Kind() == protoreflect.StringKind {
						req.Set(fd, protoreflect.ValueOfString(id))
					}
				}
				call(fn, reflect.ValueOf(s.ctx), reflect.ValueOf(req.Interface()))
			}
		}
	}
	return s.num(sb.String())
}

// scramble modifies a message and all it refers to, in place.
func scramble(m protoreflect.Message, r *rand.Rand, depth int) {
	if depth == 0 {
		return
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			mp := v.Map()
			var keys []protoreflect.MapKey
			mp.Range(func(k protoreflect.MapKey, x protoreflect.Value) bool {
				if fd.MapValue().Message() != nil {
					scramble(x.Message(), r, depth-1)
				} else {
					keys = append(keys, k)
				}
				return true
			})
			for _, k := range keys {
				mp.Set(k, other(fd.MapValue(), mp.Get(k)))
			}
		case fd.IsList():
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				if fd.Message() != nil {
					scramble(l.Get(i).Message(), r, depth-1)
				} else {
					l.Set(i, other(fd, l.Get(i)))
				}
			}
			if l.Len() > 1 && r.Intn(2) == 0 {
				a, b := l.Get(0), l.Get(1)
				l.Set(0, b)
				l.Set(1, a)
			}
		case fd.Message() != nil:
			scramble(v.Message(), r, depth-1)
		default:
			m.Set(fd, other(fd, v))
		}
		return true
	})
	// what isn't set is set, too
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !m.Has(fd) && fd.Kind() == protoreflect.StringKind && !fd.IsList() && !fd.IsMap() && fd.ContainingOneof() == nil {
			m.Set(fd, protoreflect.ValueOfString("scrambled"))
		}
	}
}

func other(fd protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(!v.Bool())
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(v.Enum() + 1)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(v.Int()) + 7)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(v.Int() + 7)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(v.Uint()) + 7)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(v.Uint() + 7)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(v.Float()) + 7)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(v.Float() + 7)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(v.String() + "~")
	case protoreflect.BytesKind:
		b := v.Bytes()
		for i := range b {
			b[i] ^= 1
		}
		return protoreflect.ValueOfBytes(b)
	}
	return v
}

func run(c tm.Ctor, i int, r *rand.Rand) *vlib.Session {
	s := &session{Session: &vlib.Session{ID: fmt.Sprintf("%s-%d", c.Name, i)}, r: r, digest: map[string]int{}, known: map[proto.Message]bool{}}
	s.Cfg = M{"dev": c.Name}
	s.dev = c.New()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s.ctx = ctx
	s.ids = []string{"1", "2", "3"}
	if h, ok := s.dev.Model.(*hailpb.Model); ok {
		for _, x := range h.ListHails() {
			s.ids[0] = x.Id
		}
	}
	ops := append(append(modelOps(s.dev), pullOps(s.dev)...), rpcOps(s.dev)...)
	var subs, others []op
	for _, o := range ops {
		if strings.Contains(o.name, ".Pull") {
			subs = append(subs, o)
		} else {
			others = append(others, o)
		}
	}
	s.was = s.state()
	s.Add(M{"e": "start", "state": s.was, "now": []int{}})
	for k := 0; k < 40; k++ {
		if r.Intn(4) == 0 {
			var mine []int
			for j, h := range s.held {
				if h.mine {
					mine = append(mine, j)
				}
			}
			if len(mine) > 0 {
				// rather one that was handed over lately
				j := mine[len(mine)-1-r.Intn(min(len(mine), 4))]
				scramble(s.held[j].m.ProtoReflect(), r, 6)
				s.log(M{"e": "mutate", "i": j, "op": "modification of " + s.held[j].what, "ro": true}, j)
				continue
			}
		}
		o := others[r.Intn(len(others))]
		if len(subs) > 0 && r.Intn(8) == 0 {
			o = subs[r.Intn(len(subs))]
		}
		t0 := time.Now()
		panicked := vlib.CatchTimeout(10*time.Second, func() { o.do(s) })
		if d := time.Since(t0); d > 300*time.Millisecond && os.Getenv("SLOW") != "" {
			fmt.Fprintln(os.Stderr, "SLOW", s.ID, o.name, d)
		}
		s.collect()
		s.log(M{"e": "op", "op": o.name, "ro": o.ro, "panic": panicked}, -1)
		if panicked != "" {
			break // not ours, but locks may be held
		}
	}
	what := make([]string, len(s.held))
	for j, h := range s.held {
		what[j] = h.what
	}
	s.Cfg = M{"dev": c.Name, "what": what}
	return s.Session
}

// log an event, with what has changed for the reader.
func (s *session) log(ev M, mutated int) {
	state, now := s.state(), s.now()
	changed := []string{}
	for i, d := range s.last {
		if i != mutated && now[i] != d {
			changed = append(changed, s.held[i].what)
		}
	}
	if ev["ro"].(bool) && state != s.was {
		changed = append(changed, "state")
	}
	ev["state"], ev["now"], ev["changed"] = state, now, changed
	s.last, s.was = now, state
	s.Add(ev)
}

func main() {
	var w, of int
	fmt.Sscanf(os.Args[1], "%d/%d", &w, &of)
	out := vlib.NewOut()
	defer out.Close()
	rnd := rand.New(rand.NewSource(vlib.Seed()*1000003 + int64(w)))
	ctors := append(cores(), tm.All()...)
	if len(os.Args) > 2 {
		for _, c := range ctors {
			for _, o := range append(append(modelOps(c.New()), pullOps(c.New())...), rpcOps(c.New())...) {
				fmt.Println(c.Name, o.name, o.ro)
			}
		}
		return
	}
	for i := 0; i < vlib.N(8, 200); i++ {
		for _, c := range ctors {
			out.Write(run(c, i*of+w, rand.New(rand.NewSource(rnd.Int63()))))
		}
	}
}
