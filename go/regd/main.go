// regd uses every trait server that has a resource with Get, Update and Pull the way a client behind
// WrapApi(router(WrapApi(server))) does, and records the answers and what the streams say (C14).
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-golang/internal/verif/rtab"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
)

type M = vlib.M
type A = []any

// register is a resource of a device: how to get, pull and change it.
type register struct {
	dev      string
	ctor     tm.Ctor
	msg      protoreflect.MessageType
	get      *tm.Method
	pull     *tm.Method
	update   *tm.Method // nil if only the model can change it
	writer   string     // method of the model
	extra    []*tm.Method
	change   protoreflect.FieldDescriptor // of the pull response's changes: the value
	schema   map[string]M
	loose    []string
	seedless []string // left out of initial values of streams, by documentation
	plain    bool
}

func (r *register) name() string { return r.dev + "/" + strings.TrimPrefix(r.get.Name, "Get") }

func fieldOf(md protoreflect.MessageDescriptor, t protoreflect.FullName) protoreflect.FieldDescriptor {
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		if fd.Message() != nil && !fd.IsList() && !fd.IsMap() && fd.Message().FullName() == t {
			return fd
		}
	}
	return nil
}

// registers finds the resources of all devices.
func registers() []*register {
	var out []*register
	for _, c := range append(tm.All(), more...) {
		d := c.New()
		var ms []tm.Method
		for _, s := range d.Svcs {
			ms = append(ms, tm.Methods(s.Desc.ServiceName)...)
		}
		for i := range ms {
			g := &ms[i]
			if !strings.HasPrefix(g.Name, "Get") || g.ServerStream || g.ClientStream {
				continue
			}
			t := g.OutMD.FullName()
			r := &register{dev: c.Name, ctor: c, msg: g.Out, get: g}
			for j := range ms {
				m := &ms[j]
				if m.ServerStream {
					cf := m.OutMD.Fields().ByName("changes")
					if cf == nil || cf.Message().Fields().ByName("type") != nil {
						continue
					}
					if fd := fieldOf(cf.Message(), t); fd != nil {
						r.pull, r.change = m, fd
					}
					continue
				}
				if m.OutMD.FullName() != t {
					continue
				}
				switch {
				case m.Name == "Update"+strings.TrimPrefix(g.Name, "Get") && fieldOf(m.InMD, t) != nil:
					r.update = m
				case strings.HasPrefix(m.Name, "Get"), strings.HasPrefix(m.Name, "Create"), strings.HasPrefix(m.Name, "Delete"), strings.HasPrefix(m.Name, "Describe"), strings.HasPrefix(m.Name, "Update"):
				default:
					r.extra = append(r.extra, m)
				}
			}
			if r.pull == nil {
				continue
			}
			if r.update == nil {
				r.writer = writer(d.Model, r.msg)
				if r.writer == "" {
					continue
				}
			}
			r.schema = vlib.Schema(g.OutMD, 3)
			r.loose = []string{}
			if c.Name == "energystorage" {
				r.loose = times("", g.OutMD, 3) // equivalent when within a second
			}
			if c.Name == "enterleave" {
				r.seedless = []string{"occupant", "direction"}
			}
			r.plain = plain[c.Name] || r.name() == "electric/Demand"
			out = append(out, r)
		}
	}
	return out
}

// what updates write is all that happens to these
var plain = map[string]bool{"access": true, "airquality": true, "energystorage": true, "hail": true, "metadata": true,
	"metadata-collection": true, "meter": true, "mode": true, "occupancy": true, "onoff": true, "press": true, "speaker-memory": true, "vending": true}

var woT = reflect.TypeOf((*proto.Message)(nil)).Elem()

// writer finds a method of the model that is given a message of this type.
func writer(model any, t protoreflect.MessageType) string {
	if model == nil {
		return ""
	}
	v := reflect.ValueOf(model)
	best := ""
	for i := 0; i < v.NumMethod(); i++ {
		m := v.Type().Method(i)
		is := false
		for _, p := range []string{"Update", "Set", "Create", "Add", "Record"} {
			is = is || strings.HasPrefix(m.Name, p)
		}
		mt := v.Method(i).Type()
		n := mt.NumIn()
		if mt.IsVariadic() {
			n--
		}
		if !is || n == 0 || mt.In(n-1) != reflect.TypeOf(t.Zero().Interface()) {
			continue
		}
		if n == 2 && mt.In(0).Kind() != reflect.String || n > 2 {
			continue
		}
		if best == "" || strings.HasPrefix(m.Name, "Update") {
			best = m.Name
		}
	}
	return best
}

func times(pfx string, md protoreflect.MessageDescriptor, depth int) []string {
	out := []string{}
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		if fd.IsList() || fd.IsMap() || fd.Message() == nil {
			continue
		}
		switch fd.Message().FullName() {
		case "google.protobuf.Timestamp", "google.protobuf.Duration":
			out = append(out, pfx+string(fd.Name()))
		default:
			if depth > 1 {
				out = append(out, times(pfx+string(fd.Name())+".", fd.Message(), depth-1)...)
			}
		}
	}
	return out
}

// client is WrapApi(router(WrapApi(server))) with the server under the given names, by service.
func client(d tm.Dev, names ...string) map[string]reflect.Value {
	out := map[string]reflect.Value{}
	for _, s := range d.Svcs {
		for _, e := range rtab.All {
			if e.Desc.ServiceName != s.Desc.ServiceName {
				continue
			}
			rt := e.Router()
			for _, n := range names {
				rt.Add(n, e.Wrap(s.Srv))
			}
			out[s.Desc.ServiceName] = reflect.ValueOf(e.Wrap(rt))
		}
		if !out[s.Desc.ServiceName].IsValid() {
			fmt.Fprintln(os.Stderr, "no router for", s.Desc.ServiceName)
			os.Exit(3)
		}
	}
	return out
}

type stream struct {
	name   string
	uo     bool
	mask   *fieldmaskpb.FieldMask
	cancel context.CancelFunc
	ch     chan change
	owed   int
	got    int
	done   bool
}

type change struct {
	name string
	v    protoreflect.Message
	err  error
}

type session struct {
	*vlib.Session
	reg     *register
	dev     tm.Dev
	cl      map[string]reflect.Value
	r       *rand.Rand
	names   []string
	id      string
	cur     proto.Message
	streams []*stream
	bad     bool
}

// steps: an update changes one item of the register after the other.
func (s *session) steps() bool { return strings.HasPrefix(s.reg.dev, "openclose") }

func set(m protoreflect.Message, field string, v any) {
	fd := m.Descriptor().Fields().ByName(protoreflect.Name(field))
	if fd == nil {
		return
	}
	switch v := v.(type) {
	case proto.Message:
		if v.ProtoReflect().IsValid() {
			m.Set(fd, protoreflect.ValueOfMessage(v.ProtoReflect()))
		}
	case string:
		if fd.Kind() == protoreflect.StringKind && !fd.IsList() {
			m.Set(fd, protoreflect.ValueOfString(v))
		}
	case bool:
		m.Set(fd, protoreflect.ValueOfBool(v))
	}
}

// keys names what requests and messages are about.
func (s *session) keys(m protoreflect.Message) {
	for _, f := range []string{"id", "consumable"} {
		set(m, f, s.id)
	}
}

func (s *session) request(m *tm.Method) protoreflect.Message {
	req := m.In.New()
	set(req, "name", s.names[s.r.Intn(len(s.names))])
	s.keys(req)
	return req
}

// call of a unary method; the answer and its status
func (s *session) call(m *tm.Method, req protoreflect.Message) (proto.Message, string) {
	var res proto.Message
	var code string
	p := vlib.CatchTimeout(10*time.Second, func() {
		out := s.cl[string(m.SD.FullName())].MethodByName(m.Name).Call([]reflect.Value{reflect.ValueOf(context.Background()), reflect.ValueOf(req.Interface())})
		err, _ := out[1].Interface().(error)
		code = vlib.Code(err)
		if err == nil {
			res = out[0].Interface().(proto.Message)
		}
	})
	if p != "" {
		s.Add(M{"e": "panic", "m": m.Name, "msg": p})
		s.bad = true
	}
	return res, code
}

func maskOf(m *fieldmaskpb.FieldMask) M {
	if m == nil {
		return M{"nil": true, "p": []string{}}
	}
	return M{"nil": false, "p": append([]string{}, m.Paths...)}
}

// someMask is nil, or some paths of the message.
func (s *session) someMask(p float64, bad bool) *fieldmaskpb.FieldMask {
	if s.r.Float64() > p {
		return nil
	}
	var all []string
	for k := range s.reg.schema {
		all = append(all, k)
	}
	sort.Strings(all)
	m := &fieldmaskpb.FieldMask{}
	for n := s.r.Intn(3); n >= 0; n-- {
		m.Paths = append(m.Paths, all[s.r.Intn(len(all))])
	}
	if bad && s.r.Intn(8) == 0 {
		m.Paths = append(m.Paths, "no_such_field")
	}
	return m
}

func (s *session) get(mask *fieldmaskpb.FieldMask) proto.Message {
	req := s.request(s.reg.get)
	set(req, "read_mask", mask)
	v, code := s.call(s.reg.get, req)
	if s.bad {
		return nil
	}
	s.Add(M{"e": "get", "mask": maskOf(mask), "code": code, "v": flatOr(v)})
	if mask == nil {
		s.cur = v
	}
	return v
}

func flatOr(m proto.Message) any {
	if m == nil {
		return map[string][]string{"!nil": {}}
	}
	return vlib.Flat(m)
}

func (s *session) open(uo bool, mask *fieldmaskpb.FieldMask) {
	ctx, cancel := context.WithCancel(context.Background())
	st := &stream{name: s.names[s.r.Intn(len(s.names))], uo: uo, mask: mask, cancel: cancel, ch: make(chan change, 10000)}
	req := s.request(s.reg.pull)
	set(req, "name", st.name)
	set(req, "read_mask", mask)
	set(req, "updates_only", uo)
	var c reflect.Value
	code := ""
	p := vlib.CatchTimeout(10*time.Second, func() {
		out := s.cl[string(s.reg.pull.SD.FullName())].MethodByName(s.reg.pull.Name).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req.Interface())})
		err, _ := out[1].Interface().(error)
		c, code = out[0], vlib.Code(err)
	})
	if p != "" {
		s.Add(M{"e": "panic", "m": s.reg.pull.Name, "msg": p})
		s.bad = true
		return
	}
	n := len(s.streams)
	s.streams = append(s.streams, st)
	s.Add(M{"e": "open", "n": n, "name": st.name, "uo": uo, "mask": maskOf(mask), "code": code})
	if code != "OK" {
		s.bad = true
		return
	}
	recv := c.MethodByName("Recv")
	go func() {
		for {
			out := recv.Call(nil)
			if err, _ := out[1].Interface().(error); err != nil {
				st.ch <- change{err: err}
				return
			}
			res := out[0].Interface().(proto.Message).ProtoReflect()
			l := res.Get(res.Descriptor().Fields().ByName("changes")).List()
			for i := 0; i < l.Len(); i++ {
				x := l.Get(i).Message()
				st.ch <- change{name: x.Get(x.Descriptor().Fields().ByName("name")).String(), v: x.Get(s.reg.change).Message()}
			}
		}
	}()
	if !uo && !(s.steps() && len(vlib.Flat(s.cur)) == 1) {
		s.await(n, s.cur, 3*time.Second, true)
	} else {
		time.Sleep(5 * time.Millisecond)
	}
}

// strict is what of m has to be told on a stream.
func (s *session) strict(m proto.Message, mask *fieldmaskpb.FieldMask) string {
	if m == nil {
		return "nil"
	}
	f := vlib.Flat(m)
	var l []string
	under := func(p, q string) bool {
		return p == q || strings.HasPrefix(p, q+".") || strings.HasPrefix(p, q+"[")
	}
next:
	for p, v := range f {
		if p == "" {
			continue
		}
		for _, q := range append(append([]string{}, s.reg.loose...), s.reg.seedless...) {
			if under(p, q) {
				continue next
			}
		}
		if mask != nil {
			in := false
			for _, q := range mask.Paths {
				in = in || under(p, q)
			}
			if !in {
				continue
			}
		}
		l = append(l, fmt.Sprint(p, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (s *session) recv(n int, c change) {
	st := s.streams[n]
	if c.err != nil {
		st.done = true
		msg := ""
		if c.err != io.EOF {
			msg = c.err.Error()
		}
		s.Add(M{"e": "ended", "n": n, "code": vlib.Code(c.err), "msg": msg})
		return
	}
	st.got++
	s.Add(M{"e": "recv", "n": n, "name": c.name, "v": vlib.Flat(c.v.Interface())})
}

// await receives from a stream until it says want.
func (s *session) await(n int, want proto.Message, d time.Duration, must bool) {
	st := s.streams[n]
	t := time.NewTimer(vlib.Patience(d))
	defer t.Stop()
	for !st.done {
		select {
		case c := <-st.ch:
			s.recv(n, c)
			if c.err == nil && s.strict(c.v.Interface(), st.mask) == s.strict(want, st.mask) {
				return
			}
		case <-t.C:
			if must {
				vlib.Expired()
			}
			return
		}
	}
}

// settle waits for what the streams have to say about a change of the register.
func (s *session) settle(before, after proto.Message) {
	for n, st := range s.streams {
		if st.done {
			continue
		}
		if before != nil && s.strict(before, st.mask) == s.strict(after, st.mask) {
			continue
		}
		st.owed++
		if st.uo && st.got == 0 && st.owed <= 2 {
			s.await(n, after, 100*time.Millisecond, false)
		} else {
			s.await(n, after, 3*time.Second, true)
		}
	}
	s.Add(M{"e": "settled"})
}

// drain records what streams have already said.
func (s *session) drain() {
	for n, st := range s.streams {
		for more := true; more && !st.done; {
			select {
			case c := <-st.ch:
				s.recv(n, c)
			default:
				more = false
			}
		}
	}
}

// someMessage is a message to write.
func (s *session) someMessage() proto.Message {
	m := s.reg.msg.New().Interface()
	if s.r.Intn(4) == 0 && s.cur != nil {
		m = proto.Clone(s.cur)
	}
	vlib.Gen{R: s.r, P: []float64{0.3, 0.6, 0.9}[s.r.Intn(3)], Depth: 3}.Fill(m)
	tm.Fix(s.r, m)
	rm := m.ProtoReflect()
	s.keys(rm)
	if rm.Descriptor().Fields().ByName("id") != nil && s.id == "" {
		set(rm, "id", []string{"1", "2", "2", "3"}[s.r.Intn(4)])
	}
	calm(rm)
	if s.reg.dev == "fanspeed" && s.r.Intn(4) > 0 {
		set(rm, "preset", []string{"", "off", "low", "full"}[s.r.Intn(4)])
	}
	return m
}

// calm removes ramps: they change the register in their own time.
func calm(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case strings.Contains(string(fd.Name()), "tween"):
			m.Clear(fd)
		case fd.IsList() && fd.Message() != nil:
			for i := 0; i < v.List().Len(); i++ {
				calm(v.List().Get(i).Message())
			}
		case fd.Message() != nil && !fd.IsMap():
			calm(v.Message())
		}
		return true
	})
}

func (s *session) write() {
	before := s.cur
	var resp proto.Message
	var code, op string
	var src proto.Message
	mask := s.someMask(0.5, true)
	delta := false
	hasResp := true
	reg := s.reg
	switch {
	case len(reg.extra) > 0 && s.r.Intn(6) == 0:
		m := reg.extra[s.r.Intn(len(reg.extra))]
		req := s.request(m)
		filler := m.In.New()
		vlib.Gen{R: s.r, P: 0.6, Depth: 3}.Fill(filler.Interface())
		filler.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch fd.Name() {
			case "name", "id", "consumable", "update_mask":
			default:
				req.Set(fd, v)
			}
			return true
		})
		if vd := reg.msg.Descriptor().Fields().ByName("version"); vd != nil && s.cur != nil && s.r.Intn(4) > 0 {
			set(req, "version", s.cur.ProtoReflect().Get(vd).String())
		}
		op = m.Name
		resp, code = s.call(m, req)
	case reg.update != nil:
		src = s.someMessage()
		req := s.request(reg.update)
		req.Set(fieldOf(reg.update.InMD, reg.msg.Descriptor().FullName()), protoreflect.ValueOfMessage(proto.Clone(src).ProtoReflect()))
		set(req, "update_mask", mask)
		for _, f := range []string{"delta", "relative"} {
			if fd := reg.update.InMD.Fields().ByName(protoreflect.Name(f)); fd != nil && s.r.Intn(4) == 0 {
				if fd.Kind() == protoreflect.BoolKind {
					set(req, f, true)
				} else {
					vlib.Gen{R: s.r, P: 1, Depth: 2}.Fill(req.Mutable(fd).Message().Interface())
					calmModes(req.Mutable(fd).Message())
				}
				delta = true
			}
		}
		if s.r.Intn(6) == 0 {
			set(req, "version", "p")
		}
		op = reg.update.Name
		resp, code = s.call(reg.update, req)
	default:
		src = s.someMessage()
		op = reg.writer
		p := vlib.CatchTimeout(10*time.Second, func() {
			m := reflect.ValueOf(s.dev.Model).MethodByName(reg.writer)
			var args []reflect.Value
			if m.Type().NumIn() > 2 || m.Type().NumIn() == 2 && !m.Type().IsVariadic() {
				args = append(args, reflect.ValueOf(s.names[0]))
			}
			args = append(args, reflect.ValueOf(proto.Clone(src)))
			if m.Type().IsVariadic() {
				args = append(args, writeMask(mask)...)
			}
			out := m.Call(args)
			err, _ := out[len(out)-1].Interface().(error)
			code = vlib.Code(err)
			hasResp = len(out) > 1
			if hasResp && err == nil {
				resp = out[0].Interface().(proto.Message)
			}
		})
		if p != "" {
			s.Add(M{"e": "panic", "m": op, "msg": p})
			s.bad = true
		}
	}
	if s.bad {
		return
	}
	ev := M{"e": "write", "op": op, "code": code, "resp": flatOr(resp), "hasresp": hasResp, "plain": reg.plain && src != nil && !delta, "mask": maskOf(mask)}
	if src != nil {
		ev["src"] = vlib.Flat(src)
	}
	greq := s.request(reg.get)
	v, gcode := s.call(reg.get, greq)
	if s.bad {
		return
	}
	s.cur = v
	ev["after"], ev["acode"] = flatOr(v), gcode
	s.Add(ev)
	if code == "OK" {
		s.settle(before, v)
	}
}

func run(reg *register, i int, r *rand.Rand) *session {
	s := &session{Session: &vlib.Session{ID: fmt.Sprintf("%s-%d", reg.name(), i)}, reg: reg, r: r, names: []string{"1", "dev", "x/y"}}
	if reg.dev == "metadata-collection" {
		s.names = s.names[:1]
	}
	s.Cfg = M{"reg": reg.name(), "loose": append(append([]string{}, reg.loose...), reg.seedless...), "seedless": append([]string{}, reg.seedless...),
		"steps": s.steps()} // an update changes one position after the other
	s.dev = reg.ctor.New()
	s.cl = client(s.dev, s.names...)
	for _, f := range []string{"id", "consumable"} {
		if reg.get.InMD.Fields().ByName(protoreflect.Name(f)) != nil {
			s.id = "1"
			if reg.dev == "hail" {
				s.id = hailID(s.dev)
			}
		}
	}
	s.get(nil)
	for k := 0; k < 14 && !s.bad; k++ {
		switch n := r.Intn(10); {
		case n < 2 && len(s.streams) < 3:
			s.open(r.Intn(3) == 0, s.someMask(0.4, false))
		case n < 4:
			s.get(s.someMask(0.8, false))
		default:
			s.write()
		}
		s.drain()
	}
	if !s.bad {
		time.Sleep(time.Millisecond)
		s.drain()
	}
	for _, st := range s.streams {
		st.cancel()
	}
	return s
}

func main() {
	var w, of int
	fmt.Sscanf(os.Args[1], "%d/%d", &w, &of)
	out := vlib.NewOut()
	defer out.Close()
	rnd := rand.New(rand.NewSource(vlib.Seed()*1000003 + int64(w)))
	regs := registers()
	if len(os.Args) > 2 && os.Args[2] == "list" {
		for _, r := range regs {
			fmt.Println(r.name(), r.update != nil, r.writer, len(r.extra), r.loose)
		}
		return
	}
	if w == 0 {
		all := M{}
		for _, r := range regs {
			all[r.name()] = r.schema
		}
		b, _ := json.Marshal(all)
		if err := os.WriteFile(os.Getenv("VERIF_WORK")+"/schemas.json", b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	for i := 0; i < vlib.N(25, 600); i++ {
		for _, reg := range regs {
			out.Write(run(reg, i*of+w, rand.New(rand.NewSource(rnd.Int63()))).Session)
		}
	}
}
