package main

import (
	"context"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/smart-core-os/sc-golang/internal/verif/rtab"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
)

const patience = 10 * time.Second

func dig(m proto.Message) string {
	h := sha1.Sum([]byte(vlib.Canon(m)))
	return hex.EncodeToString(h[:6])
}

func mdStr(md metadata.MD) string {
	var ks []string
	for k := range md {
		if len(md[k]) > 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q;", k, md[k])
	}
	return b.String()
}

func errM(m M, err error) M {
	st := status.Convert(err)
	m["code"], m["msg"] = st.Code().String(), st.Message()
	m["det"] = ""
	for _, d := range st.Proto().GetDetails() {
		m["det"] = fmt.Sprint(m["det"], d.TypeUrl, hex.EncodeToString(d.Value))
	}
	return m
}

// script is what a client does with a request.
type script struct {
	stream        bool
	hdr, trl      metadata.MD
	msgs          []proto.Message
	err           error
	open, hdrerr  bool
	stall         bool // after the messages nothing happens until the request is cancelled
	fail          int  // the caller cannot receive: the header (-1), the n-th message
	wireOrdered   bool
	cancelOnReach bool
}

func (k *script) m() M {
	kind := "unary"
	if k.stream {
		kind = "stream"
	}
	ds := []string{}
	for _, m := range k.msgs {
		ds = append(ds, dig(m))
	}
	return errM(M{"k": kind, "hdr": mdStr(k.hdr), "trl": mdStr(k.trl), "msgs": ds, "open": k.open, "hdrerr": k.hdrerr,
		"stall": k.stall, "fail": k.fail}, k.err)
}

// bench is a router whose clients record what they are asked and follow the current script.
type bench struct {
	*rt
	mu  sync.Mutex
	cur *script
	ctx context.Context // of the last request a client got
}

type conn struct {
	id string
	b  *bench
}

func (c *conn) got(ctx context.Context, method string, args any) *script {
	c.b.mu.Lock()
	defer c.b.mu.Unlock()
	c.b.ctx = ctx
	req := "?"
	if m, ok := args.(proto.Message); ok {
		req = dig(m)
	}
	c.b.s.Add(M{"e": "call", "c": c.id, "m": method, "req": req})
	return c.b.cur
}

func (c *conn) stalled(ctx context.Context) error {
	select {
	case <-ctx.Done():
		return status.FromContextError(ctx.Err()).Err()
	case <-time.After(vlib.Patience(patience)):
		vlib.Expired()
		return status.Error(codes.Internal, "verif: the request was not cancelled")
	}
}

func (c *conn) Invoke(ctx context.Context, method string, args, reply any, _ ...grpc.CallOption) error {
	k := c.got(ctx, method, args)
	if k.stall {
		return c.stalled(ctx)
	}
	if k.err != nil {
		return k.err
	}
	proto.Merge(reply.(proto.Message), k.msgs[0])
	return nil
}

func (c *conn) NewStream(ctx context.Context, desc *grpc.StreamDesc, method string, _ ...grpc.CallOption) (grpc.ClientStream, error) {
	return &cstream{c: c, ctx: ctx, method: method}, nil
}

type cstream struct {
	c      *conn
	ctx    context.Context
	method string
	k      *script
	n      int
	ended  bool
}

func (s *cstream) SendMsg(m any) error {
	s.k = s.c.got(s.ctx, s.method, m)
	if s.k.open {
		return s.k.err
	}
	return nil
}
func (s *cstream) CloseSend() error         { return nil }
func (s *cstream) Context() context.Context { return s.ctx }
func (s *cstream) Header() (metadata.MD, error) {
	if s.k.hdrerr {
		return nil, s.k.err
	}
	return s.k.hdr, nil
}

// Trailer has something only once the stream ended, as it is with gRPC.
func (s *cstream) Trailer() metadata.MD {
	if s.ended {
		return s.k.trl
	}
	return nil
}
func (s *cstream) RecvMsg(m any) error {
	if s.n < len(s.k.msgs) {
		proto.Merge(m.(proto.Message), s.k.msgs[s.n])
		s.n++
		return nil
	}
	err := s.k.err
	if s.k.stall {
		err = s.c.stalled(s.ctx)
	}
	s.ended = true
	if err == nil {
		return io.EOF
	}
	return err
}

// sstream is the server side of a call as a gRPC server presents it.
type sstream struct {
	ctx     context.Context
	req     proto.Message
	k       *script
	mu      sync.Mutex
	hdrSent bool
	hdr     metadata.MD
	trl     metadata.MD
	msgs    []string
	reach   chan struct{}
	reached bool
}

func (s *sstream) check() {
	if s.hdrSent && len(s.msgs) >= len(s.k.msgs) && !s.reached {
		s.reached = true
		close(s.reach)
	}
}
func (s *sstream) SetHeader(md metadata.MD) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.hdrSent {
		return errors.New("headers already sent")
	}
	s.hdr = metadata.Join(s.hdr, md)
	return nil
}
func (s *sstream) SendHeader(md metadata.MD) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.hdrSent {
		return errors.New("headers already sent")
	}
	if s.k.fail == -1 {
		return status.Error(codes.Unavailable, "caller gone")
	}
	s.hdr, s.hdrSent = metadata.Join(s.hdr, md), true
	s.check()
	return nil
}
func (s *sstream) SetTrailer(md metadata.MD) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.trl = metadata.Join(s.trl, md)
}
func (s *sstream) Context() context.Context { return s.ctx }
func (s *sstream) SendMsg(m any) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.k.fail == -1 || s.k.fail == len(s.msgs)+1 {
		return status.Error(codes.Unavailable, "caller gone")
	}
	s.hdrSent = true
	s.msgs = append(s.msgs, dig(m.(proto.Message)))
	s.check()
	return nil
}
func (s *sstream) RecvMsg(m any) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.req == nil {
		return io.EOF
	}
	proto.Merge(m.(proto.Message), s.req)
	s.req = nil
	return nil
}

type method struct {
	name, full string
	stream     bool
	in, out    protoreflect.MessageType
	clientStr  bool
}

func methods(svc string) []method {
	d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(svc))
	if err != nil {
		panic(err)
	}
	var out []method
	ms := d.(protoreflect.ServiceDescriptor).Methods()
	for i := 0; i < ms.Len(); i++ {
		m := ms.Get(i)
		in, e1 := protoregistry.GlobalTypes.FindMessageByName(m.Input().FullName())
		o, e2 := protoregistry.GlobalTypes.FindMessageByName(m.Output().FullName())
		if e1 != nil || e2 != nil {
			panic(fmt.Sprint(e1, e2))
		}
		out = append(out, method{string(m.Name()), "/" + svc + "/" + string(m.Name()), m.IsStreamingServer(), in, o, m.IsStreamingClient()})
	}
	return out
}

// rpc makes one request for name n and records what became of it.
func (b *bench) rpc(m method, n string, k *script, wrapped string, rnd *rand.Rand) {
	req := m.in.New().Interface()
	vlib.Gen{R: rnd, P: 0.5, Depth: 3}.Fill(req)
	if rnd.Intn(3) == 0 {
		req.ProtoReflect().SetUnknown([]byte{0xf8, 0x3f, byte(rnd.Intn(100))})
	}
	req.ProtoReflect().Set(req.ProtoReflect().Descriptor().Fields().ByName("name"), protoreflect.ValueOfString(n))
	b.mu.Lock()
	b.cur, b.ctx = k, nil
	b.mu.Unlock()
	o := int(b.n.Add(1))
	b.s.Add(M{"e": "rpc", "o": o, "n": n, "m": m.full, "req": dig(req), "s": k.m(), "via": wrapped})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var got M
	p := vlib.CatchTimeout(3*patience, func() {
		if wrapped == "" {
			got = b.direct(ctx, cancel, m, req, k)
		} else {
			got = b.wrapped(ctx, cancel, m, req, k, wrapped)
		}
	})
	if p != "" {
		b.s.Add(M{"e": "panic", "o": o, "p": p})
		return
	}
	got["e"], got["o"] = "done", o
	b.s.Add(got)
}

// reachedIn cancels the call once the caller has everything the client sent so far.
func reachedIn(reach <-chan struct{}, done <-chan struct{}, cancel func()) bool {
	defer cancel()
	select {
	case <-reach:
		return true
	case <-done:
		select {
		case <-reach:
			return true
		default:
			return false
		}
	case <-time.After(vlib.Patience(patience)):
		vlib.Expired()
		return false
	}
}

func (b *bench) direct(ctx context.Context, cancel func(), m method, req proto.Message, k *script) M {
	got := M{"hdr": "", "trl": "", "reached": true, "childdone": true}
	if !m.stream {
		for _, md := range b.e.Desc.Methods {
			if md.MethodName != m.name {
				continue
			}
			if k.stall {
				go func() { // once a client has it
					for i := 0; i < 2000; i++ {
						b.mu.Lock()
						x := b.ctx
						b.mu.Unlock()
						if x != nil {
							break
						}
						time.Sleep(time.Millisecond)
					}
					cancel()
				}()
			}
			resp, err := md.Handler(b.r, ctx, func(dst any) error { proto.Merge(dst.(proto.Message), req); return nil }, nil)
			got["msgs"] = []string{}
			if pm, ok := resp.(proto.Message); ok && err == nil {
				if pm == nil || !pm.ProtoReflect().IsValid() {
					got["msgs"] = []string{"nil"}
				} else {
					got["msgs"] = []string{dig(pm)}
				}
			}
			return errM(got, err)
		}
		return errM(got, status.Error(codes.Unimplemented, "verif: no such method"))
	}
	for _, sd := range b.e.Desc.Streams {
		if sd.StreamName != m.name {
			continue
		}
		ss := &sstream{ctx: ctx, req: req, k: k, reach: make(chan struct{}), msgs: []string{}}
		done := make(chan struct{})
		reached := make(chan bool, 1)
		if k.stall {
			go func() { reached <- reachedIn(ss.reach, done, cancel) }()
		} else {
			reached <- true
		}
		err := sd.Handler(b.r, ss)
		close(done)
		got["reached"] = <-reached
		cancel() // as a gRPC server does when the handler returned
		if err != nil || k.fail != 0 {
			b.mu.Lock()
			cc := b.ctx
			b.mu.Unlock()
			if cc != nil {
				select {
				case <-cc.Done():
				case <-time.After(vlib.Patience(patience)):
		vlib.Expired()
					got["childdone"] = false
				}
			}
		}
		ss.mu.Lock()
		defer ss.mu.Unlock()
		got["hdr"], got["trl"], got["msgs"] = mdStr(ss.hdr), mdStr(ss.trl), ss.msgs
		return errM(got, err)
	}
	return errM(got, status.Error(codes.Unimplemented, "verif: no such stream"))
}

func (b *bench) wrapped(ctx context.Context, cancel func(), m method, req proto.Message, k *script, how string) M {
	got := M{"hdr": "", "trl": "", "reached": true, "childdone": true, "msgs": []string{}}
	w := b.e.Wrap(b.r)
	fn := reflect.ValueOf(w).MethodByName(m.name)
	if !fn.IsValid() {
		return errM(got, status.Error(codes.Unimplemented, "verif: no such method"))
	}
	if k.stall && !m.stream {
		go func() {
			for i := 0; i < 2000; i++ {
				b.mu.Lock()
				x := b.ctx
				b.mu.Unlock()
				if x != nil {
					break
				}
				time.Sleep(time.Millisecond)
			}
			cancel()
		}()
	}
	rs := fn.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
	err, _ := rs[1].Interface().(error)
	if !m.stream {
		if err == nil {
			got["msgs"] = []string{dig(rs[0].Interface().(proto.Message))}
		}
		return errM(got, err)
	}
	if err != nil {
		return errM(got, err)
	}
	cs := rs[0].Interface().(grpc.ClientStream)
	hdr, err := cs.Header()
	if err != nil {
		return errM(got, err)
	}
	got["hdr"] = mdStr(hdr)
	msgs := []string{}
	if k.stall && len(k.msgs) == 0 {
		cancel()
	}
	for {
		dst := m.out.New().Interface()
		if err = cs.RecvMsg(dst); err != nil {
			break
		}
		msgs = append(msgs, dig(dst))
		if k.stall && len(msgs) == len(k.msgs) {
			cancel()
		}
	}
	if err == io.EOF {
		err = nil
	}
	got["msgs"], got["trl"] = msgs, mdStr(cs.Trailer())
	return errM(got, err)
}

func newBench(e *rtab.Entry, id string, fb, fac bool) *bench {
	b := &bench{}
	b.rt = newRT(id, e, func(id string) any { return e.Client(&conn{id, b}) }, fb, fac)
	return b
}

func randMD(rnd *rand.Rand, p string) metadata.MD {
	switch rnd.Intn(4) {
	case 0:
		return nil
	case 1:
		return metadata.MD{}
	}
	md := metadata.MD{}
	for i := rnd.Intn(3); i >= 0; i-- {
		md.Append(p+string(rune('a'+rnd.Intn(3))), fmt.Sprint(rnd.Intn(5)))
	}
	return md
}

func randErr(rnd *rand.Rand, plain bool) error {
	if plain && rnd.Intn(4) == 0 {
		return []error{errors.New("plain"), context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF}[rnd.Intn(4)]
	}
	st := status.New(codes.Code(1+rnd.Intn(16)), []string{"", "no", "some text"}[rnd.Intn(3)])
	if rnd.Intn(3) == 0 {
		st, _ = st.WithDetails(&durationpb.Duration{Seconds: int64(rnd.Intn(9))})
	}
	return st.Err()
}

func scripts(rnd *rand.Rand, m method, wrapped bool) []*script {
	mk := func(n int) *script {
		k := &script{stream: m.stream}
		if m.stream {
			k.hdr, k.trl = randMD(rnd, "h"), randMD(rnd, "t")
		}
		for i := 0; i < n; i++ {
			msg := m.out.New().Interface()
			vlib.Gen{R: rnd, P: 0.5, Depth: 3}.Fill(msg)
			if rnd.Intn(3) == 0 {
				msg.ProtoReflect().SetUnknown([]byte{0xf8, 0x3f, byte(rnd.Intn(100))})
			}
			k.msgs = append(k.msgs, msg)
		}
		return k
	}
	canceled := status.FromContextError(context.Canceled).Err()
	var out []*script
	if !m.stream {
		a, b, c := mk(1), mk(0), mk(0)
		b.err = randErr(rnd, !wrapped)
		c.stall, c.err = true, canceled
		out = append(out, a, b)
		if rnd.Intn(4) == 0 && !wrapped {
			out = append(out, c)
		}
		return out
	}
	ok, empty, bad, none, stall := mk(1+rnd.Intn(4)), mk(0), mk(rnd.Intn(4)), mk(0), mk(rnd.Intn(3))
	bad.err = randErr(rnd, !wrapped)
	none.err = randErr(rnd, !wrapped)
	stall.stall, stall.err = true, canceled
	out = append(out, ok, empty, bad, none)
	if !wrapped {
		out = append(out, stall)
		open, hdrerr, f1, f2 := mk(1), mk(1), mk(2), mk(3)
		open.open, open.err = true, randErr(rnd, true)
		hdrerr.hdrerr, hdrerr.err = true, randErr(rnd, true)
		f1.fail = -1
		f2.fail = 1 + rnd.Intn(3)
		out = append(out, open, hdrerr, f1, f2)
	}
	return out
}

func rpcs(out *vlib.Out, rnd *rand.Rand) {
	for i := range rtab.All {
		e := &rtab.All[i]
		ms := methods(e.Desc.ServiceName)
		for round := 0; round < vlib.N(2, 8); round++ {
			b := newBench(e, fmt.Sprintf("rpc-%s-%d", e.Desc.ServiceName, round), round%2 == 0, round%4 < 2)
			b.do(op{k: "add", n: "a", c: "c0"})
			b.do(op{k: "add", n: "b", c: "c1", typed: true})
			b.do(op{k: "add", n: "", c: "c2"})
			for _, m := range ms {
				for _, how := range []string{"", "client"} {
					for _, k := range scripts(rnd, m, how != "") {
						b.rpc(m, []string{"a", "a", "b", ""}[rnd.Intn(4)], k, how, rnd)
						if rnd.Intn(3) == 0 {
							b.do(randOp(rnd, regNames, true))
						}
					}
					for _, n := range []string{"zz", "f1", "g1", "ge"} {
						ks := scripts(rnd, m, how != "")
						k := ks[rnd.Intn(len(ks))]
						if k.stall || k.fail != 0 {
							k = ks[0]
						}
						b.rpc(m, n, k, how, rnd)
					}
					b.do(op{k: "remove", n: "g1"})
					b.do(op{k: "add", n: "a", c: fmt.Sprintf("c%d", rnd.Intn(4))})
				}
			}
			out.Write(b.s)
		}
		s := &vlib.Session{ID: "wrapped-" + e.Desc.ServiceName, Cfg: M{"fb": false, "fac": false}}
		r := e.Router()
		w := e.Wrap(r)
		uw, _ := w.(interface{ Unwrap() any })
		us, _ := w.(interface {
			UnwrapService() (grpc.ClientConnInterface, grpc.ServiceDesc)
		})
		unwraps := uw != nil && uw.Unwrap() == any(r)
		if v := reflect.ValueOf(w).MethodByName("UnwrapServer"); !v.IsValid() || v.Call(nil)[0].Interface() != any(r) {
			unwraps = false
		}
		desc := ""
		if us != nil {
			_, d := us.UnwrapService()
			desc = d.ServiceName
		}
		reg := &registrar{}
		if v, ok := r.(interface {
			Register(grpc.ServiceRegistrar)
		}); ok {
			v.Register(reg)
		}
		s.Add(M{"e": "wrapped", "svc": e.Desc.ServiceName, "unwraps": unwraps, "desc": desc,
			"registers": len(reg.names) == 1 && reg.names[0] == e.Desc.ServiceName && reg.impl == any(r)})
		out.Write(s)
	}
}

type registrar struct {
	names []string
	impl  any
}

func (r *registrar) RegisterService(d *grpc.ServiceDesc, impl any) {
	r.names, r.impl = append(r.names, d.ServiceName), impl
}

// services: everything the linked API declares must have a router (and be in the table the other histories go through)
func services(out *vlib.Out) {
	s := &vlib.Session{ID: "services", Cfg: M{"fb": false, "fac": false}}
	listed := map[string]*rtab.Entry{}
	for i := range rtab.All {
		listed[rtab.All[i].Desc.ServiceName] = &rtab.All[i]
	}
	var names []string
	protoregistry.GlobalFiles.RangeFiles(func(f protoreflect.FileDescriptor) bool {
		for i := 0; i < f.Services().Len(); i++ {
			sv := f.Services().Get(i)
			if strings.HasPrefix(string(f.Package()), "smartcore.traits") || listed[string(sv.FullName())] != nil {
				names = append(names, string(sv.FullName()))
			}
		}
		return true
	})
	sort.Strings(names)
	for _, n := range names {
		e := listed[n]
		missing := []string{}
		if e != nil {
			have := map[string]bool{}
			for _, m := range e.Desc.Methods {
				have[m.MethodName] = true
			}
			for _, m := range e.Desc.Streams {
				have[m.StreamName] = true
			}
			for _, m := range methods(n) {
				if !have[m.name] {
					missing = append(missing, m.name)
				}
			}
		}
		s.Add(M{"e": "svc", "svc": n, "listed": e != nil, "missing": missing})
	}
	out.Write(s)
}
