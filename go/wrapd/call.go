package main

import (
	"context"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/sched"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
)

type All = testproto.TestAllTypes

func dig(m proto.Message) string {
	h := sha1.Sum([]byte(vlib.Canon(m)))
	return hex.EncodeToString(h[:5])
}

// the same message type as somebody with their own descriptors has it
var twin = func() protoreflect.MessageDescriptor {
	src := (&All{}).ProtoReflect().Descriptor()
	fd, err := protodesc.NewFile(protodesc.ToFileDescriptorProto(src.ParentFile()), resolver{src.ParentFile()})
	if err != nil {
		panic(err)
	}
	return fd.Messages().ByName(src.Name())
}()

type resolver struct{ f protoreflect.FileDescriptor }

func (r resolver) FindFileByPath(p string) (protoreflect.FileDescriptor, error) {
	for i := 0; i < r.f.Imports().Len(); i++ {
		if f := r.f.Imports().Get(i); f.Path() == p {
			return f.FileDescriptor, nil
		}
	}
	return nil, errors.New("no file " + p)
}
func (r resolver) FindDescriptorByName(n protoreflect.FullName) (protoreflect.Descriptor, error) {
	for i := 0; i < r.f.Imports().Len(); i++ {
		f := r.f.Imports().Get(i)
		if d := f.Messages().ByName(n.Name()); d != nil && d.FullName() == n {
			return d, nil
		}
	}
	return nil, errors.New("no " + string(n))
}

// hooked is a message whose sender has finished with it when gate is closed: whoever else looks at it before that waits
// for a while.
type hooked struct {
	*All
	owner int64
	gate  chan struct{}
}

func (h *hooked) ProtoReflect() protoreflect.Message {
	if sched.Goid() != h.owner {
		select {
		case <-h.gate:
		case <-time.After(15 * time.Millisecond):
		}
	}
	return h.All.ProtoReflect()
}

// call is one call and the two sides acting on it.
type call struct {
	id       string
	free     bool
	ops      chan func(*side) // the server's
	retErr   error
	retMsg   proto.Message
	srvEnded chan struct{} // the server's context ended
	cops     chan func()   // the client's
}

// serve runs the server's part.
func (c *call) serve(s *side) {
	for f := range c.ops {
		f(s)
	}
}

type xfer struct {
	sent   *All
	got    proto.Message
	before string // the digest of what was sent
	after  string // of the sender's copy, once it has changed it
}

// an event is written by both sides
var evMu sync.Mutex

func set(e M, k string, v any) {
	evMu.Lock()
	defer evMu.Unlock()
	e[k] = v
}

func outcomeInto(e M, err error) {
	for k, v := range outcome(M{}, err) {
		set(e, k, v)
	}
}

var leakedBefore int
var callNo atomic.Int64

type runner struct {
	*call
	rnd   *rand.Rand
	xfers []*xfer
	xmu   sync.Mutex
}

func (r *runner) msg() *All {
	m := &All{}
	vlib.Gen{R: r.rnd, P: 0.12, Depth: 2}.Fill(m)
	m.DefaultInt64 = r.rnd.Int63n(1 << 40)
	m.RepeatedInt32 = []int32{int32(r.rnd.Intn(9)), 2}
	return m
}

func (r *runner) dst() proto.Message {
	switch r.rnd.Intn(6) {
	case 0:
		return dynamicpb.NewMessage(twin)
	case 1, 2: // one that was used before
		return r.msg()
	}
	return &All{}
}

// sendVia sends m, then changes it: it is the sender's own.
func (r *runner) sendVia(send func(any) error, m *All, x *xfer, hook bool) error {
	var v proto.Message = m
	gate := make(chan struct{})
	if hook {
		v = &hooked{m, sched.Goid(), gate}
	}
	err := send(v)
	m.DefaultString, m.DefaultInt64 = "mine", -1
	m.RepeatedInt32[0] = 77
	if m.DefaultNestedMessage != nil {
		m.DefaultNestedMessage.A = 99
	}
	x.after = dig(m)
	close(gate)
	return err
}

func (r *runner) randMD() metadata.MD {
	md := metadata.MD{}
	for n := r.rnd.Intn(3); n >= 0; n-- {
		switch r.rnd.Intn(6) {
		case 0:
			md.Append("x-b-bin", string([]byte{0, 255, byte(r.rnd.Intn(9))}))
		case 1:
			md.Append("x-d", "a, b")
		case 2:
			md.Append("x-c", "")
		default:
			md.Append("x-a", fmt.Sprint(r.rnd.Intn(9)))
		}
	}
	if r.rnd.Intn(12) == 0 {
		return metadata.MD{}
	}
	return md
}

func (r *runner) retKind() (error, M) {
	st := func(err error) M {
		x := outcome(M{}, err)
		return M{"kind": "status", "code": x["code"], "msg": x["msg"], "det": x["det"]}
	}
	kind := func(k string, err error) (error, M) {
		return err, M{"kind": k, "code": "", "msg": err.Error(), "det": ""}
	}
	s := status.New(codes.Code(1+r.rnd.Intn(16)), []string{"", "no", "naïve\n100% %41", "some text"}[r.rnd.Intn(4)])
	switch r.rnd.Intn(12) {
	case 0, 1, 2:
		return s.Err(), st(s.Err())
	case 3:
		s, _ = s.WithDetails(details)
		return s.Err(), st(s.Err())
	case 4:
		return kind("plain", errors.New("plain text"))
	case 5:
		return kind("cancelled", context.Canceled)
	case 6:
		return kind("deadline", context.DeadlineExceeded)
	case 7:
		return kind("eof", io.EOF)
	case 8:
		err := fmt.Errorf("outer: %w", s.Err())
		return err, M{"kind": "status", "code": s.Code().String(), "msg": err.Error(), "det": ""}
	case 9:
		return kind("cancelled", fmt.Errorf("outer: %w", context.Canceled))
	}
	return nil, M{"kind": "ok", "code": "OK", "msg": "", "det": ""}
}

func run(out *vlib.Out, cc grpc.ClientConnInterface, transport string, sc script, id string, seed int64, gated bool) {
	c := &call{id: fmt.Sprintf("%s-%d", id, callNo.Add(1)), ops: make(chan func(*side), 64), cops: make(chan func(), 64), srvEnded: make(chan struct{})}
	r := &runner{call: c, rnd: rand.New(rand.NewSource(seed))}
	callsMu.Lock()
	calls[c.id] = c
	callsMu.Unlock()
	defer func() { callsMu.Lock(); delete(calls, c.id); callsMu.Unlock() }()
	s := &vlib.Session{ID: id, Cfg: M{"buffers": transport != "wrap"}}
	var evs []M
	stuck := ""
	go func() {
		for f := range c.cops {
			f()
		}
	}()
	var waits []chan struct{}
	wait := func(ds ...chan struct{}) {
		for _, d := range ds {
			if stuck != "" {
				return
			}
			t := time.NewTimer(patience())
			select {
			case <-d:
			case <-t.C:
				stuck = "stuck"
				vlib.Expired()
			}
			t.Stop()
		}
	}
	// step has the client do cf and the server sf, either may be nil
	step := func(e M, cf func(), sf func(*side)) {
		evs = append(evs, e)
		var ds []chan struct{}
		guard := func(side string, f func()) func() {
			d := make(chan struct{})
			ds = append(ds, d)
			return func() {
				defer close(d)
				if p := vlib.Catch(f); p != "" {
					set(e, "panic", side + " " + p)
				}
			}
		}
		if sf != nil {
			var sd *side
			g := guard("server", func() { sf(sd) })
			c.ops <- func(x *side) { sd = x; g() }
		}
		if cf != nil {
			c.cops <- guard("client", cf)
		}
		if gated {
			wait(ds...)
		} else {
			waits = append(waits, ds...)
		}
	}
	ctx := &trig{Context: context.Background(), done: make(chan struct{}), dl: r.rnd.Intn(4) == 0}
	md := r.randMD()
	omd := cloneMD(md)
	omd.Set("x-call", c.id)
	octx := metadata.NewOutgoingContext(ctx, omd)
	var cs grpc.ClientStream
	var hdr, trl metadata.MD
	invoke := sc.Shape == "unary"
	req := r.msg()
	var final = make(chan struct{})
	var finalErr error
	var finalMsg proto.Message = r.dst()
	started := false
	call := M{"e": "call", "shape": sc.Shape, "md": mdM(md), "got": nil}
	readMD := func(sd *side) {
		in, _ := metadata.FromIncomingContext(sd.ctx)
		set(call, "got", mdM(in))
	}
	lazy := sc.Shape == "unary" || sc.Shape == "unarys"
	startFinal := func() {
		if started || invoke {
			return
		}
		started = true
		go func() {
			defer close(final)
			if p := vlib.Catch(func() { finalErr = cs.RecvMsg(finalMsg) }); p != "" {
				finalErr = errors.New(p)
			}
		}()
	}
	callC := func() {
		var err error
		switch sc.Shape {
		case "unary":
			started = true
			go func() {
				defer close(final)
				if p := vlib.Catch(func() {
					finalErr = cc.Invoke(octx, "/verif.Wrap/Unary", req, finalMsg, grpc.Header(&hdr), grpc.Trailer(&trl))
				}); p != "" {
					finalErr = errors.New(p)
				}
			}()
			return
		case "unarys":
			cs, err = cc.NewStream(octx, &grpc.StreamDesc{StreamName: "Unary"}, "/verif.Wrap/Unary")
		case "ss":
			cs, err = cc.NewStream(octx, &grpc.StreamDesc{StreamName: "SS", ServerStreams: true}, "/verif.Wrap/SS")
		case "cs":
			cs, err = cc.NewStream(octx, &grpc.StreamDesc{StreamName: "CS", ClientStreams: true}, "/verif.Wrap/CS")
		case "bidi":
			cs, err = cc.NewStream(octx, &grpc.StreamDesc{StreamName: "Bidi", ServerStreams: true, ClientStreams: true}, "/verif.Wrap/Bidi")
		}
		if err != nil {
			set(call, "panic", "NewStream: " + err.Error())
		}
		omd["x-a"] = []string{"changed"} // the client's own again
	}
	if lazy {
		step(call, callC, nil)
	} else {
		step(call, callC, readMD)
	}
	var ctxSrv context.Context
	early := r.rnd.Intn(2) == 0
	for i, h := range sc.H {
		if stuck != "" || len(evs) > 0 && panicked(evs[len(evs)-1]) {
			break
		}
		if (h == "ret" || h == "cancelled" || h == "deadline") && early && !contains(sc.H[:i], "fin") && !invoke {
			// the client is waiting when it happens
			c.cops <- startFinal
			if gated {
				d := make(chan struct{})
				c.cops <- func() { close(d) }
				wait(d)
				if r.rnd.Intn(2) == 0 {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}
		switch h {
		case "c2s":
			m := req
			if !lazy {
				m = r.msg()
			}
			x := &xfer{sent: m, before: dig(m), after: dig(m)}
			dst := r.dst()
			if lazy {
				dst = &All{}
			}
			hook := r.rnd.Intn(2) == 0
			e := M{"e": "c2s", "m": x.before, "send": "OK", "recv": ""}
			r.xfers = append(r.xfers, x)
			var cf func()
			if !invoke {
				cf = func() { set(e, "send", codeOf(r.sendVia(cs.SendMsg, m, x, hook))) }
			}
			step(e, cf, func(sd *side) {
				ctxSrv = sd.ctx
				if lazy {
					readMD(sd)
				}
				if err := sd.recv(dst); err != nil {
					set(e, "recv", codeOf(err))
				} else {
					set(e, "recv", dig(dst))
					x.got = dst
				}
			})
		case "half":
			e := M{"e": "half", "close": "OK", "recv": "EOF"}
			twice := r.rnd.Intn(4) == 0
			var cf func()
			if !invoke {
				cf = func() {
					set(e, "close", codeOf(cs.CloseSend()))
					if twice {
						set(e, "close", codeOf(cs.CloseSend()))
					}
				}
			}
			var sf func(sd *side)
			if !lazy {
				sf = func(sd *side) { set(e, "recv", codeOf(sd.recv(&All{}))) }
			}
			step(e, cf, sf)
		case "s2c":
			m := r.msg()
			x := &xfer{sent: m, before: dig(m), after: dig(m)}
			dst := r.dst()
			hook := r.rnd.Intn(2) == 0
			e := M{"e": "s2c", "m": x.before, "send": "OK", "recv": ""}
			r.xfers = append(r.xfers, x)
			step(e, func() {
				if err := cs.RecvMsg(dst); err != nil {
					set(e, "recv", codeOf(err))
				} else {
					set(e, "recv", dig(dst))
					x.got = dst
				}
			}, func(sd *side) { set(e, "send", codeOf(r.sendVia(sd.send, m, x, hook))) })
		case "resp":
			m := r.msg()
			x := &xfer{sent: m, before: dig(m), after: dig(m)}
			hook := r.rnd.Intn(2) == 0
			e := M{"e": "resp", "m": x.before, "send": ""}
			r.xfers = append(r.xfers, x)
			step(e, startFinal, func(sd *side) { set(e, "send", codeOf(r.sendVia(sd.send, m, x, hook))) })
		case "seth", "sendh", "sett":
			md := r.randMD()
			if h == "sendh" && r.rnd.Intn(3) == 0 {
				md = nil
			}
			e := M{"e": h, "md": mdM(md), "ok": true}
			step(e, nil, func(sd *side) {
				switch h {
				case "seth":
					set(e, "ok", sd.setHeader(md) == nil)
				case "sendh":
					set(e, "ok", sd.sendHeader(md) == nil)
				case "sett":
					sd.setTrailer(md)
				}
				for k := range md { // the server's own again
					md[k][0] = "changed"
				}
			})
		case "rhdr":
			e := M{"e": "rhdr", "ok": true, "md": nil}
			step(e, func() {
				got, err := cs.Header()
				set(e, "ok", err == nil)
	set(e, "md", mdM(got))
			}, nil)
		case "cancelled", "deadline":
			e := M{"e": "end", "how": h, "srvdone": false}
			step(e, func() {
				if h == "cancelled" {
					ctx.end(context.Canceled)
				} else {
					ctx.end(context.DeadlineExceeded)
				}
			}, func(sd *side) {
				t := time.NewTimer(patience() / 2)
				defer t.Stop()
				select {
				case <-sd.ctx.Done():
					set(e, "srvdone", true)
				case <-t.C:
					vlib.Expired()
				}
			})
		case "srecv":
			e := M{"e": "srecv", "recv": ""}
			step(e, nil, func(sd *side) { set(e, "recv", codeOf(sd.recv(&All{}))) })
		case "ssend":
			e := M{"e": "ssend", "send": ""}
			step(e, nil, func(sd *side) { set(e, "send", codeOf(sd.send(&All{}))) })
		case "ret":
			err, em := r.retKind()
			m := r.msg()
			e := M{"e": "ret", "err": em, "m": dig(m)}
			step(e, nil, func(sd *side) { ctxSrv = sd.ctx; c.retErr, c.retMsg = err, m })
			close(c.ops)
		case "fin":
			e := M{"e": "fin"}
			step(e, func() {
				startFinal()
				t := time.NewTimer(patience())
				defer t.Stop()
				select {
				case <-final:
				case <-t.C:
					vlib.Expired()
					set(e, "panic", "the call does not end")
					return
				}
				outcomeInto(e, finalErr)
				set(e, "m", "")
				if finalErr == nil {
					set(e, "m", dig(finalMsg))
				}
				if !invoke {
					hdr, _ = cs.Header()
					trl = cs.Trailer()
				}
				set(e, "hdr", mdM(hdr))
	set(e, "trl", mdM(trl))
			}, nil)
			if (sc.Shape == "ss" || sc.Shape == "bidi") && r.rnd.Intn(2) == 0 {
				e := M{"e": "again"}
				step(e, func() {
					outcomeInto(e, cs.RecvMsg(&All{}))
					set(e, "m", "")
					hdr, _ = cs.Header()
					set(e, "hdr", mdM(hdr))
	set(e, "trl", mdM(cs.Trailer()))
				}, nil)
			}
		}
	}
	if !gated {
		wait(waits...)
	}
	if stuck != "" {
		// let go of everything before looking at what was recorded
		ctx.end(context.Canceled)
		time.Sleep(20 * time.Millisecond)
	}
	close(c.cops)
	evMu.Lock()
	for _, e := range evs {
		if e["panic"] != nil {
			s.Add(M{"e": "panic", "p": fmt.Sprint(e["panic"])})
			break
		}
		s.Add(e)
		if stuck != "" {
			break
		}
	}
	evMu.Unlock()
	if stuck != "" {
		s.Ev = s.Ev[:0]
		s.Add(M{"e": "stuck", "script": sc})
	} else if ctxSrv != nil {
		ctxdone := false
		select {
		case <-c.srvEnded:
			ctxdone = true
		case <-time.After(patience()):
			vlib.Expired()
		}
		own := true
		for _, x := range r.xfers {
			if x.got == nil {
				continue
			}
			own = own && dig(x.got) == x.before
			if a, ok := x.got.(*All); ok {
				a.DefaultString, a.RepeatedInt32[1], a.DefaultNestedMessage = "theirs", 5, nil
			}
			own = own && dig(x.sent) == x.after
		}
		left := 0
		if transport == "wrap" {
			left = len(vlib.LibGoroutinesAfter(leakedBefore, long)) - leakedBefore
			leakedBefore += left
		}
		s.Add(M{"e": "gone", "leaked": left, "ctxdone": ctxdone, "own": own})
	}
	ctx.end(context.Canceled)
	out.Write(s)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func panicked(e M) bool {
	evMu.Lock()
	defer evMu.Unlock()
	return e["panic"] != nil
}
