// wrapd runs scripted calls over the in-process wrapper, or over a gRPC connection, and records what both sides see (C13).
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
)

type M = vlib.M

const long = 8 * time.Second

func patience() time.Duration { return vlib.Patience(long) }

// calls under way, by id (sent as metadata)
var (
	callsMu sync.Mutex
	calls   = map[string]*call{}
)

func find(ctx context.Context) *call {
	md, _ := metadata.FromIncomingContext(ctx)
	id := strings.Join(md.Get("x-call"), ",")
	callsMu.Lock()
	defer callsMu.Unlock()
	return calls[id]
}

type service interface{ isService() }
type impl struct{}

func (impl) isService() {}

func unary(_ any, ctx context.Context, dec func(any) error, _ grpc.UnaryServerInterceptor) (any, error) {
	c := find(ctx)
	if c == nil {
		return nil, status.Error(codes.DataLoss, "verif: no such call")
	}
	go func() { <-ctx.Done(); close(c.srvEnded) }() // a helper of the handler
	c.serve(&side{ctx: ctx, recv: dec, setHeader: func(md metadata.MD) error { return grpc.SetHeader(ctx, md) },
		sendHeader: func(md metadata.MD) error { return grpc.SendHeader(ctx, md) },
		setTrailer: func(md metadata.MD) { grpc.SetTrailer(ctx, md) }})
	if c.retErr != nil {
		return nil, c.retErr
	}
	return c.retMsg, nil
}

func stream(_ any, ss grpc.ServerStream) error {
	ctx := ss.Context()
	c := find(ctx)
	if c == nil {
		return status.Error(codes.DataLoss, "verif: no such call")
	}
	go func() { <-ctx.Done(); close(c.srvEnded) }()
	c.serve(&side{ctx: ctx, recv: ss.RecvMsg, send: ss.SendMsg, setHeader: ss.SetHeader, sendHeader: ss.SendHeader, setTrailer: ss.SetTrailer})
	return c.retErr
}

var desc = grpc.ServiceDesc{
	ServiceName: "verif.Wrap", HandlerType: (*service)(nil),
	Methods: []grpc.MethodDesc{{MethodName: "Unary", Handler: unary}},
	Streams: []grpc.StreamDesc{
		{StreamName: "SS", Handler: stream, ServerStreams: true},
		{StreamName: "CS", Handler: stream, ClientStreams: true},
		{StreamName: "Bidi", Handler: stream, ServerStreams: true, ClientStreams: true},
	},
}

// side is the server's end of a call.
type side struct {
	ctx        context.Context
	recv, send func(any) error
	setHeader  func(metadata.MD) error
	sendHeader func(metadata.MD) error
	setTrailer func(metadata.MD)
}

// trig is a context that ends when told, the way it is told.
type trig struct {
	context.Context
	done chan struct{}
	mu   sync.Mutex
	err  error
	dl   bool
}

func (t *trig) Done() <-chan struct{} { return t.done }
func (t *trig) Err() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.err
}
func (t *trig) Deadline() (time.Time, bool) { return time.Now().Add(time.Hour), t.dl }
func (t *trig) end(err error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.err == nil {
		t.err = err
		close(t.done)
	}
}

func connect(transport string) (grpc.ClientConnInterface, func()) {
	if transport == "wrap" {
		return wrap.ServerToClient(desc, impl{}), func() {}
	}
	lis := bufconn.Listen(1 << 20)
	srv := grpc.NewServer()
	srv.RegisterService(&desc, impl{})
	go srv.Serve(lis)
	cc, err := grpc.NewClient("passthrough:///x", grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return lis.Dial() }),
		grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return cc, func() { cc.Close(); srv.Stop() }
}

type script struct {
	Shape string   `json:"shape"`
	H     []string `json:"h"`
}

func main() {
	out := vlib.NewOut()
	defer out.Close()
	transport, file := os.Args[1], os.Args[2]
	var pi, pn int
	fmt.Sscanf(os.Args[3], "%d/%d", &pi, &pn)
	cc, stop := connect(transport)
	defer stop()
	rnd := rand.New(rand.NewSource(vlib.Seed()*1000 + int64(pi)))
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	n := -1
	for sc.Scan() {
		n++
		if n%pn != pi {
			continue
		}
		var s script
		if json.Unmarshal(sc.Bytes(), &s) != nil {
			continue
		}
		seed := rnd.Int63()
		run(out, cc, transport, s, fmt.Sprintf("%s-%s-%d", transport, s.Shape, n), seed, true)
		free := true
		for _, h := range s.H {
			if h == "cancelled" || h == "deadline" {
				free = false
			}
		}
		if free && transport == "wrap" {
			for k := 0; k < 2; k++ {
				run(out, cc, transport, s, fmt.Sprintf("%s-free-%s-%d", transport, s.Shape, n), seed+int64(k), false)
			}
		}
	}
	if pi == 0 {
		odd(out, cc, transport)
	}
	if transport == "wrap" {
		pre(out, cc, transport)
	}
}

func codeOf(err error) string {
	if err == nil {
		return "OK"
	}
	if err == io.EOF {
		return "EOF"
	}
	return "error"
}

func outcome(m M, err error) M {
	st := status.Convert(err)
	m["code"], m["msg"], m["det"] = st.Code().String(), st.Message(), ""
	for _, d := range st.Proto().GetDetails() {
		m["det"] = fmt.Sprint(m["det"], d.TypeUrl, string(d.Value))
	}
	switch {
	case err == nil:
		m["cls"] = "OK"
	case err == io.EOF:
		m["cls"] = "EOF"
	case st.Code() == codes.Canceled || errors.Is(err, context.Canceled):
		m["cls"] = "cancelled"
	case st.Code() == codes.DeadlineExceeded || errors.Is(err, context.DeadlineExceeded):
		m["cls"] = "deadline"
	default:
		m["cls"] = "status"
	}
	return m
}

// user metadata only, as the other side sees it
func mdM(md metadata.MD) map[string][]string {
	out := map[string][]string{}
	for k, v := range md {
		k = strings.ToLower(k)
		if strings.HasPrefix(k, "x-") && k != "x-call" && len(v) > 0 {
			out[k] = append(out[k], v...)
		}
	}
	for k, v := range out {
		for i := range v {
			out[k][i] = fmt.Sprintf("%q", v[i])
		}
	}
	return out
}

func cloneMD(md metadata.MD) metadata.MD { return metadata.Join(md) }

// odd: methods that do not exist, methods called as what they are not
func odd(out *vlib.Out, cc grpc.ClientConnInterface, transport string) {
	if transport != "wrap" {
		return
	}
	s := &vlib.Session{ID: transport + "-odd"}
	has := map[string][2]bool{"Unary": {false, false}, "SS": {false, true}, "CS": {true, false}, "Bidi": {true, true}}
	for _, m := range []string{"/verif.Wrap/Unary", "/verif.Wrap/SS", "/verif.Wrap/CS", "/verif.Wrap/Bidi", "/verif.Wrap/None", "/verif.Other/Unary", "Unary", "", "/verif.Wrap/unary", "/verif.Wrap/"} {
		have, known := has[strings.TrimPrefix(m, "/verif.Wrap/")]
		known = known && strings.HasPrefix(m, "/verif.Wrap/")
		for i := 0; i < 5; i++ {
			var err error
			ctx, cancel := context.WithCancel(context.Background())
			if i == 4 {
				if known && have == [2]bool{} {
					cancel()
					continue
				}
				p := vlib.CatchTimeout(long, func() {
					err = cc.Invoke(ctx, m, &testproto.TestAllTypes{}, &testproto.TestAllTypes{})
				})
				cancel()
				s.Add(M{"e": "shape", "m": m, "known": known, "invoked": true, "code": vlib.Code(err) + p})
				continue
			}
			want := [2]bool{i&1 != 0, i&2 != 0}
			if known && want == have {
				cancel()
				continue
			}
			p := vlib.CatchTimeout(long, func() {
				var cs grpc.ClientStream
				cs, err = cc.NewStream(ctx, &grpc.StreamDesc{ClientStreams: want[0], ServerStreams: want[1]}, m)
				if err == nil { // as with gRPC it may only be noticed later
					cs.SendMsg(&testproto.TestAllTypes{})
					cs.CloseSend()
					err = cs.RecvMsg(&testproto.TestAllTypes{})
				}
			})
			cancel()
			s.Add(M{"e": "shape", "m": m, "known": known, "invoked": false, "code": vlib.Code(err) + p})
		}
	}
	out.Write(s)
}

// pre: calls made with a context that has ended
func pre(out *vlib.Out, cc grpc.ClientConnInterface, transport string) {
	s := &vlib.Session{ID: transport + "-pre"}
	for i := 0; i < 200; i++ {
		for _, how := range []string{"cancelled", "deadline"} {
			for _, shape := range []string{"Unary", "Unarys", "SS", "CS", "Bidi"} {
				t := &trig{Context: context.Background(), done: make(chan struct{})}
				if how == "cancelled" {
					t.end(context.Canceled)
				} else {
					t.end(context.DeadlineExceeded)
				}
				c := &call{id: fmt.Sprint("pre", how, shape, i), ops: make(chan func(*side), 1), srvEnded: make(chan struct{}), free: true}
				c.ops <- func(sd *side) {
					c.retMsg = &testproto.TestAllTypes{DefaultInt32: 1}
					dst := &testproto.TestAllTypes{}
					if err := sd.recv(dst); err != nil {
						c.retErr = err
						return
					}
					if sd.send != nil {
						c.retErr = sd.send(dst)
					}
				}
				close(c.ops)
				callsMu.Lock()
				calls[c.id] = c
				callsMu.Unlock()
				ctx := metadata.AppendToOutgoingContext(t, "x-call", c.id)
				var err error
				p := vlib.CatchTimeout(long, func() {
					if shape == "Unary" {
						err = cc.Invoke(ctx, "/verif.Wrap/Unary", &testproto.TestAllTypes{}, &testproto.TestAllTypes{})
						return
					}
					var cs grpc.ClientStream
					cs, err = cc.NewStream(ctx, &grpc.StreamDesc{ClientStreams: shape == "CS" || shape == "Bidi", ServerStreams: shape == "SS" || shape == "Bidi"},
						"/verif.Wrap/"+strings.TrimSuffix(shape, "s"))
					if err != nil {
						return
					}
					if err = cs.SendMsg(&testproto.TestAllTypes{}); err == nil || err == io.EOF {
						cs.CloseSend()
						err = cs.RecvMsg(&testproto.TestAllTypes{})
					}
				})
				if p != "" {
					s.Add(M{"e": "stuck", "p": p})
				}
				s.Add(outcome(M{"e": "pre", "shape": shape, "how": how}, err))
				callsMu.Lock()
				delete(calls, c.id)
				callsMu.Unlock()
			}
		}
	}
	s.Add(M{"e": "gone", "leaked": len(vlib.LibGoroutinesAfter(leakedBefore, long)) - leakedBefore, "ctxdone": true, "own": true})
	out.Write(s)
}

var details = &durationpb.Duration{Seconds: 7}

var _ = proto.Equal
