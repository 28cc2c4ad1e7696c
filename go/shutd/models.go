package main

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// modelRun: one subscription to a trait model, or one server stream
type modelRun struct {
	log
	ctx    context.Context
	cancel context.CancelFunc
	was    bool
	wmu    sync.Mutex
	at     time.Time
}

func newModelRun() *modelRun {
	mr := &modelRun{}
	mr.ctx, mr.cancel = context.WithCancel(context.Background())
	return mr
}

func (mr *modelRun) stop() {
	mr.wmu.Lock()
	was := mr.was
	mr.was = true
	if !was {
		mr.at = time.Now()
	}
	mr.wmu.Unlock()
	if !was {
		mr.add(M{"e": "cancel", "k": "k0"})
		mr.cancel()
	}
}

// write with everything the model has; streams of single items may end
func (mr *modelRun) writes(r *rand.Rand, d tm.Dev, conns []grpc.ClientConnInterface, n int) {
	ws := tm.Writes(d.Model)
	for ; n > 0; n-- {
		t0 := time.Now()
		mr.add(M{"e": "remove", "w": 0, "id": "1"}) // perhaps
		if len(ws) > 0 {
			w := ws[r.Intn(len(ws))]
			// what a model makes of arbitrary values is not the question here
			vlib.Catch(func() { w.Call(r) })
		} else {
			vlib.Catch(func() { rpcWrite(r, d, conns) })
		}
		mr.wmu.Lock()
		if mr.at.After(t0) {
			t0 = mr.at
		}
		mr.wmu.Unlock()
		mr.add(M{"e": "wrote", "slow": time.Since(t0) > limit*2/3})
	}
}

// rpcWrite calls an Update or Reset rpc
func rpcWrite(r *rand.Rand, d tm.Dev, conns []grpc.ClientConnInterface) {
	for i, s := range d.Svcs {
		for _, m := range tm.Methods(s.Desc.ServiceName) {
			if m.ServerStream || m.ClientStream || len(m.Name) < 6 || m.Name[:6] != "Update" {
				continue
			}
			req := m.In.New().Interface()
			fds := req.ProtoReflect().Descriptor().Fields()
			for j := 0; j < fds.Len(); j++ {
				if fd := fds.Get(j); fd.Message() != nil && !fd.IsList() && !fd.IsMap() && fd.Name() != "update_mask" {
					vlib.Gen{R: r, P: 0.5, Depth: 1}.Fill(req.ProtoReflect().Mutable(fd).Message().Interface())
				}
			}
			ctx, cancel := context.WithTimeout(context.Background(), limit)
			_ = conns[i].Invoke(ctx, m.Full, req, m.Out.New().Interface())
			cancel()
		}
	}
}

func (mr *modelRun) finish(out *vlib.Out, id string, writers, done <-chan struct{}) {
	if !wait(writers, 2*time.Millisecond) {
		mr.stop()
		if !wait(writers, limit) {
			mr.add(M{"e": "writers stuck"})
			bad.Add(1)
		}
	}
	mr.stop()
	if !wait(done, limit) {
		bad.Add(1)
	}
	mr.end(out, id)
}

// models: the subscription methods of every trait model
func models(out *vlib.Out, seed int64, rounds int) {
	for round := 0; round < rounds; round++ {
		for _, c := range tm.All() {
			if c.Name == "waste" && round > 0 {
				continue
			}
			for pi := range tm.Pulls(c.New().Model) {
				script := seed*141650939 + int64(round)*1000 + int64(pi)
				for _, most := range []int{-1, 0, 1} {
					r := rand.New(rand.NewSource(script + int64(most)))
					sweep(r, 45, func(k, hold int) bool {
						r := rand.New(rand.NewSource(script))
						mr := newModelRun()
						d := c.New()
						in := newInject(k, hold, mr.stop)
						p := tm.Pulls(d.Model)[pi]
						id := ""
						if p.ByID {
							id = "1"
						}
						mr.add(M{"e": "sub", "k": "k0", "id": id, "bp": true, "reads": most < 0})
						var ch reflect.Value
						mr.call(func() { ch = p.Open(mr.ctx, id) })
						mr.add(M{"e": "subbed", "k": "k0"})
						done := make(chan struct{})
						go func() {
							n := 0
							for {
								if most >= 0 && n >= most {
									<-mr.ctx.Done()
									time.Sleep(10 * time.Microsecond)
								}
								if _, ok := ch.Recv(); !ok {
									break
								}
								n++
							}
							mr.add(M{"e": "closed", "k": "k0", "intime": true})
							close(done)
						}()
						var wg sync.WaitGroup
						wg.Add(1)
						go func() { defer wg.Done(); mr.writes(r, d, nil, 3) }()
						mr.finish(out, "model-"+c.Name+"-"+p.Name, group(&wg), done)
						x := in.passed()
						in.c.Finish(time.Second)
						return x
					})
					if tooMany() {
						return
					}
				}
				// nobody drains after cancelling
				for try := 0; try < 3; try++ {
					r := rand.New(rand.NewSource(script))
					mr := newModelRun()
					d := c.New()
					p := tm.Pulls(d.Model)[pi]
					id := ""
					if p.ByID {
						id = "1"
					}
					mr.add(M{"e": "sub", "k": "k0", "id": id, "bp": true, "reads": false})
					mr.call(func() { p.Open(mr.ctx, id) })
					mr.add(M{"e": "subbed", "k": "k0"})
					var wg sync.WaitGroup
					wg.Add(1)
					go func() { defer wg.Done(); mr.writes(r, d, nil, try) }()
					wait(group(&wg), time.Millisecond)
					mr.stop()
					if !wait(group(&wg), limit) {
						mr.add(M{"e": "writers stuck"})
					}
					mr.add(M{"e": "closed", "k": "k0", "intime": true}) // left alone: only its goroutines matter
					mr.end(out, "abandoned-"+c.Name+"-"+p.Name)
				}
			}
		}
	}
}

// streams: the server streaming rpcs of every device, through the in-process connection
func streams(out *vlib.Out, seed int64, rounds int) {
	for round := 0; round < rounds; round++ {
		for _, c := range tm.All() {
			d0 := c.New()
			for si, s := range d0.Svcs {
				for mi, m := range tm.Methods(s.Desc.ServiceName) {
					if !m.ServerStream || m.ClientStream {
						continue
					}
					script := seed*160481183 + int64(round)*1000 + int64(mi)
					for _, most := range []int{-1, 0, 1} {
						r := rand.New(rand.NewSource(script + int64(most)))
						sweep(r, 40, func(k, hold int) bool {
							r := rand.New(rand.NewSource(script))
							mr := newModelRun()
							d := c.New()
							var conns []grpc.ClientConnInterface
							for _, s := range d.Svcs {
								conns = append(conns, s.Conn())
							}
							in := newInject(k, hold, mr.stop)
							req := m.In.New().Interface()
							fixReq(req)
							mr.add(M{"e": "sub", "k": "k0", "id": "1", "bp": true, "reads": most < 0})
							done := make(chan struct{})
							go func() {
								defer close(done)
								mr.call(func() {
									defer mr.add(M{"e": "closed", "k": "k0", "intime": true})
									st, err := conns[si].NewStream(metadata.NewOutgoingContext(mr.ctx, metadata.MD{}), &grpc.StreamDesc{ServerStreams: true}, m.Full)
									if err != nil {
										mr.stop()
										return
									}
									if st.SendMsg(req) == nil {
										_ = st.CloseSend()
									}
									for n := 0; most < 0 || n < most; n++ {
										if err := st.RecvMsg(m.Out.New().Interface()); err != nil {
											mr.stop() // the stream is over: what for is not the question here
											return
										}
									}
									<-mr.ctx.Done()
								})
							}()
							var wg sync.WaitGroup
							wg.Add(1)
							go func() { defer wg.Done(); mr.writes(r, d, conns, 3) }()
							mr.finish(out, fmt.Sprintf("stream-%s-%s", c.Name, m.Name), group(&wg), done)
							x := in.passed()
							in.c.Finish(time.Second)
							return x
						})
						if tooMany() {
							return
						}
					}
				}
			}
		}
	}
}

func fixReq(m proto.Message) {
	fds := m.ProtoReflect().Descriptor().Fields()
	for _, n := range []string{"id", "name", "consumable"} {
		if fd := fds.ByName(protoName(n)); fd != nil {
			m.ProtoReflect().Set(fd, protoString("1"))
		}
	}
}

func protoName(n string) protoreflect.Name    { return protoreflect.Name(n) }
func protoString(s string) protoreflect.Value { return protoreflect.ValueOfString(s) }
