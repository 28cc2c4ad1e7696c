// groupd runs groups of members that answer when the script says, and records who was started, who answered what in
// which order, whose context had ended whenever nothing moved any more, and what the caller got.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/group"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
)

type M = vlib.M

type script struct {
	Strat string   `json:"strat"`
	N     int      `json:"n"`
	K     int      `json:"k"`
	Back  [][2]any `json:"back"`
}

// quiesce waits until every other goroutine is waiting for something.
// (The collector runs between the sessions only: whoever starts it waits like everybody else.)
func quiesce() {
	for n := 0; ; n++ {
		runtime.Gosched()
		l := runtime.Stack(buf, true)
		if l == len(buf) {
			buf = make([]byte, 2*len(buf))
			continue
		}
		busy := false
		for i, g := range strings.Split(string(buf[:l]), "\n\n") {
			if i == 0 { // this one
				continue
			}
			h, _, _ := strings.Cut(g, "\n")
			_, h, _ = strings.Cut(h, "[")
			waits := false
			for _, w := range []string{"chan ", "select", "semacquire", "sync.", "IO wait", "finalizer wait"} {
				waits = waits || strings.HasPrefix(h, w)
			}
			busy = busy || !waits
		}
		if !busy {
			return
		}
		if n > 100 {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

var buf = make([]byte, 64<<10)

type answer struct {
	ok  bool
	msg proto.Message
	val bool // not the end: a value on a stream
}

type member struct {
	r     *run
	i     int // from 1
	gate  chan answer
	aware bool
	late  bool // looks for the end of its context first
	err   error
	ctx   context.Context
	down  bool
}

type run struct {
	*vlib.Session
	mu   sync.Mutex
	ms   []*member
	kind string
	rnd  *rand.Rand
}

func (m *member) msg() string { return fmt.Sprintf("m%d", m.i) }

func (m *member) start(ctx context.Context) {
	m.r.mu.Lock()
	defer m.r.mu.Unlock()
	m.ctx = ctx
	m.r.Add(M{"e": "start", "i": m.i})
}

func (m *member) back(ok bool, msg string) {
	m.r.mu.Lock()
	defer m.r.mu.Unlock()
	m.down = true
	m.r.Add(M{"e": "back", "i": m.i, "ok": ok, "msg": msg})
}

// ended is the answer of a member whose context has.
func (m *member) ended(ctx context.Context) error {
	err := fmt.Errorf("member %d: %w", m.i, ctx.Err())
	m.r.mu.Lock()
	m.err = err
	m.r.mu.Unlock()
	m.back(false, "")
	return err
}

// next waits for what the member is to do.
func (m *member) next(ctx context.Context) (answer, bool) {
	done := ctx.Done()
	if !m.aware {
		done = nil
	}
	if m.late && m.aware && ctx.Err() != nil {
		return answer{}, false
	}
	select {
	case a := <-m.gate:
		return a, true
	case <-done:
		return answer{}, false
	}
}

// serve is one answer of a member that is a function.
func (m *member) serve(ctx context.Context) (proto.Message, error) {
	m.start(ctx)
	a, ok := m.next(ctx)
	if !ok {
		return nil, m.ended(ctx)
	}
	if !a.ok {
		m.back(false, "")
		return a.msg, m.err
	}
	if a.msg == nil {
		m.back(true, "")
	} else {
		m.back(true, m.msg())
	}
	return a.msg, nil
}

// the members as devices of the two groups
type onoffs struct {
	traits.OnOffApiClient
	r *run
}

func (r *run) byName(name string) *member {
	var i int
	if _, err := fmt.Sscanf(name, "dev%d", &i); err != nil || i < 1 || i > len(r.ms) {
		panic("no such device " + name)
	}
	return r.ms[i-1]
}

func asOnOff(m proto.Message, err error) (*traits.OnOff, error) {
	if m == nil {
		return nil, err
	}
	return m.(*traits.OnOff), err
}

func (o onoffs) GetOnOff(ctx context.Context, in *traits.GetOnOffRequest, _ ...grpc.CallOption) (*traits.OnOff, error) {
	return asOnOff(o.r.byName(in.Name).serve(ctx))
}
func (o onoffs) UpdateOnOff(ctx context.Context, in *traits.UpdateOnOffRequest, _ ...grpc.CallOption) (*traits.OnOff, error) {
	return asOnOff(o.r.byName(in.Name).serve(ctx))
}

type stream struct {
	grpc.ClientStream
	m   *member
	ctx context.Context
}

func (s stream) next() (answer, error) {
	a, ok := s.m.next(s.ctx)
	if !ok {
		return a, s.m.ended(s.ctx)
	}
	if !a.val {
		s.m.back(false, "")
		return a, s.m.err
	}
	return a, nil
}

type onoffStream struct{ stream }

func (s onoffStream) Recv() (*traits.PullOnOffResponse, error) {
	a, err := s.next()
	if err != nil {
		return nil, err
	}
	if a.msg == nil {
		return &traits.PullOnOffResponse{}, nil
	}
	return &traits.PullOnOffResponse{Changes: []*traits.PullOnOffResponse_Change{{Name: "x", OnOff: a.msg.(*traits.OnOff)}}}, nil
}

func (o onoffs) PullOnOff(ctx context.Context, in *traits.PullOnOffRequest, _ ...grpc.CallOption) (traits.OnOffApi_PullOnOffClient, error) {
	m := o.r.byName(in.Name)
	m.start(ctx)
	return onoffStream{stream{m: m, ctx: ctx}}, nil
}

type lights struct {
	traits.LightApiClient
	r *run
}

func asLight(m proto.Message, err error) (*traits.Brightness, error) {
	if m == nil {
		return nil, err
	}
	return m.(*traits.Brightness), err
}

func (o lights) GetBrightness(ctx context.Context, in *traits.GetBrightnessRequest, _ ...grpc.CallOption) (*traits.Brightness, error) {
	return asLight(o.r.byName(in.Name).serve(ctx))
}
func (o lights) UpdateBrightness(ctx context.Context, in *traits.UpdateBrightnessRequest, _ ...grpc.CallOption) (*traits.Brightness, error) {
	return asLight(o.r.byName(in.Name).serve(ctx))
}

type lightStream struct{ stream }

func (s lightStream) Recv() (*traits.PullBrightnessResponse, error) {
	a, err := s.next()
	if err != nil {
		return nil, err
	}
	if a.msg == nil {
		return &traits.PullBrightnessResponse{}, nil
	}
	return &traits.PullBrightnessResponse{Changes: []*traits.PullBrightnessResponse_Change{{Name: "x", Brightness: a.msg.(*traits.Brightness)}}}, nil
}

func (o lights) PullBrightness(ctx context.Context, in *traits.PullBrightnessRequest, _ ...grpc.CallOption) (traits.LightApi_PullBrightnessClient, error) {
	m := o.r.byName(in.Name)
	m.start(ctx)
	return lightStream{stream{m: m, ctx: ctx}}, nil
}

// sink is the server side of a group's own stream.
type sink struct {
	grpc.ServerStream
	ctx  context.Context
	r    *run
	fail bool
}

var errSink = errors.New("nobody listens")

func (s sink) Context() context.Context     { return s.ctx }
func (s sink) SetHeader(metadata.MD) error  { return nil }
func (s sink) SendHeader(metadata.MD) error { return nil }
func (s sink) SetTrailer(metadata.MD)       {}
func (s sink) sent() error {
	if s.fail {
		s.r.mu.Lock()
		s.r.Add(M{"e": "pc"})
		s.r.mu.Unlock()
		return errSink
	}
	return nil
}

type onoffSink struct{ sink }

func (s onoffSink) Send(*traits.PullOnOffResponse) error { return s.sent() }

type lightSink struct{ sink }

func (s lightSink) Send(*traits.PullBrightnessResponse) error { return s.sent() }

// the light levels average to whole numbers for any choice of up to eight
const level = 840

func (m *member) message() proto.Message {
	switch {
	case strings.HasPrefix(m.r.kind, "onoff"):
		return &traits.OnOff{State: m.onoff()}
	case strings.HasPrefix(m.r.kind, "light"):
		return &traits.Brightness{LevelPercent: float32(m.i * level)}
	}
	return wrapperspb.String(m.msg())
}

func (m *member) onoff() traits.OnOff_State {
	if m.i%2 == 0 {
		return traits.OnOff_ON
	}
	return traits.OnOff_OFF
}

func name(m proto.Message) string {
	if m == nil {
		return ""
	}
	if s, ok := m.(*wrapperspb.StringValue); ok {
		if s == nil {
			return ""
		}
		return s.Value
	}
	return vlib.Canon(m)
}

// whose tells which member's error it is: 0 nobody's and nil, -1 something else.
func (r *run) whose(err error) int {
	if err == nil {
		return 0
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	w := -1
	for _, m := range r.ms {
		if m.err == err {
			return m.i
		}
		if m.err != nil && errors.Is(err, m.err) {
			if w != -1 {
				return -1
			}
			w = m.i
		}
	}
	return w
}

func strategy(s string) group.ExecutionStrategy {
	return map[string]group.ExecutionStrategy{"all": group.ExecutionStrategyAll, "most": group.ExecutionStrategyMost,
		"any": group.ExecutionStrategyAny, "one": group.ExecutionStrategyOne, "fast": group.ExecutionStrategyFast,
		"race": group.ExecutionStrategyRace}[s]
}

// call makes the call and returns the event that describes what came of it.
func (r *run) call(ctx context.Context, sc script, st group.ExecutionStrategy, failSend bool) M {
	e := M{"e": "ret", "via": r.kind, "msgs": []string{}, "idx": 0, "val": 0}
	names := make([]string, sc.N)
	for i := range names {
		names[i] = fmt.Sprintf("dev%d", i+1)
	}
	var err error
	on := func(v *traits.OnOff, er error) {
		err = er
		e["val"] = int(v.GetState())
	}
	br := func(v *traits.Brightness, er error) {
		err = er
		x := v.GetLevelPercent()
		if math.Abs(float64(x)) > 1e6 || x != x {
			x = -1
		}
		e["val"] = int(math.Round(float64(x)))
	}
	og := onoffpb.NewGroup(onoffs{r: r}, names...)
	lg := lightpb.NewGroup(lights{r: r}, names...)
	snk := sink{ctx: ctx, r: r, fail: failSend}
	// (the other one is what it must not look at)
	other := strategy([]string{"all", "any", "one", "fast", "race"}[r.rnd.Intn(5)])
	switch r.kind {
	case "onoff-get", "onoff-pull":
		og.ReadExecution, og.WriteExecution = st, other
	case "light-get", "light-pull":
		lg.ReadExecution, lg.WriteExecution = st, other
	case "onoff-set":
		og.ReadExecution, og.WriteExecution = other, st
	case "light-set":
		lg.ReadExecution, lg.WriteExecution = other, st
	}
	switch r.kind {
	case "onoff-get":
		on(og.GetOnOff(ctx, &traits.GetOnOffRequest{Name: "g"}))
	case "onoff-set":
		on(og.UpdateOnOff(ctx, &traits.UpdateOnOffRequest{Name: "g", OnOff: &traits.OnOff{State: traits.OnOff_ON}}))
	case "onoff-pull":
		err = og.PullOnOff(&traits.PullOnOffRequest{Name: "g"}, onoffSink{snk})
	case "light-get":
		br(lg.GetBrightness(ctx, &traits.GetBrightnessRequest{Name: "g"}))
	case "light-set":
		br(lg.UpdateBrightness(ctx, &traits.UpdateBrightnessRequest{Name: "g", Brightness: &traits.Brightness{LevelPercent: 4}}))
	case "light-pull":
		err = lg.PullBrightness(&traits.PullBrightnessRequest{Name: "g"}, lightSink{snk})
	default:
		fs := make([]group.Member, sc.N)
		if sc.N == 0 && r.rnd.Intn(2) == 0 {
			fs = nil
		}
		for i, m := range r.ms {
			fs[i] = m.serve
		}
		var all []proto.Message
		var one proto.Message
		idx := -1
		if r.kind == "exec" {
			all, err = group.Execute(ctx, st, fs)
		} else {
			switch sc.Strat {
			case "all":
				all, err = group.ExecuteAll(ctx, fs)
			case "most":
				all, err = group.ExecuteMost(ctx, fs)
			case "any":
				all, err = group.ExecuteAny(ctx, fs)
			case "upto":
				all, err = group.ExecuteUpTo(ctx, sc.K, fs)
			case "one":
				one, idx, err = group.ExecuteOne(ctx, fs)
			case "fast":
				one, idx, err = group.ExecuteFast(ctx, fs)
			case "race":
				one, idx, err = group.ExecuteRace(ctx, fs)
			}
		}
		if r.kind == "direct" && (sc.Strat == "one" || sc.Strat == "fast" || sc.Strat == "race") {
			e["msgs"], e["idx"] = []string{name(one)}, idx+1
		} else {
			ms := []string{}
			for _, x := range all {
				ms = append(ms, name(x))
			}
			e["via"], e["msgs"] = "slice", ms
		}
	}
	e["err"] = r.whose(err)
	return e
}

func (r *run) quiet() {
	quiesce()
	r.mu.Lock()
	defer r.mu.Unlock()
	var cx []any
	for _, m := range r.ms {
		cx = append(cx, m.ctx != nil && m.ctx.Err() != nil)
	}
	if cx == nil {
		cx = []any{}
	}
	r.Add(M{"e": "quiet", "ctx": cx})
}

// play runs one script.  Unless it is "free", the next step is taken when nothing moves any more.
func play(out *vlib.Out, id string, sc script, kind string, mode string, rnd *rand.Rand) {
	r := &run{Session: &vlib.Session{ID: id}, kind: kind, rnd: rand.New(rand.NewSource(rnd.Int63()))}
	pull := strings.HasSuffix(kind, "-pull")
	for i := 1; i <= sc.N; i++ {
		m := &member{r: r, i: i, gate: make(chan answer, 8), err: fmt.Errorf("member %d failed", i)}
		if mode != "gated" {
			m.aware, m.late = rnd.Intn(3) > 0, rnd.Intn(2) == 0
		}
		r.ms = append(r.ms, m)
	}
	st := strategy(sc.Strat)
	if sc.Strat == "all" {
		switch rnd.Intn(4) {
		case 0:
			st = group.ExecutionStrategyUnspecified
		case 1:
			st = group.ExecutionStrategy(99)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	r.Add(M{"e": "call", "strat": sc.Strat, "n": sc.N, "k": sc.K, "kind": kind})
	ret := make(chan M, 1)
	failSend := pull && rnd.Intn(6) == 0
	go func() {
		var e M
		if p := vlib.Catch(func() { e = r.call(ctx, sc, st, failSend) }); p != "" {
			e = M{"e": "panic", "p": p}
		}
		r.mu.Lock()
		r.Add(e)
		r.mu.Unlock()
		ret <- e
	}()
	if mode != "free" {
		r.quiet()
	}
	cancelAt := -1
	if mode != "gated" && rnd.Intn(3) == 0 {
		cancelAt = rnd.Intn(len(sc.Back) + 1)
	}
	for j := 0; j <= len(sc.Back); j++ {
		if j == cancelAt {
			r.mu.Lock()
			r.Add(M{"e": "pc"})
			r.mu.Unlock()
			cancel()
			if mode != "free" {
				r.quiet()
			}
		}
		if j == len(sc.Back) {
			break
		}
		m := r.ms[int(sc.Back[j][0].(float64))-1]
		a := answer{ok: sc.Back[j][1].(bool)}
		if pull {
			for n := rnd.Intn(3); n > 0; n-- {
				v := answer{val: true, msg: m.message()}
				if rnd.Intn(5) == 0 {
					v.msg = nil
				}
				m.gate <- v
			}
			a.ok = false
		} else if a.ok {
			a.msg = m.message()
			if kind == "exec" && rnd.Intn(8) == 0 {
				a.msg = nil
			}
		} else if rnd.Intn(4) == 0 && kind != "onoff-get" && kind != "onoff-set" && kind != "light-get" && kind != "light-set" {
			a.msg = m.message() // an error and a message
		}
		m.gate <- a
		if mode == "free" || mode == "over" && rnd.Intn(2) == 0 {
			continue
		}
		r.quiet()
	}
	// whoever is left may go (a member that was never asked has nobody to wait for)
	for _, m := range r.ms {
		select {
		case m.gate <- answer{ok: !pull, msg: m.message()}:
		default:
		}
	}
	select {
	case <-ret:
	case <-time.After(vlib.Patience(20 * time.Second)):
		vlib.Expired()
		r.mu.Lock()
		r.Add(M{"e": "hang"})
		r.mu.Unlock()
	}
	left := vlib.LibGoroutinesAfter(leaked, 5*time.Second)
	r.mu.Lock()
	r.Add(M{"e": "end", "leaked": len(left) - leaked})
	r.mu.Unlock()
	leaked = len(left)
	if played++; played%100 == 0 {
		runtime.GC()
	}
	out.Write(r.Session)
}

var leaked, played int

func main() {
	out := vlib.NewOut()
	defer out.Close()
	debug.SetGCPercent(-1)
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	var w, n int
	fmt.Sscanf(os.Args[2], "%d/%d", &w, &n)
	rnd := rand.New(rand.NewSource(vlib.Seed()*1000 + int64(w)))
	rd := bufio.NewReader(f)
	kinds := []string{"exec", "direct", "onoff-get", "onoff-set", "light-get", "light-set", "onoff-pull", "light-pull"}
	for ln := 0; ; ln++ {
		line, err := rd.ReadBytes('\n')
		if err == io.EOF {
			break
		}
		if ln%n != w {
			continue
		}
		var sc script
		if err := json.Unmarshal(line, &sc); err != nil {
			panic(err)
		}
		ks := []string{"exec", "direct"}
		if sc.N < 3 || vlib.Thorough() {
			ks = kinds
		} else {
			ks = append(ks, kinds[2+rnd.Intn(len(kinds)-2)])
		}
		for _, k := range ks {
			if sc.Strat == "upto" && k != "direct" {
				continue
			}
			play(out, fmt.Sprintf("%s-%s-%d", k, sc.Strat, ln), sc, k, "gated", rnd)
		}
		play(out, fmt.Sprintf("aware-%s-%d", sc.Strat, ln), sc, pick(rnd, sc, kinds), "aware", rnd)
		if ln%3 == 0 || vlib.Thorough() {
			play(out, fmt.Sprintf("over-%s-%d", sc.Strat, ln), sc, pick(rnd, sc, kinds), "over", rnd)
		}
	}
	for i := 0; i < vlib.N(120, 1500); i++ {
		sc := script{Strat: []string{"all", "most", "any", "upto", "one", "fast", "race"}[rnd.Intn(7)], N: rnd.Intn(9)}
		sc.K = rnd.Intn(sc.N + 1)
		p := rnd.Float64()
		if sc.Strat != "upto" {
			sc.K = 0
		}
		for _, j := range rnd.Perm(sc.N) {
			if rnd.Intn(8) > 0 {
				sc.Back = append(sc.Back, [2]any{float64(j + 1), rnd.Float64() < p})
			}
		}
		mode := []string{"gated", "aware", "over", "free"}[rnd.Intn(4)]
		play(out, fmt.Sprintf("rand-%s-%s-%d", mode, sc.Strat, i), sc, pick(rnd, sc, kinds), mode, rnd)
	}
}

func pick(rnd *rand.Rand, sc script, kinds []string) string {
	if sc.Strat == "upto" {
		return "direct"
	}
	return kinds[rnd.Intn(len(kinds))]
}
