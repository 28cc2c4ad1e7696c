// raced uses every concurrently usable part of the library from several goroutines at once, following programs emitted
// by the specification, to be built with the race detector (C11).
//
// Nothing here may synchronise the goroutines with each other while they work: each has its own random source, its own
// messages and its own context; what they share is made before they start and only read.
package main

import (
	"bufio"
	"context"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type M = vlib.M

var (
	protoT = reflect.TypeOf((*proto.Message)(nil)).Elem()
	woT    = reflect.TypeOf([]resource.WriteOption{})
	roT    = reflect.TypeOf([]resource.ReadOption{})
)

// op is something a goroutine does with what is under test.
type op struct {
	name, kind string
	do         func(g *gor)
}

// gor is a goroutine of the workload.
type gor struct {
	*common
	r    *rand.Rand
	ctx  context.Context
	subs []context.CancelFunc
	wait []chan struct{}
}

// common is shared between the goroutines of a session, and not changed while they run.
type common struct {
	ids   []string
	msgs  map[reflect.Type][]proto.Message // written by nobody
	masks map[protoreflect.FullName][]*fieldmaskpb.FieldMask
}

func (c *common) id(r *rand.Rand) string { return c.ids[r.Intn(len(c.ids))] }

// look reads all of a message.
func look(m proto.Message) {
	if m == nil || !m.ProtoReflect().IsValid() {
		return
	}
	sink(walk(m.ProtoReflect()))
}

var sunk atomic.Int32

func sink(n int) {
	if n == -12345 {
		sunk.Add(1)
	}
}

func walk(m protoreflect.Message) int {
	n := 0
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		n += walkValue(fd, v)
		return true
	})
	return n + len(m.GetUnknown())
}

func walkValue(fd protoreflect.FieldDescriptor, v protoreflect.Value) int {
	n := 1
	switch {
	case fd.IsMap():
		v.Map().Range(func(k protoreflect.MapKey, x protoreflect.Value) bool {
			if fd.MapValue().Message() != nil {
				n += walk(x.Message())
			}
			n += len(k.String())
			return true
		})
	case fd.IsList():
		for i := 0; i < v.List().Len(); i++ {
			if fd.Message() != nil {
				n += walk(v.List().Get(i).Message())
			} else {
				n += one(fd, v.List().Get(i))
			}
		}
	case fd.Message() != nil:
		n += walk(v.Message())
	default:
		n += one(fd, v)
	}
	return n
}

func one(fd protoreflect.FieldDescriptor, v protoreflect.Value) int {
	switch fd.Kind() {
	case protoreflect.StringKind:
		n := 0
		for _, b := range []byte(v.String()) {
			n += int(b)
		}
		return n
	case protoreflect.BytesKind:
		n := 0
		for _, b := range v.Bytes() {
			n += int(b)
		}
		return n
	}
	return 1
}

// protos finds the messages in a value.
func protos(v reflect.Value, f func(proto.Message), depth int) {
	if !v.IsValid() || depth == 0 {
		return
	}
	if v.Type().Implements(protoT) {
		if (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface) && v.IsNil() {
			return
		}
		if v.CanInterface() {
			f(v.Interface().(proto.Message))
		}
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			protos(v.Elem(), f, depth-1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			protos(v.Index(i), f, depth-1)
		}
	case reflect.Struct:
		if v.Type().PkgPath() == "time" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				protos(v.Field(i), f, depth-1)
			}
		}
	}
}

func fill(r *rand.Rand, m proto.Message, ids []string) {
	vlib.Gen{R: r, P: []float64{0.3, 0.6, 0.9}[r.Intn(3)], Depth: 4}.Fill(m)
	fix(r, m.ProtoReflect(), ids)
}

// fix makes messages acceptable more often.
func fix(r *rand.Rand, rm protoreflect.Message, ids []string) {
	fds := rm.Descriptor().Fields()
	for _, n := range []string{"id", "name", "consumable"} {
		if fd := fds.ByName(protoreflect.Name(n)); fd != nil && fd.Kind() == protoreflect.StringKind && !fd.IsList() {
			rm.Set(fd, protoreflect.ValueOfString(ids[r.Intn(len(ids))]))
		}
	}
	if fd := fds.ByName("preset"); fd != nil && rm.Has(fd) {
		names := []string{"off", "low", "med", "p1", "p2"}
		if fd.Message() == nil && fd.Kind() == protoreflect.StringKind {
			rm.Set(fd, protoreflect.ValueOfString(names[r.Intn(5)]))
		} else if fd.Message() != nil {
			if nf := fd.Message().Fields().ByName("name"); nf != nil {
				rm.Mutable(fd).Message().Set(nf, protoreflect.ValueOfString(names[r.Intn(5)]))
			}
		}
	}
	rm.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case strings.Contains(string(fd.Name()), "tween"):
			rm.Clear(fd) // ramps: see light.go
		case fd.Name() == "read_mask", fd.Name() == "update_mask", fd.Name() == "page_token", fd.Name() == "page_size":
			rm.Clear(fd)
		case fd.Message() != nil && !fd.IsMap() && !fd.IsList():
			fix(r, v.Message(), ids)
		}
		return true
	})
}

// message is one to hand to the library: a new one, the caller's own, or one that is used by others, too.
func (g *gor) message(t reflect.Type) (m proto.Message, own bool) {
	if ms := g.msgs[t]; len(ms) > 0 && g.r.Intn(3) == 0 {
		return ms[g.r.Intn(len(ms))], false
	}
	m = reflect.New(t.Elem()).Interface().(proto.Message)
	fill(g.r, m, g.ids)
	return m, true
}

func (g *gor) mask(md protoreflect.MessageDescriptor) *fieldmaskpb.FieldMask {
	if md == nil {
		return nil
	}
	ms := g.masks[md.FullName()]
	if len(ms) == 0 || g.r.Intn(2) == 0 {
		return nil
	}
	return ms[g.r.Intn(len(ms))]
}

func (c *common) prepare(r *rand.Rand, t reflect.Type) {
	if t == nil || t.Kind() != reflect.Pointer || c.msgs[t] != nil {
		return
	}
	for i := 0; i < 2; i++ {
		m := reflect.New(t.Elem()).Interface().(proto.Message)
		fill(r, m, c.ids)
		c.msgs[t] = append(c.msgs[t], m)
	}
	c.prepareMasks(r, reflect.Zero(t).Interface().(proto.Message).ProtoReflect().Descriptor())
}

func (c *common) prepareMasks(r *rand.Rand, md protoreflect.MessageDescriptor) {
	if c.masks[md.FullName()] != nil {
		return
	}
	var all []string
	for k := range vlib.Schema(md, 2) {
		all = append(all, k)
	}
	if len(all) == 0 {
		return
	}
	for i := 0; i < 3; i++ {
		m := &fieldmaskpb.FieldMask{}
		for n := r.Intn(4); n >= 0; n-- {
			m.Paths = append(m.Paths, all[r.Intn(len(all))])
		}
		c.masks[md.FullName()] = append(c.masks[md.FullName()], m)
	}
}

// follow reads a stream until it ends, in a goroutine of its own.
func (g *gor) follow(cancel context.CancelFunc, recv func() bool) {
	done := make(chan struct{})
	g.subs, g.wait = append(g.subs, cancel), append(g.wait, done)
	go func() {
		defer close(done)
		for recv() {
		}
	}()
}

func (g *gor) room() bool {
	if len(g.subs) < 3 {
		return true
	}
	// give up the oldest
	g.subs[0]()
	g.subs, g.wait = g.subs[1:], append(g.wait[1:], g.wait[0])
	return false
}

// target is what a session uses.
type target struct {
	ops   []op
	types []reflect.Type
	mds   []protoreflect.MessageDescriptor
	ids   []string
	again func() *target // another of the same
}

type ctor struct {
	name string
	make func(r *rand.Rand) *target
}

func run(c ctor, id string, program []string, width, each int, r *rand.Rand) *vlib.Session {
	s := &vlib.Session{ID: id, Cfg: M{"dev": c.name, "program": program}}
	ts := []*target{c.make(r), c.make(r)}
	com := &common{ids: ts[0].ids, msgs: map[reflect.Type][]proto.Message{}, masks: map[protoreflect.FullName][]*fieldmaskpb.FieldMask{}}
	for _, t := range ts[0].types {
		com.prepare(r, t)
	}
	for _, md := range ts[0].mds {
		com.prepareMasks(r, md)
	}
	by := map[string][][]op{}
	for i, t := range ts {
		for _, o := range t.ops {
			if by[o.kind] == nil {
				by[o.kind] = make([][]op, 2)
			}
			by[o.kind][i] = append(by[o.kind][i], o)
		}
	}
	by["new"] = [][]op{{{"new", "new", func(g *gor) { c.make(g.r) }}}, nil}
	type plan struct{ ops []op }
	var plans []plan
	for k := 0; k < width; k++ {
		kind := program[k%len(program)]
		var p plan
		for i := 0; i < each; i++ {
			kd := kind
			if kind == "any" {
				kd = []string{"get", "write", "create", "delete", "pull", "rpc", "stream"}[r.Intn(7)]
			}
			w := 0
			if r.Intn(4) == 0 && kd != "new" {
				w = 1
			}
			if kd == "new" && i > 2 {
				break
			}
			if by[kd] == nil || len(by[kd][w]) == 0 {
				continue
			}
			p.ops = append(p.ops, by[kd][w][r.Intn(len(by[kd][w]))])
		}
		plans = append(plans, p)
	}
	before := races()
	var wg sync.WaitGroup
	var dead atomic.Bool
	panics := make([]string, len(plans))
	start := make(chan struct{})
	for k, p := range plans {
		kinds := map[string]bool{}
		for _, o := range p.ops {
			kinds[o.kind] = true
		}
		ks := []string{}
		for x := range kinds {
			ks = append(ks, x)
		}
		s.Add(M{"e": "start", "g": k, "kinds": ks})
		wg.Add(1)
		g := &gor{common: com, r: rand.New(rand.NewSource(r.Int63()))}
		ctx, cancel := context.WithCancel(context.Background())
		g.ctx = ctx
		go func() {
			defer wg.Done()
			defer cancel()
			<-start
			for _, o := range p.ops {
				if pn := vlib.Catch(func() { o.do(g) }); pn != "" {
					panics[k] = o.name + ": " + pn
					dead.Store(true)
					return
				}
				if g.r.Intn(3) == 0 {
					runtime.Gosched()
				}
			}
			for _, c := range g.subs {
				c()
			}
			for _, w := range g.wait {
				<-w
			}
		}()
	}
	done := make(chan struct{})
	close(start)
	go func() { wg.Wait(); close(done) }()
	wait := time.NewTimer(vlib.Patience(15 * time.Second))
	defer wait.Stop()
	var why string
	tick := time.NewTicker(time.Millisecond)
	defer tick.Stop()
	deadFor := 0
loop:
	for {
		select {
		case <-done:
			break loop
		case <-wait.C:
			why = "not over"
			break loop
		case <-tick.C:
			if dead.Load() {
				if deadFor++; deadFor > 200 {
					why = "not over"
					break loop
				}
			}
		}
	}
	n := races() - before
	s.Add(M{"e": "detector", "races": n})
	if dead.Load() || why != "" {
		if why == "" {
			for _, p := range panics {
				why += p
			}
		}
		s.Add(M{"e": "gaveup", "why": why})
		return s
	}
	for k := range plans {
		s.Add(M{"e": "end", "g": k})
	}
	return s
}

func main() {
	var w, of int
	fmt.Sscanf(os.Args[2], "%d/%d", &w, &of)
	out := vlib.NewOut()
	defer out.Close()
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	var programs [][]string
	word := regexp.MustCompile(`[a-z]+`)
	for sc := bufio.NewScanner(f); sc.Scan(); {
		programs = append(programs, word.FindAllString(sc.Text(), -1))
	}
	only := os.Getenv("ONLY")
	from := 0 // sessions up to this one were over, or ended an earlier process
	fmt.Sscanf(os.Getenv("FROM"), "%d", &from)
	at := func(n int) { os.WriteFile(os.Getenv("VERIF_OUT")+".at", []byte(fmt.Sprint(n)), 0o644) }
	rnd := rand.New(rand.NewSource(vlib.Seed()*1000003 + int64(w)))
	ctors := all()
	n := 0
	for rep := 0; rep < vlib.N(4, 20); rep++ {
		for _, c := range ctors {
			if only != "" && !strings.HasPrefix(c.name, only) {
				continue
			}
			has := map[string]bool{"new": true}
			for _, o := range c.make(rnd).ops {
				has[o.kind] = true
			}
			for i, p := range programs {
				use := false
				ok := true
				for _, k := range p {
					ok = ok && has[k]
					use = use || k != "get"
				}
				// larger programs in part, a different part by every seed
				part := 1
				if len(p) > 2 && !vlib.Thorough() {
					part = 6
				}
				n++
				if !ok || !use || n <= from || n%of != w || (part > 1 && rnd.Intn(part) != 0) {
					continue
				}
				at(n)
				s := run(c, fmt.Sprintf("%s-%d-%d", c.name, i, rep), p, len(p)*2, 10, rnd)
				out.Write(s)
			}
			// and everything at once
			for k := 0; k < vlib.N(3, 10); k++ {
				n++
				if n <= from || n%of != w {
					continue
				}
				at(n)
				out.Write(run(c, fmt.Sprintf("%s-any%d-%d", c.name, k, rep), []string{"any"}, 4+rnd.Intn(13), 20, rnd))
			}
		}
	}
	if os.Getenv("VERBOSE") != "" {
		fmt.Fprintln(os.Stderr, n)
	}
}
