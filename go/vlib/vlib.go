// Package vlib holds what every verification driver needs: session recording, message projection, panic capture,
// goroutine accounting and seeded generation of messages.  It only uses public API of the library under test.
package vlib

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Seed is the run's seed.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N picks a count per tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// M is one JSON object.
type M = map[string]any

// Session is one recorded history.
type Session struct {
	ID  string `json:"id"`
	Cfg any    `json:"cfg"`
	Ev  []M    `json:"ev"`
	mu  sync.Mutex
}

// Add appends an event.
func (s *Session) Add(e M) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Ev = append(s.Ev, e)
}

// Out writes sessions to VERIF_OUT.
type Out struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	N  int
}

// NewOut opens VERIF_OUT.
func NewOut() *Out {
	p := os.Getenv("VERIF_OUT")
	f, err := os.Create(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, "verif: cannot create output:", err)
		os.Exit(3)
	}
	return &Out{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

// Write writes one session.
func (o *Out) Write(s *Session) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.Ev == nil {
		s.Ev = []M{}
	}
	if s.Cfg == nil {
		s.Cfg = M{}
	}
	b, err := json.Marshal(s)
	if err != nil {
		fmt.Fprintln(os.Stderr, "verif: marshal:", err)
		os.Exit(3)
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	o.w.Write(b)
	o.w.WriteByte('\n')
	o.w.Flush() // the library may kill the process next
	o.N++
}

// Flush makes everything written so far durable, in case the library kills the process next.
func (o *Out) Flush() {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.w.Flush()
}

// Close flushes.
func (o *Out) Close() {
	o.Flush()
	o.f.Close()
}

var expired atomic.Int32

// Expired notes that something did not happen within the patience one had.
func Expired() { expired.Add(1) }

// Patience is d, and less once that has been waited in vain a few times: what is wrong is recorded by then.
func Patience(d time.Duration) time.Duration {
	if expired.Load() >= 3 {
		return d / 20
	}
	return d
}

// Catch runs f and returns the panic value as a string ("" if none).
func Catch(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = "panic: " + fmt.Sprint(r)
			if len(p) > 300 {
				p = p[:300]
			}
		}
	}()
	f()
	return ""
}

// CatchTimeout runs f in a goroutine; "hang" if it has not returned within d.
func CatchTimeout(d time.Duration, f func()) string {
	ch := make(chan string, 1)
	go func() { ch <- Catch(f) }()
	t := time.NewTimer(Patience(d))
	defer t.Stop()
	select {
	case p := <-ch:
		return p
	case <-t.C:
		Expired()
		return "hang"
	}
}

// Code gives the status code name of err: "OK" for nil, "Unknown" for non-status errors.
func Code(err error) string {
	if err == nil {
		return "OK"
	}
	s, ok := status.FromError(err)
	if !ok {
		return codes.Unknown.String()
	}
	return s.Code().String()
}

// Fmt formats a scalar.
func Fmt(fd protoreflect.FieldDescriptor, v protoreflect.Value) string {
	switch fd.Kind() {
	case protoreflect.EnumKind:
		return strconv.Itoa(int(v.Enum()))
	case protoreflect.BytesKind:
		return "x" + hex.EncodeToString(v.Bytes())
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		f := v.Float()
		if f == 0 && math.Signbit(f) {
			return "-0"
		}
		return strconv.FormatFloat(f, 'g', -1, 64)
	case protoreflect.StringKind:
		return v.String()
	case protoreflect.MessageKind, protoreflect.GroupKind:
		return Canon(v.Message().Interface())
	default:
		return fmt.Sprint(v.Interface())
	}
}

// Canon is a canonical, readable rendering of a message; equal strings iff equal messages (unknown fields included).
func Canon(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	r := m.ProtoReflect()
	if !r.IsValid() {
		return "nil"
	}
	var fds []protoreflect.FieldDescriptor
	r.Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool {
		fds = append(fds, fd)
		return true
	})
	sort.Slice(fds, func(i, j int) bool { return fds[i].Number() < fds[j].Number() })
	var b strings.Builder
	b.WriteByte('{')
	for i, fd := range fds {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(string(fd.Name()))
		b.WriteByte(':')
		v := r.Get(fd)
		switch {
		case fd.IsList():
			b.WriteByte('[')
			l := v.List()
			for j := 0; j < l.Len(); j++ {
				if j > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(Fmt(fd, l.Get(j)))
			}
			b.WriteByte(']')
		case fd.IsMap():
			var ks []string
			v.Map().Range(func(k protoreflect.MapKey, mv protoreflect.Value) bool {
				ks = append(ks, k.String()+"="+Fmt(fd.MapValue(), mv))
				return true
			})
			sort.Strings(ks)
			b.WriteString("<" + strings.Join(ks, " ") + ">")
		default:
			b.WriteString(Fmt(fd, v))
		}
	}
	if u := r.GetUnknown(); len(u) > 0 {
		b.WriteString(" ?" + hex.EncodeToString(u))
	}
	b.WriteByte('}')
	return b.String()
}

// Flat is the message as a set of path -> values: scalar <<v>>, present message <<"{}">>, list its elements,
// map entries as sub paths "m[k]".  The root "" is always present for a non-nil message.
func Flat(m proto.Message) map[string][]string {
	out := map[string][]string{}
	if m == nil || !m.ProtoReflect().IsValid() {
		out["!nil"] = []string{}
		return out
	}
	out[""] = []string{"{}"}
	flat(out, "", m.ProtoReflect())
	return out
}

func flat(out map[string][]string, pfx string, r protoreflect.Message) {
	r.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		p := pfx + string(fd.Name())
		switch {
		case fd.IsList():
			l := v.List()
			es := make([]string, l.Len())
			for i := range es {
				es[i] = Fmt(fd, l.Get(i))
			}
			out[p] = es
		case fd.IsMap():
			out[p] = []string{"<>"}
			v.Map().Range(func(k protoreflect.MapKey, mv protoreflect.Value) bool {
				out[p+"["+k.String()+"]"] = []string{Fmt(fd.MapValue(), mv)}
				return true
			})
		case fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind:
			out[p] = []string{"{}"}
			flat(out, p+".", v.Message())
		default:
			out[p] = []string{Fmt(fd, v)}
		}
		return true
	})
	if u := r.GetUnknown(); len(u) > 0 {
		out[pfx+"?"] = []string{hex.EncodeToString(u)}
	}
}

// Schema lists the paths of a message type: path -> {k: scalar|msg|list|map, o: oneof name or ""}.
func Schema(md protoreflect.MessageDescriptor, depth int) map[string]M {
	out := map[string]M{}
	schema(out, "", md, depth)
	return out
}

func schema(out map[string]M, pfx string, md protoreflect.MessageDescriptor, depth int) {
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		p := pfx + string(fd.Name())
		k := "scalar"
		switch {
		case fd.IsList():
			k = "list"
		case fd.IsMap():
			k = "map"
		case fd.Kind() == protoreflect.MessageKind:
			k = "msg"
		}
		o := ""
		if od := fd.ContainingOneof(); od != nil && !od.IsSynthetic() {
			o = pfx + string(od.Name())
		}
		out[p] = M{"k": k, "o": o}
		if k == "msg" && depth > 1 {
			schema(out, p+".", fd.Message(), depth-1)
		}
	}
}

// Gen fills random messages from a small value domain.
type Gen struct {
	R *rand.Rand
	// P is the probability a field is set.
	P float64
	// Depth limits nesting.
	Depth int
}

// Fill sets random fields of m.
func (g Gen) Fill(m proto.Message) { g.fill(m.ProtoReflect(), g.Depth) }

func (g Gen) fill(r protoreflect.Message, depth int) {
	fds := r.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if g.R.Float64() > g.P {
			continue
		}
		switch {
		case fd.IsList():
			if fd.Message() != nil && depth <= 1 {
				continue
			}
			l := r.Mutable(fd).List()
			for n := 1 + g.R.Intn(2); n > 0; n-- {
				if fd.Message() != nil {
					e := l.NewElement()
					g.fill(e.Message(), depth-1)
					l.Append(e)
				} else {
					l.Append(g.scalar(fd))
				}
			}
		case fd.IsMap():
			if fd.MapValue().Message() != nil && depth <= 1 {
				continue
			}
			mp := r.Mutable(fd).Map()
			for n := 1 + g.R.Intn(2); n > 0; n-- {
				k := g.scalar(fd.MapKey()).MapKey()
				if fd.MapValue().Message() != nil {
					e := mp.NewValue()
					g.fill(e.Message(), depth-1)
					mp.Set(k, e)
				} else {
					mp.Set(k, g.scalar(fd.MapValue()))
				}
			}
		case fd.Message() != nil:
			if depth <= 1 {
				continue
			}
			g.fill(r.Mutable(fd).Message(), depth-1)
		default:
			r.Set(fd, g.scalar(fd))
		}
	}
}

func (g Gen) scalar(fd protoreflect.FieldDescriptor) protoreflect.Value {
	n := g.R.Intn(3) // 0 is the default value
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(n > 0)
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(g.R.Intn(vs.Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(n))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(n))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(n))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(n))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(n) / 2)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(n) / 2)
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte{0, 1, 2}[:n])
	default:
		return protoreflect.ValueOfString([]string{"", "p", "q"}[n])
	}
}

// LibGoroutines returns the stacks of live goroutines that are running, or were started by, library code.
func LibGoroutines() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		lib := false
		for _, line := range strings.Split(g, "\n") {
			l := strings.TrimPrefix(line, "created by ")
			if strings.HasPrefix(l, "github.com/smart-core-os/sc-golang/") && !strings.HasPrefix(l, "github.com/smart-core-os/sc-golang/internal/verif/") {
				lib = true
				break
			}
		}
		if lib {
			out = append(out, g)
		}
	}
	return out
}

// LibGoroutinesAfter polls until at most want library goroutines remain, or d has passed; returns what is left.
func LibGoroutinesAfter(want int, d time.Duration) []string {
	end := time.Now().Add(Patience(d))
	sl := time.Microsecond * 50
	for {
		runtime.Gosched()
		g := LibGoroutines()
		if len(g) <= want {
			return g
		}
		if time.Now().After(end) {
			Expired()
			return g
		}
		time.Sleep(sl)
		if sl < 20*time.Millisecond {
			sl *= 2
		}
	}
}
