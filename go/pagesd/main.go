// pagesd pages through every paged list of the library's trait servers and records each request and its page.
package main

import (
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
)

type M = vlib.M

// device is one paged list.
type device struct {
	list   func(size int32, token string, mask *fieldmaskpb.FieldMask) ([]proto.Message, string, int32, error)
	full   func() []proto.Message // in the order of the listing
	add    func(id string)
	remove func(id string) // nil if things stay
}

func items[T proto.Message](l []T) (out []proto.Message) {
	for _, m := range l {
		out = append(out, m)
	}
	return
}

var ctx = context.Background()

type kind struct {
	name  string
	masks [][]string // besides none
	new   func(ids []string, o ...resource.Option) device
	empty bool // may an item have an empty key
}

var kinds = []kind{
	{"modes", [][]string{{"id"}, {"title", "normal"}, {"description"}}, func(ids []string, o ...resource.Option) device {
		for _, id := range ids {
			o = append(o, electricpb.WithModeOption(resource.WithInitialRecord(id, &traits.ElectricMode{Id: id, Title: "t" + id, Description: "d"})))
		}
		m := electricpb.NewModel(o...)
		s := electricpb.NewModelServer(m)
		return device{
			list: func(size int32, token string, mask *fieldmaskpb.FieldMask) ([]proto.Message, string, int32, error) {
				r, err := s.ListModes(ctx, &traits.ListModesRequest{Name: "n", PageSize: size, PageToken: token, ReadMask: mask})
				return items(r.GetModes()), r.GetNextPageToken(), r.GetTotalSize(), err
			},
			full:   func() []proto.Message { return items(m.Modes()) },
			add:    func(id string) { _ = m.AddMode(&traits.ElectricMode{Id: id, Title: "t" + id, Description: "d"}) },
			remove: func(id string) { _ = m.DeleteMode(id) },
		}
	}, true},
	{"hails", [][]string{{"id"}, {"state"}, {"origin.display_name", "call_time"}}, func(ids []string, o ...resource.Option) device {
		for i, id := range ids {
			o = append(o, resource.WithInitialRecord(id, &traits.Hail{Id: id, Origin: &traits.Hail_Location{DisplayName: "t" + id}, State: traits.Hail_State(i % 3)}))
		}
		m := hailpb.NewModel(append(o, hailpb.WithKeepAlive(-1))...)
		s := hailpb.NewModelServer(m)
		return device{
			list: func(size int32, token string, mask *fieldmaskpb.FieldMask) ([]proto.Message, string, int32, error) {
				r, err := s.ListHails(ctx, &traits.ListHailsRequest{Name: "n", PageSize: size, PageToken: token, ReadMask: mask})
				return items(r.GetHails()), r.GetNextPageToken(), r.GetTotalSize(), err
			},
			full:   func() []proto.Message { return items(m.ListHails()) },
			add:    func(id string) { _, _ = m.CreateHail(&traits.Hail{Origin: &traits.Hail_Location{DisplayName: id}}) },
			remove: func(id string) { _, _ = m.DeleteHail(id) },
		}
	}, true},
	{"children", [][]string{{"name"}, {"traits"}}, func(ids []string, o ...resource.Option) device {
		for _, id := range ids {
			if id == "" {
				o = append(o, parentpb.WithChildrenOption(resource.WithInitialRecord("", &traits.Child{})))
			} else {
				o = append(o, parentpb.WithInitialChildren(&traits.Child{Name: id, Traits: []*traits.Trait{{Name: "x" + id}}}))
			}
		}
		m := parentpb.NewModel(o...)
		s := parentpb.NewModelServer(m)
		return device{
			list: func(size int32, token string, mask *fieldmaskpb.FieldMask) ([]proto.Message, string, int32, error) {
				r, err := s.ListChildren(ctx, &traits.ListChildrenRequest{Name: "n", PageSize: size, PageToken: token, ReadMask: mask})
				return items(r.GetChildren()), r.GetNextPageToken(), r.GetTotalSize(), err
			},
			full:   func() []proto.Message { return items(m.ListChildren()) },
			add:    func(id string) { m.AddChildTrait(id, trait.Name("x")) },
			remove: func(id string) { _, _ = m.RemoveChildByName(id) },
		}
	}, true},
	{"publications", [][]string{{"id"}, {"version"}, {"body", "media_type"}}, func(ids []string, o ...resource.Option) device {
		for _, id := range ids {
			o = append(o, publicationpb.WithPublicationOption(resource.WithInitialRecord(id, &traits.Publication{Id: id, Body: []byte("b" + id), MediaType: "m"})))
		}
		m := publicationpb.NewModel(o...)
		s := publicationpb.NewModelServer(m)
		return device{
			list: func(size int32, token string, mask *fieldmaskpb.FieldMask) ([]proto.Message, string, int32, error) {
				r, err := s.ListPublications(ctx, &traits.ListPublicationsRequest{Name: "n", PageSize: size, PageToken: token, ReadMask: mask})
				return items(r.GetPublications()), r.GetNextPageToken(), r.GetTotalSize(), err
			},
			full:   func() []proto.Message { return items(m.ListPublications()) },
			add:    func(id string) { _, _ = m.CreatePublication(&traits.Publication{Id: id}) },
			remove: func(id string) { _, _ = m.DeletePublication(id) },
		}
	}, true},
	{"consumables", [][]string{{"name"}, {"default_portion"}, {"display_name"}}, func(ids []string, o ...resource.Option) device {
		m := vendingpb.NewModel(o...)
		add := func(id string) {
			_, _ = m.CreateConsumable(&traits.Consumable{Name: id, DisplayName: "d" + id, DefaultPortion: &traits.Consumable_Quantity{Amount: float32(len(id))}})
		}
		for _, id := range ids {
			add(id)
		}
		s := vendingpb.NewModelServer(m)
		return device{
			list: func(size int32, token string, mask *fieldmaskpb.FieldMask) ([]proto.Message, string, int32, error) {
				r, err := s.ListConsumables(ctx, &traits.ListConsumablesRequest{Name: "n", PageSize: size, PageToken: token, ReadMask: mask})
				return items(r.GetConsumables()), r.GetNextPageToken(), r.GetTotalSize(), err
			},
			full:   func() []proto.Message { return items(m.ListConsumables()) },
			add:    add,
			remove: func(id string) { _, _ = m.DeleteConsumable(id) },
		}
	}, false},
	{"inventory", [][]string{{"consumable"}, {"remaining"}, {"used.amount"}}, func(ids []string, o ...resource.Option) device {
		for i, id := range ids {
			o = append(o, vendingpb.WithInventoryOption(resource.WithInitialRecord(id, &traits.Consumable_Stock{Consumable: id, Remaining: &traits.Consumable_Quantity{Amount: float32(i)}, Used: &traits.Consumable_Quantity{Amount: float32(i % 2), Unit: 2}})))
		}
		m := vendingpb.NewModel(o...)
		s := vendingpb.NewModelServer(m)
		return device{
			list: func(size int32, token string, mask *fieldmaskpb.FieldMask) ([]proto.Message, string, int32, error) {
				r, err := s.ListInventory(ctx, &traits.ListInventoryRequest{Name: "n", PageSize: size, PageToken: token, ReadMask: mask})
				return items(r.GetInventory()), r.GetNextPageToken(), r.GetTotalSize(), err
			},
			full:   func() []proto.Message { return items(m.ListInventory()) },
			add:    func(id string) { _, _ = m.CreateStock(&traits.Consumable_Stock{Consumable: id}) },
			remove: func(id string) { _, _ = m.DeleteStock(id) },
		}
	}, true},
	{"waste", nil, func(ids []string, o ...resource.Option) device {
		m := wastepb.NewModel(o...)
		ts := time.Now()
		add := func(id string) {
			ts = ts.Add(time.Second)
			_, _ = m.AddWasteRecord(&traits.WasteRecord{Id: id, Weight: 3, Area: "a" + id, WasteCreateTime: timestamppb.New(ts)})
		}
		for _, id := range ids {
			add(id)
		}
		s := wastepb.NewModelServer(m)
		return device{
			list: func(size int32, token string, mask *fieldmaskpb.FieldMask) ([]proto.Message, string, int32, error) {
				r, err := s.ListWasteRecords(ctx, &traits.ListWasteRecordsRequest{Name: "n", PageSize: size, PageToken: token, ReadMask: mask})
				return items(r.GetWasteRecords()), r.GetNextPageToken(), r.GetTotalSize(), err
			},
			full: func() []proto.Message { return items(m.ListWasteRecords(m.GetWasteRecordCount(), 1<<30)) },
			add:  add,
		}
	}, true},
}

func dig(m proto.Message) string {
	h := sha1.Sum([]byte(vlib.Canon(m)))
	return hex.EncodeToString(h[:4])
}

// project is m with the fields of the mask only.
func project(m proto.Message, mask []string) proto.Message {
	if mask == nil {
		return m
	}
	out := m.ProtoReflect().New()
	for _, p := range mask {
		src, dst := m.ProtoReflect(), out
		fs := strings.Split(p, ".")
		for i, f := range fs {
			fd := src.Descriptor().Fields().ByName(protoreflect.Name(f))
			if !src.Has(fd) {
				break
			}
			if i == len(fs)-1 {
				dst.Set(fd, src.Get(fd))
				break
			}
			src, dst = src.Get(fd).Message(), dst.Mutable(fd).Message()
		}
	}
	return out.Interface()
}

type sess struct {
	*vlib.Session
	d     device
	k     kind
	rnd   *rand.Rand
	n     int
	toks  []string // issued
	stop  bool
	masks [][]string
}

// same: the same items in whatever order
func same(a, b []proto.Message) bool {
	n := map[string]int{}
	for _, m := range a {
		n[vlib.Canon(m)]++
	}
	for _, m := range b {
		n[vlib.Canon(m)]--
	}
	for _, k := range n {
		if k != 0 {
			return false
		}
	}
	return true
}

func mname(m []string) string { return "m" + strings.Join(m, ",") }

// snap records what there is.
func (s *sess) snap(first bool) {
	full := s.d.full()
	// the order of the listing is that of a page that has everything on it
	if len(full) <= 1000 {
		var l []proto.Message
		if p := vlib.CatchTimeout(20*time.Second, func() { l, _, _, _ = s.d.list(1000, "", nil) }); p == "" && same(l, full) {
			full = l
		}
	} else if s.k.name == "children" { // the model keeps no order
		sort.Slice(full, func(i, j int) bool { return full[i].(*traits.Child).Name < full[j].(*traits.Child).Name })
	}
	by := M{}
	for _, mask := range s.masks {
		l := []string{}
		for _, m := range full {
			l = append(l, dig(project(m, mask)))
		}
		by[mname(mask)] = l
	}
	s.n = len(full)
	s.Add(M{"e": "items", "n": len(full), "by": by, "first": first})
}

func (s *sess) page(cls string, size int32, token string, mask []string) (next string, ok bool) {
	var fm *fieldmaskpb.FieldMask
	if mask != nil {
		fm = &fieldmaskpb.FieldMask{Paths: mask}
	}
	var got []proto.Message
	var total int32
	var err error
	e := M{"e": "page", "cls": cls, "size": size, "tok": token, "mask": mname(mask), "got": []string{}, "next": "", "total": 0}
	if p := vlib.CatchTimeout(20*time.Second, func() { got, next, total, err = s.d.list(size, token, fm) }); p != "" {
		e["e"], e["p"] = "panic", p
		s.Add(e)
		s.stop = true
		return "", false
	}
	e["code"] = vlib.Code(err)
	if err != nil {
		s.Add(e)
		return "", false
	}
	l := []string{}
	for _, m := range got {
		l = append(l, dig(m))
	}
	e["got"], e["next"], e["total"] = l, next, int(total)
	s.Add(e)
	if next != "" {
		s.toks = append(s.toks, next)
	}
	return next, true
}

// chain follows the tokens from tok on.
func (s *sess) chain(cls, tok string, mask []string, size func() int32) {
	for i := 0; !s.stop; i++ {
		if i > 2*s.n+10 {
			s.Add(M{"e": "endless"})
			return
		}
		next, ok := s.page(cls, size(), tok, mask)
		if !ok {
			if cls == "chain" && !s.stop {
				continue // (a negative size in between)
			}
			return
		}
		if next == "" {
			s.Add(M{"e": "end"})
			return
		}
		tok = next
	}
}

func ids(rnd *rand.Rand, n int, empty bool) (out []string) {
	seen := map[string]bool{"": !empty || rnd.Intn(3) > 0}
	if !seen[""] && n > 0 {
		seen[""] = true
		out = append(out, "")
	}
	alpha := []string{"abA", "ab/-", "é\x00z", "0123456789abcdef"}[rnd.Intn(4)]
	r := []rune(alpha)
	for len(out) < n {
		var b strings.Builder
		if len(out) > 0 && rnd.Intn(2) == 0 { // one that starts like another
			b.WriteString(out[rnd.Intn(len(out))])
			b.WriteRune(r[rnd.Intn(len(r))])
		} else {
			for j := 1 + rnd.Intn(3+n/20); j > 0; j-- {
				b.WriteRune(r[rnd.Intn(len(r))])
			}
		}
		if id := b.String(); !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return
}

func session(out *vlib.Out, id string, k kind, n int, rnd *rand.Rand) {
	s := &sess{Session: &vlib.Session{ID: id}, k: k, rnd: rnd, masks: append([][]string{nil}, k.masks...)}
	var o []resource.Option
	all := ids(rnd, n, k.empty)
	if rnd.Intn(4) == 0 && k.name != "waste" && n < 900 {
		switch rnd.Intn(2) {
		case 0:
			o = append(o, resource.WithIDInterceptor(strings.ToLower))
		case 1:
			o = append(o, resource.WithIDInterceptor(func(id string) string {
				b := []rune(id)
				for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
				return string(b)
			}))
		}
	}
	if p := vlib.Catch(func() { s.d = k.new(all, o...) }); p != "" {
		return // not a collection there can be
	}
	s.Cfg = M{"intercept": len(o) > 0}
	s.snap(true)
	if s.n > 1000 && len(o) > 0 {
		return // (whose order is not known)
	}
	if s.n != n && k.name != "waste" && len(o) == 0 {
		s.Add(M{"e": "lost", "n": s.n, "want": n})
	}
	sizes := []int32{0, 1, 2, 3, 7, 50, 1000, 5000, int32(1 + rnd.Intn(60)), int32(s.n), int32(s.n + 1), 1<<31 - 1}
	if s.n > 300 {
		sizes = []int32{0, 50, 7, 1000, 1001, 5000, int32(s.n - 1), int32(s.n), 999}
		if !vlib.Thorough() {
			rnd.Shuffle(len(sizes), func(i, j int) { sizes[i], sizes[j] = sizes[j], sizes[i] })
			sizes = append(sizes[:1], 1000, 0)
		}
	} else if !vlib.Thorough() {
		rnd.Shuffle(len(sizes), func(i, j int) { sizes[i], sizes[j] = sizes[j], sizes[i] })
		sizes = sizes[:4]
	}
	pickMask := func() []string { return s.masks[rnd.Intn(len(s.masks))] }
	for _, z := range sizes {
		if z == 0 || rnd.Intn(2) == 0 {
			s.chain("chain", "", nil, func() int32 { return z })
		} else {
			s.chain("chain", "", pickMask(), func() int32 { return z })
		}
	}
	// sizes that change, and are wrong, on the way
	s.chain("chain", "", pickMask(), func() int32 {
		if rnd.Intn(8) == 0 {
			return -int32(1 + rnd.Intn(5))
		}
		return int32(rnd.Intn(s.n/3 + 5))
	})
	for _, z := range []int32{-1, -2, -5, -1 << 31} {
		if !s.stop {
			s.page("chain", z, "", nil)
		}
	}
	// again from somewhere
	for i := 0; i < 4 && len(s.toks) > 0 && !s.stop; i++ {
		s.page("chain", int32(rnd.Intn(9)), s.toks[rnd.Intn(len(s.toks))], pickMask())
	}
	bad := []string{"%%%", "a", "\xff\xfe", "not a token", "====", "AAAA-", "12 34", "1.5", "0x1"}
	for i := 0; i < 4 && !s.stop; i++ {
		s.page("bad", int32(rnd.Intn(9)-1), bad[rnd.Intn(len(bad))], nil)
	}
	s.odd()
	// what old tokens do when the collection is another
	if !s.stop {
		for i := rnd.Intn(4); i >= 0; i-- {
			if full := all; s.d.remove != nil && len(full) > 0 && rnd.Intn(2) == 0 {
				s.d.remove(full[rnd.Intn(len(full))])
			} else {
				s.d.add(fmt.Sprintf("zz%d", rnd.Intn(99)))
			}
		}
		s.snap(false)
		s.odd()
		s.chain("chain", "", pickMask(), func() int32 { return int32(1 + rnd.Intn(9)) })
	}
	out.Write(s.Session)
}

// odd sends tokens that were never issued, or not for this.
func (s *sess) odd() {
	rnd := s.rnd
	big := []string{"9223372036854775807", "99999999999999999999", "100000", "-1", "-9223372036854775808", "0", "00", "+3", "101", fmt.Sprint(s.n + 1), fmt.Sprint(s.n)}
	for i := 0; i < 5 && !s.stop; i++ {
		tok := ""
		switch {
		case len(s.toks) == 0 || rnd.Intn(4) == 0:
			switch rnd.Intn(3) {
			case 0:
				tok = big[rnd.Intn(len(big))]
			case 1:
				b := make([]byte, rnd.Intn(8))
				rnd.Read(b)
				tok = base64.StdEncoding.EncodeToString(b)
			case 2: // some offset, some name
				tok = base64.StdEncoding.EncodeToString([][]byte{{8, 3}, {8, 0}, {18, 0}, {18, 1, 'a'}, {8, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1}, {18, 2, 'a', 'a', 8, 1}}[rnd.Intn(6)])
			}
		default:
			b := []byte(s.toks[rnd.Intn(len(s.toks))])
			switch rnd.Intn(4) {
			case 0:
				b = b[:rnd.Intn(len(b))]
			case 1:
				b[rnd.Intn(len(b))] = "Aa0/+=9~"[rnd.Intn(8)]
			case 2:
				b = append(b, b...)
			}
			tok = string(b)
		}
		if tok == "" {
			continue
		}
		z := int32(rnd.Intn(60) + 1)
		keep := s.toks
		s.chain("odd", tok, nil, func() int32 { return z })
		s.toks = keep
	}
}

func main() {
	out := vlib.NewOut()
	defer out.Close()
	var w, of int
	fmt.Sscanf(os.Args[1], "%d/%d", &w, &of)
	rnd := rand.New(rand.NewSource(vlib.Seed()*100 + int64(w)))
	i := 0
	var ns []int
	for n := 0; n <= 60; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 99, 100, 101, 999, 1000, 1001)
	ns = append(ns, ns[:61]...)
	if vlib.Thorough() {
		for i := 0; i < 6; i++ {
			ns = append(ns, ns[:67]...)
		}
		ns = append(ns, 1999, 2000, 2001, 1500)
	}
	for _, k := range kinds {
		for _, n := range ns {
			i++
			if k.name == "waste" && n >= 999 {
				n -= 100 // it comes with some
			}
			if i%of == w {
				session(out, fmt.Sprintf("%s-%d-%d", k.name, n, i), k, n, rnd)
			}
		}
	}
}
