package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"

	"github.com/smart-core-os/sc-golang/internal/verif/rtab"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/middleware/name"
)

// odd messages: fields called name that are not a string, or that may be present and empty
func odd() []protoreflect.MessageDescriptor {
	f := func(n string, num int32, t descriptorpb.FieldDescriptorProto_Type, l descriptorpb.FieldDescriptorProto_Label) *descriptorpb.FieldDescriptorProto {
		return &descriptorpb.FieldDescriptorProto{Name: &n, Number: &num, Type: &t, Label: &l}
	}
	opt, rep := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL, descriptorpb.FieldDescriptorProto_LABEL_REPEATED
	str, i32, byt := descriptorpb.FieldDescriptorProto_TYPE_STRING, descriptorpb.FieldDescriptorProto_TYPE_INT32, descriptorpb.FieldDescriptorProto_TYPE_BYTES
	presence := f("name", 1, str, opt)
	presence.Proto3Optional = proto.Bool(true)
	presence.OneofIndex = proto.Int32(0)
	nested := f("inner", 2, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, opt)
	nested.TypeName = proto.String(".verif.names.Str")
	fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{
		Name: proto.String("verif/names.proto"), Package: proto.String("verif.names"), Syntax: proto.String("proto3"),
		MessageType: []*descriptorpb.DescriptorProto{
			{Name: proto.String("Str"), Field: []*descriptorpb.FieldDescriptorProto{f("title", 1, str, opt), f("name", 7, str, opt), f("names", 3, str, opt)}},
			{Name: proto.String("Num"), Field: []*descriptorpb.FieldDescriptorProto{f("name", 1, i32, opt), f("title", 2, str, opt)}},
			{Name: proto.String("Bytes"), Field: []*descriptorpb.FieldDescriptorProto{f("name", 1, byt, opt)}},
			{Name: proto.String("List"), Field: []*descriptorpb.FieldDescriptorProto{f("name", 1, str, rep)}},
			{Name: proto.String("Presence"), Field: []*descriptorpb.FieldDescriptorProto{presence}, OneofDecl: []*descriptorpb.OneofDescriptorProto{{Name: proto.String("_name")}}},
			{Name: proto.String("None"), Field: []*descriptorpb.FieldDescriptorProto{f("title", 1, str, opt), nested}},
		},
	}, nil)
	if err != nil {
		panic(err)
	}
	var out []protoreflect.MessageDescriptor
	for i := 0; i < fd.Messages().Len(); i++ {
		out = append(out, fd.Messages().Get(i))
	}
	return out
}

type recvStream struct {
	grpc.ServerStream
	msgs []proto.Message
	errs []error
	sent []any
}

func (r *recvStream) RecvMsg(m any) error {
	err := r.errs[0]
	src := r.msgs[0]
	r.errs, r.msgs = r.errs[1:], r.msgs[1:]
	proto.Merge(m.(proto.Message), src)
	return err
}
func (r *recvStream) SendMsg(m any) error { r.sent = append(r.sent, m); return nil }

func names(out *vlib.Out, rnd *rand.Rand) {
	type mt struct {
		id  string
		new func() proto.Message
	}
	var types []mt
	seen := map[string]bool{}
	for _, e := range rtab.All {
		d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(e.Desc.ServiceName))
		if err != nil {
			panic(err)
		}
		ms := d.(protoreflect.ServiceDescriptor).Methods()
		for i := 0; i < ms.Len(); i++ {
			for _, md := range []protoreflect.MessageDescriptor{ms.Get(i).Input(), ms.Get(i).Output()} {
				if seen[string(md.FullName())] {
					continue
				}
				seen[string(md.FullName())] = true
				t, err := protoregistry.GlobalTypes.FindMessageByName(md.FullName())
				if err != nil {
					panic(err)
				}
				types = append(types, mt{string(md.FullName()), func() proto.Message { return t.New().Interface() }})
			}
		}
	}
	for _, md := range odd() {
		types = append(types, mt{string(md.FullName()), func() proto.Message { return dynamicpb.NewMessage(md) }})
	}
	for _, t := range types {
		s := &vlib.Session{ID: "name-" + t.id, Cfg: M{"fb": false, "fac": false}}
		for i := 0; i < vlib.N(10, 60); i++ {
			dflt := []string{"server", "server", "s/2", ""}[rnd.Intn(4)]
			m := t.new()
			vlib.Gen{R: rnd, P: []float64{0, 0.4, 0.9}[i%3], Depth: 3}.Fill(m)
			fd := m.ProtoReflect().Descriptor().Fields().ByName("name")
			named := fd != nil && fd.Kind() == protoreflect.StringKind && !fd.IsList()
			if fd != nil && fd.HasPresence() && dflt == "" {
				dflt = "server"
			}
			if named && rnd.Intn(3) == 0 {
				m.ProtoReflect().Set(fd, protoreflect.ValueOfString([]string{"", " ", "x", "server"}[rnd.Intn(4)]))
			}
			if rnd.Intn(4) == 0 {
				m.ProtoReflect().SetUnknown([]byte{0xf8, 0x3f, byte(rnd.Intn(100))})
			}
			before := vlib.Flat(m)
			var after map[string][]string
			same, calls := true, 0
			p := vlib.Catch(func() {
				if i%2 == 0 {
					ctx := context.WithValue(context.Background(), s, 1)
					wantErr := error(nil)
					if rnd.Intn(2) == 0 {
						wantErr = errors.New("no")
					}
					info := &grpc.UnaryServerInfo{FullMethod: "/x"}
					resp, err := name.IfAbsentUnaryInterceptor(dflt)(ctx, m, info, func(c context.Context, req any) (any, error) {
						calls++
						after = vlib.Flat(req.(proto.Message))
						same = same && c.Value(s) == 1
						return i, wantErr
					})
					same = same && resp == i && err == wantErr
				} else {
					// the stream receives this one, possibly after others, and may end with an error that leaves it alone
					recvErr := error(nil)
					if rnd.Intn(4) == 0 {
						recvErr = errors.New("gone")
					}
					other := t.new()
					rs := &recvStream{msgs: []proto.Message{other, m}, errs: []error{nil, recvErr}}
					wantErr := error(nil)
					if rnd.Intn(2) == 0 {
						wantErr = errors.New("no")
					}
					err := name.IfAbsentStreamInterceptor(dflt)(s, rs, &grpc.StreamServerInfo{}, func(srv any, ss grpc.ServerStream) error {
						calls++
						same = same && srv == s
						same = same && ss.RecvMsg(t.new()) == nil
						dst := t.new()
						e := ss.RecvMsg(dst)
						same = same && e == recvErr
						after = vlib.Flat(dst)
						if recvErr != nil { // what was received before an error is nobody's business
							after = nil
						}
						same = same && ss.SendMsg(i) == nil && len(rs.sent) == 1 && rs.sent[0] == i
						return wantErr
					})
					same = same && err == wantErr
				}
			})
			if p != "" {
				s.Add(M{"e": "panic", "p": p})
				break
			}
			if calls != 1 {
				same = false
			}
			if after == nil {
				if !same {
					s.Add(M{"e": "name", "named": named, "dflt": dflt, "before": before, "after": before, "same": false})
				}
				continue
			}
			s.Add(M{"e": "name", "named": named, "dflt": dflt, "before": before, "after": after, "same": same})
		}
		out.Write(s)
	}
	// not a message at all
	s := &vlib.Session{ID: "name-notproto", Cfg: M{"fb": false, "fac": false}}
	for _, v := range []any{nil, 7, "x", struct{ Name string }{""}} {
		got := any(errors.New("not called"))
		p := vlib.Catch(func() {
			name.IfAbsentUnaryInterceptor("d")(context.Background(), v, nil, func(_ context.Context, req any) (any, error) { got = req; return nil, nil })
		})
		b := M{"v": []string{fmt.Sprint(v)}}
		s.Add(M{"e": "name", "named": false, "dflt": "d", "before": b, "after": M{"v": []string{fmt.Sprint(got)}}, "same": p == ""})
	}
	out.Write(s)
}
