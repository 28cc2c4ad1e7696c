// gend feeds the repository's protoc plugins with the linked API descriptors: "req PARAMS" writes a
// CodeGeneratorRequest to stdout, "resp DIR" reads a CodeGeneratorResponse from stdin and writes its files under DIR.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/smart-core-os/sc-golang/internal/verif/rtab"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	if os.Args[1] == "resp" {
		b, err := io.ReadAll(os.Stdin)
		die(err)
		var r pluginpb.CodeGeneratorResponse
		die(proto.Unmarshal(b, &r))
		if r.Error != nil {
			die(fmt.Errorf("%s", r.GetError()))
		}
		for _, f := range r.File {
			p := filepath.Join(os.Args[2], filepath.Clean("/"+f.GetName()))
			die(os.MkdirAll(filepath.Dir(p), 0o777))
			die(os.WriteFile(p, []byte(f.GetContent()), 0o666))
		}
		return
	}
	req := &pluginpb.CodeGeneratorRequest{Parameter: proto.String("")}
	seen := map[string]bool{}
	var add func(f protoreflect.FileDescriptor)
	add = func(f protoreflect.FileDescriptor) {
		if seen[f.Path()] {
			return
		}
		seen[f.Path()] = true
		for i := 0; i < f.Imports().Len(); i++ {
			add(f.Imports().Get(i).FileDescriptor)
		}
		req.ProtoFile = append(req.ProtoFile, protodesc.ToFileDescriptorProto(f))
	}
	gen := map[string]bool{}
	for _, e := range rtab.All {
		d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(e.Desc.ServiceName))
		die(err)
		add(d.ParentFile())
		gen[d.ParentFile().Path()] = true
	}
	for p := range gen {
		req.FileToGenerate = append(req.FileToGenerate, p)
	}
	sort.Strings(req.FileToGenerate)
	b, err := proto.Marshal(req)
	die(err)
	os.Stdout.Write(b)
}
